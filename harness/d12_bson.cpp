// flavours: asan
// D12: BSON encoding is exact and self-consistent
#include "world.hpp"
extern "C" {
#include "utils/bson.h"
#include "dlite-bson.h"
}
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static void init() { dlite_err_set_stream(NULL); }

// ------------------------------------------------ reference encoder / checker
struct Node { int type; S name, data; std::vector<Node> kids; int how = 0; };
static S le32(uint32_t v) { S s; for (int i = 0; i < 4; i++) s += (char)(v >> 8 * i); return s; }
static S refdoc(const std::vector<Node> &v);
static S refelem(const Node &n) {
  S s(1, (char)n.type); s += n.name + S(1, '\0');
  switch (n.type) {
  case bsonDocument: case bsonArray: return s + refdoc(n.kids);
  case bsonString: return s + le32(n.data.size() + 1) + n.data + S(1, '\0');
  case bsonBinary: return s + le32(n.data.size()) + S(1, '\0') + n.data;
  default: return s + n.data;
  }
}
static S refdoc(const std::vector<Node> &v) { S s; for (auto &n : v) s += refelem(n); return le32(s.size() + 5) + s + S(1, '\0'); }

// independent parser of the subset: false if not well formed (deep) 
static bool refparse(const S &d, std::vector<Node> &out, bool deep, int depth = 0) {
  if (d.size() < 5) return false;
  uint32_t sz; memcpy(&sz, d.data(), 4); if (sz < 5 || sz > d.size() || sz > 0x7fffffff || d[sz - 1]) return false;
  size_t p = 4, end = sz - 1;
  while (p < end) {
    Node n; n.type = (unsigned char)d[p++];
    size_t q = d.find('\0', p); if (q == S::npos || q >= end) return false;
    n.name = d.substr(p, q - p); p = q + 1; size_t len = 0;
    auto need = [&](size_t k) { return k <= end - p; };
    switch (n.type) {
    case bsonDouble: case 0x11: case 0x12: len = 8; break;
    case bsonInt32: len = 4; break;
    case bsonBool: len = 1; break;
    case bsonNull: len = 0; break;
    case bsonString: case bsonBinary: case bsonDocument: case bsonArray: {
      if (!need(4)) return false;
      int32_t l; memcpy(&l, d.data() + p, 4);
      if (n.type == bsonString) { p += 4; if (l < 1 || !need(l) || d[p + l - 1]) return false; n.data = d.substr(p, l - 1); p += l; out.push_back(n); continue; }
      if (n.type == bsonBinary) { p += 4; if (!need(1) || d[p]) return false; p++; if (l < 0 || !need(l)) return false; len = l; break; }
      if (l < 5 || !need(l) || d[p + l - 1]) return false;
      len = l;
      if (deep && depth < 50 && !refparse(d.substr(p, l), n.kids, true, depth + 1)) return false;
      break; }
    default: return false;
    }
    if (!need(len)) return false;
    n.data = d.substr(p, len); p += len; out.push_back(n);
  }
  return p == end;
}

// ------------------------------------------------ building documents
static Node gen_node(Gen &g, int depth) {
  Node n; n.name = g.chance(1, 8) ? S() : g.chance(1, 3) ? g.text(8) : g.ident(8);
  int k = g.below(depth < 4 ? 12 : 8);
  auto raw = [&](size_t len) { uint64_t v = g.u64v(); if (g.flip()) v = (uint64_t)g.i64(); n.data.assign((char *)&v, len); };
  switch (k) {
  case 0: n.type = bsonDouble; { double d = g.f64(false); n.data.assign((char *)&d, 8); } break;
  case 1: n.type = bsonInt32; raw(4); break;
  case 2: n.type = bsonInt64; raw(8); break;
  case 3: n.type = bsonUInt64; raw(8); break;
  case 4: n.type = bsonBool; n.data = S(1, (char)g.below(2)); break;
  case 5: n.type = bsonNull; break;
  case 6: n.type = bsonString; n.data = g.text(30); n.how = g.below(2); break;
  case 7: n.type = bsonBinary; n.data = g.bytes(g.chance(1, 5) ? 0 : g.size(60)); n.how = g.below(2); break;
  default: n.type = k & 1 ? bsonDocument : bsonArray; n.how = g.below(3); { int c = g.below(5); for (int i = 0; i < c; i++) { n.kids.push_back(gen_node(g, depth + 1)); if (n.type == bsonArray && g.chance(3, 4)) n.kids.back().name = fmt("%d", i); } }
  }
  return n;
}
// appends v to doc with the library; n: bytes of the buffer used so far
static void build(unsigned char *doc, int bufsize, int &n, const std::vector<Node> &v) {
  for (auto &x : v) {
    int r; const char *nm = x.name.c_str();
    auto add = [&](int r, const char *what) { REQUIRE(r >= 0, "%s of \"%s\" failed: %d %s", what, show(x.name).c_str(), r, dlite_errmsg()); n += r; };
    if (x.type == bsonDocument || x.type == bsonArray) {
      if (x.how == 0) {   // ready-made sub-document
        S s = refdoc(x.kids); char *p = (char *)malloc(s.size()); memcpy(p, s.data(), s.size());
        r = bson_append(doc, bufsize - n, (BsonType)x.type, nm, (int)s.size(), p); free(p); add(r, "bson_append");
      } else {
        unsigned char *sub = NULL;
        add(bson_begin_subdoc(doc, bufsize - n, nm, &sub), "bson_begin_subdoc");
        build(sub, bufsize, n, x.kids);
        add(bson_end_subdoc(doc, bufsize - n, (BsonType)x.type), "bson_end_subdoc");
      }
    } else if (x.type == bsonBinary && x.how) {
      unsigned char *sub = NULL;
      add(bson_begin_binary(doc, bufsize - n, nm, &sub), "bson_begin_binary");
      size_t k = x.data.size(), step = 1 + k / 3, i = 0;
      while (i < k) { int m = (int)std::min(step, k - i); char *p = (char *)malloc(m); memcpy(p, x.data.data() + i, m); r = bson_append_binary(sub, bufsize - n, m, p); free(p); REQUIRE(r == m, "bson_append_binary of %d bytes returned %d", m, r); n += r; i += m; }
      add(bson_end_binary(doc, bufsize - n), "bson_end_binary");
    } else {
      char *p = (char *)malloc(x.data.size() + 1); memcpy(p, x.data.data(), x.data.size()); p[x.data.size()] = 0;
      bool dflt = x.type == bsonString ? x.how : x.type == bsonBinary ? false : (x.name.size() & 1);
      r = bson_append(doc, bufsize - n, (BsonType)x.type, nm, dflt ? -1 : (int)x.data.size(), p); free(p);
      add(r, "bson_append");
    }
  }
}
// read back with the library
static void readback(const unsigned char *doc, const std::vector<Node> &v) {
  REQUIRE(bson_docsize(doc) == (int)refdoc(v).size(), "bson_docsize is %d", bson_docsize(doc));
  REQUIRE(bson_nelements(doc) == (int)v.size(), "bson_nelements is %d, expected %zu", bson_nelements(doc), v.size());
  unsigned char *endptr = NULL; char *name; void *data; int size, type; size_t i = 0;
  while ((type = bson_parse(doc, &name, &data, &size, &endptr)) > 0) {
    REQUIRE(i < v.size(), "bson_parse finds too many elements");
    const Node &x = v[i++]; bool sub = x.type == bsonDocument || x.type == bsonArray; S exp = sub ? refdoc(x.kids) : x.data;
    REQUIRE(type == x.type && x.name == name && size == (int)exp.size() && memcmp(data, exp.data(), exp.size()) == 0, "element %zu read as %d \"%s\" %s, expected %d \"%s\" %s", i - 1, type, show(name).c_str(), show(S((char *)data, size)).c_str(), x.type, show(x.name).c_str(), show(exp).c_str());
    if (sub) readback((unsigned char *)data, x.kids);
    // look-up by name finds the first with that name
    const Node *f = NULL; for (auto &y : v) if (y.name == x.name) { f = &y; break; }
    S fexp = f->type == bsonDocument || f->type == bsonArray ? refdoc(f->kids) : f->data;
    S nm = x.name + "zz";
    for (int how = 0; how < 2; how++) {
      void *d2; int s2, t2 = how ? bson_scann(doc, nm.c_str(), x.name.size(), &d2, &s2) : bson_scan(doc, x.name.c_str(), &d2, &s2);
      REQUIRE(t2 == f->type && s2 == (int)fexp.size() && memcmp(d2, fexp.data(), s2) == 0, "bson_scan(\"%s\") gives type %d size %d, expected %d size %zu", show(x.name).c_str(), t2, s2, f->type, fexp.size());
    }
    const char *N = x.name.c_str();
#define SC(T, F, BT) { BsonError e = bsonValueError; T r = F(doc, N, &e); \
      if (f->type == BT) { T w; memcpy(&w, fexp.data(), sizeof w); REQUIRE(!e && memcmp(&r, &w, sizeof w) == 0, #F "(\"%s\")", show(x.name).c_str()); } \
      else { REQUIRE(e == bsonTypeError && !r && take_error(), #F "(\"%s\") of an element of type %d: error %d", show(x.name).c_str(), f->type, e); e = (BsonError)0; r = F(doc, N, NULL); REQUIRE(!r && take_error(), #F " without errcode"); } }
    SC(int32_t, bson_scan_int32, bsonInt32) SC(int64_t, bson_scan_int64, bsonInt64) SC(uint64_t, bson_scan_uint64, bsonUInt64) SC(double, bson_scan_double, bsonDouble)
    { BsonError e = bsonValueError; bool r = bson_scan_bool(doc, N, &e); if (f->type == bsonBool) REQUIRE(!e && r == (fexp[0] != 0), "bson_scan_bool"); else REQUIRE(e == bsonTypeError && take_error(), "bson_scan_bool of type %d", f->type); }
    { BsonError e = bsonValueError; const char *r = bson_scan_string(doc, N, &e); if (f->type == bsonString) REQUIRE(!e && r && fexp == r, "bson_scan_string"); else REQUIRE(!r && e == bsonTypeError && take_error(), "bson_scan_string of type %d", f->type); }
  }
  REQUIRE(type == 0 && i == v.size(), "bson_parse stops at element %zu with %d", i, type);
  // a name that is not there
  S none = "none"; for (bool again = true; again;) { again = false; for (auto &y : v) if (y.name == none) { none += "x"; again = true; } }
  void *d; REQUIRE(bson_scan(doc, none.c_str(), &d, NULL) == 0, "bson_scan finds a missing name");
  dlite_errclr();
  BsonError e = (BsonError)0; REQUIRE(bson_scan_int32(doc, none.c_str(), &e) == 0 && e == bsonKeyError && !take_error(), "optional look-up of missing name: %d", e);
  e = bsonKeyError; REQUIRE(!bson_scan_string(doc, none.c_str(), &e) && e == bsonKeyError && take_error(), "look-up of missing name: %d", e);
  e = bsonKeyError; REQUIRE(!bson_scan_bool(doc, none.c_str(), &e) && e == bsonKeyError && take_error(), "look-up of missing bool: %d", e);
}
static size_t countn(const std::vector<Node> &v, int &depth, int d = 1) { size_t n = v.size(); if (d > depth) depth = d; for (auto &x : v) if (x.kids.size()) n += countn(x.kids, depth, d + 1); return n; }

PBT(D12, documents, 60000, 900000, 250, "at least 4 elements with at least one nested document that has elements") {
  std::vector<Node> v; int k = g.size(12); for (int i = 0; i < k; i++) v.push_back(gen_node(g, 0));
  S ref = refdoc(v); int depth = 0; size_t n = countn(v, depth);
  g.log("document %s", show(ref).c_str());
  unsigned char *doc = (unsigned char *)malloc(ref.size()); memset(doc, 0xbe, ref.size());
  int used = bson_init_document(doc, (int)ref.size());
  build(doc, (int)ref.size(), used, v);
  REQUIRE(used == (int)ref.size(), "%d bytes reported, expected %zu", used, ref.size());
  REQUIRE(memcmp(doc, ref.data(), ref.size()) == 0, "document is %s, expected %s", show(S((char *)doc, ref.size())).c_str(), show(ref).c_str());
  readback(doc, v);
  free(doc);
  // no or too small buffer: same size
  for (int i = 0; i < 3; i++) {
    int m = i ? g.below((int)ref.size()) : 0; unsigned char *small = m ? (unsigned char *)malloc(m) : NULL;
    int u = bson_init_document(small, m); build(small, m, u, v);
    REQUIRE(u == (int)ref.size(), "%d bytes reported with a buffer of %d bytes, expected %zu", u, m, ref.size());
    free(small);
  }
  // ample buffer: nothing outside the document is touched
  { int extra = 1 + g.below(50); int m = (int)ref.size() + extra; unsigned char *big = (unsigned char *)malloc(m); memset(big, 0xa5, m);
    int u = bson_init_document(big, m); build(big, m, u, v);
    REQUIRE(u == (int)ref.size() && memcmp(big, ref.data(), ref.size()) == 0, "document in a larger buffer differs");
    for (int i = 0; i < extra; i++) REQUIRE(big[ref.size() + i] == 0xa5, "byte after the document changed");
    free(big); }
  g.label(fmt("depth %d", depth));
  if (n >= 4 && depth >= 2) g.nontrivial();
}

// wrong arguments are refused without changing the document
PBT(D12, arguments, 20000, 200000, 500, "document with elements") {
  std::vector<Node> v; int k = g.below(4); for (int i = 0; i < k; i++) v.push_back(gen_node(g, 2));
  S ref = refdoc(v); int cap = (int)ref.size() + 200; unsigned char *doc = (unsigned char *)calloc(1, cap);
  int n = bson_init_document(doc, cap); build(doc, cap, n, v);
  char val[64] = {0}; int t = g.pick<int>({bsonDouble, bsonInt32, bsonInt64, bsonUInt64, bsonBool, bsonNull, bsonDocument, bsonArray, bsonBinary});
  int right = t == bsonInt32 ? 4 : t == bsonBool ? 1 : t == bsonNull ? 0 : 8, size = -1;
  if (t != bsonDocument && t != bsonArray && t != bsonBinary) { size = g.below(20); if (size == right) size++; }
  g.log("type %d size %d", t, size);
  dlite_errclr();
  REQUIRE(bson_append(doc, cap - n, (BsonType)t, "x", size, val) < 0 && take_error(), "element of type %d with size %d accepted", t, size);
  REQUIRE(bson_append(NULL, 0, (BsonType)t, "x", size, val) < 0 && take_error(), "size of an element of type %d with size %d", t, size);
  REQUIRE(memcmp(doc, ref.data(), ref.size()) == 0, "refused append changed the document");
  unsigned char *sub; REQUIRE(bson_begin_subdoc(doc, cap - n, "s", &sub) > 0, "begin");
  REQUIRE(memcmp(doc, ref.data(), ref.size() - 1) == 0, "bson_begin_subdoc changed the document");
  REQUIRE(bson_end_subdoc(doc, cap - n - 7, (BsonType)g.pick<int>({bsonInt32, bsonString, bsonBinary, bsonNull})) < 0 && take_error(), "sub-document of wrong type");
  REQUIRE(memcmp(doc, ref.data(), ref.size()) == 0, "refused end changed the document");
  readback(doc, v);
  free(doc); if (v.size()) g.nontrivial();
}

// ------------------------------------------------ malformed documents
static S mutate(Gen &g, S s) {
  int k = 1 + g.below(3);
  for (int i = 0; i < k && s.size(); i++) switch (g.below(8)) {
    case 0: s[g.below(s.size())] = (char)g.below(256); break;
    case 1: s[g.below(s.size())] ^= 1 << g.below(8); break;
    case 2: s.resize(g.below(s.size() + 1)); break;
    case 3: s.insert(g.below(s.size() + 1), g.bytes(1 + g.below(6))); break;
    case 4: { size_t p = g.below(s.size()); s.erase(p, 1 + g.below(8)); break; }
    case 5: { if (s.size() >= 8) { size_t p = g.below(s.size() - 3); int32_t v; memcpy(&v, &s[p], 4); v = g.pick<int32_t>({v + 1, v - 1, 0, -1, INT32_MAX, INT32_MIN, (int32_t)s.size(), 4, 5, v * 2}); memcpy(&s[p], &v, 4); } break; }
    case 6: { // change a length: find a plausible one
      for (int j = 0; j < 20 && s.size() > 8; j++) { size_t p = g.below(s.size() - 3); int32_t v; memcpy(&v, &s[p], 4); if (v > 0 && (size_t)v <= s.size() - p) { v += g.pick<int>({1, -1, 2, -2, 5, 100, -v, -v - 1}); memcpy(&s[p], &v, 4); break; } } break; }
    default: s[g.below(s.size())] = '\0';
  }
  if (s.size() < 4) s.resize(4, (char)g.below(8));
  // the caller knows the document to have the size it starts with
  uint32_t sz; memcpy(&sz, s.data(), 4);
  if ((sz > s.size() && sz <= 0x7fffffff) || g.flip()) { sz = s.size(); memcpy(&s[0], &sz, 4); }
  if (g.chance(1, 3) && sz == s.size()) s[s.size() - 1] = 0;
  return s;
}
static void walk(const unsigned char *doc, int depth) {
  unsigned char *endptr = NULL; char *name; void *data; int size, type; size_t sum = 0;
  while ((type = bson_parse(doc, &name, &data, &size, &endptr)) > 0) {
    for (char *q = name; *q; q++) sum += *q;
    for (int i = 0; i < size; i++) sum += ((unsigned char *)data)[i];
    if (type == bsonString) REQUIRE(((char *)data)[size] == 0, "string is not terminated");
    if ((type == bsonDocument || type == bsonArray) && depth < 60) walk((unsigned char *)data, depth + 1);
  }
  volatile size_t sink = sum; (void)sink;
}
static void shallow(const S &s, Gen &g) {
  unsigned char *doc = (unsigned char *)malloc(s.size()); memcpy(doc, s.data(), s.size());
  std::vector<Node> out; bool ok = refparse(s, out, false);
  dlite_errclr(); int n = bson_nelements(doc), e = take_error();
  if (ok) REQUIRE(n == (int)out.size() && !e, "bson_nelements of a valid document with %zu elements: %d", out.size(), n);
  else REQUIRE(n < 0 && e, "malformed document accepted: %d elements %s", n, show(s).c_str());
  walk(doc, 0); dlite_errclr();
  char *nm; void *d; int sz; (void)nm;
  for (int i = 0; i < 2; i++) { S w = out.size() && g.flip() ? out[g.below(out.size())].name : g.ident(4); int t = bson_scan(doc, w.c_str(), &d, &sz); REQUIRE(!ok || t >= 0, "bson_scan on a valid document: %d", t); bson_scan_string(doc, w.c_str(), NULL); bson_scan_double(doc, w.c_str(), NULL); bson_scan_bool(doc, w.c_str(), NULL); dlite_errclr(); }
  free(doc);
  g.label(ok ? "well formed" : "malformed");
}
PBT(D12, malformed, 80000, 1200000, 400, "the document is not well formed") {
  std::vector<Node> v; int k = g.size(6); for (int i = 0; i < k; i++) v.push_back(gen_node(g, 1));
  S s = mutate(g, g.chance(1, 10) ? g.bytes(4 + g.below(40)) : refdoc(v));
  g.log("%s", show(s).c_str());
  shallow(s, g);
  std::vector<Node> out; if (!refparse(s, out, false)) g.nontrivial();
}

// ------------------------------------------------ instances
static unsigned char *encode(DLiteInstance *inst, size_t &size) {
  unsigned char *b = dlite_bson_from_instance(inst, &size);
  REQUIRE(b, "dlite_bson_from_instance failed: %s", dlite_errmsg());
  std::vector<Node> out; S s((char *)b, size);
  REQUIRE(bson_docsize(b) == (int)size && refparse(s, out, true), "instance encoded to an invalid document %s", show(s).c_str());
  return b;
}
static void smallbuf(Gen &g, DLiteInstance *inst, const unsigned char *b, size_t size) {
  for (int i = 0; i < 2; i++) {
    int m = i ? g.below(size) : 0; unsigned char *p = m ? (unsigned char *)malloc(m) : NULL;
    int n = bson_init_document(p, m), r = dlite_bson_append_instance(p, m - n, inst);
    // a document that is too small keeps being a document
    REQUIRE(n + r == (int)size, "%d bytes reported with buffer of %d, expected %zu", n + r, m, size);
    free(p);
  }
  unsigned char *p = (unsigned char *)malloc(size); int n = bson_init_document(p, (int)size); int r = dlite_bson_append_instance(p, (int)size - n, inst);
  REQUIRE(n + r == (int)size && memcmp(p, b, size) == 0, "dlite_bson_append_instance differs from dlite_bson_from_instance");
  free(p);
}
static unsigned char *exact(unsigned char *b, size_t &size) { unsigned char *p = (unsigned char *)malloc(size); memcpy(p, b, size); free(b); return p; }

PBT(D12, instances, 6000, 80000, 40, "an array property with at least 2 elements") {
  World w(g); MetaOpt o; o.types = TY_REF | TY_REL; w.init(1, o);
  auto id = g.pick<S>({"", "urn:x:" + g.ident(), "http://a.b/" + g.ident(), "61e0f0c2-3e1d-4c4c-9d43-0f54e5e4e37f"});
  InstM *x = w.create(0, gen_dims(g, *w.metas[0]), id.size() ? id.c_str() : NULL);
  for (size_t j = 0; j < x->vals.size(); j++) if (g.chance(5, 6)) w.set_random(*x, j);
  if (g.chance(1, 4)) { dlite_instance_freeze(w.targets[0]); REQUIRE(dlite_instance_set_parent(x->inst, w.targets[0]) == 0, "set_parent"); }
  Elem uri = ostr(x->inst->uri); bool par = x->inst->_parent; DLiteParent P; memset(&P, 0, sizeof P); if (par) P = *x->inst->_parent;
  size_t size; unsigned char *b = exact(encode(x->inst, size), size);
  g.log("%s: %s", x->uuid.c_str(), show(S((char *)b, size)).c_str());
  smallbuf(g, x->inst, b, size);
  w.check("after encoding");
  // while the instance lives, decoding returns it
  DLiteInstance *same = dlite_bson_load_instance(b); REQUIRE(same == x->inst, "decoding the identity of a live instance gives another instance");
  REQUIRE(dlite_instance_decref(same) == 1, "reference count");
  w.release(*x);
  uint8_t h[DLITE_HASH_SIZE]; (void)h;
  x->inst = dlite_bson_load_instance(b);
  REQUIRE(x->inst, "decoding failed: %s", dlite_errmsg());
  check_inst(*x, "after decoding");
  REQUIRE(ostr(x->inst->uri) == uri, "uri is %s, expected %s", show(x->inst->uri).c_str(), elemstr(uri, {dliteStringPtr, 8}).c_str());
  REQUIRE(x->inst->_refcount == 1, "reference count of decoded instance is %d", x->inst->_refcount);
  REQUIRE(!!x->inst->_parent == par && (!par || (!strcmp(P.uuid, x->inst->_parent->uuid) && !memcmp(P.hash, x->inst->_parent->hash, DLITE_HASH_SIZE))), "parent is not restored");
  size_t s2; unsigned char *b2 = encode(x->inst, s2); REQUIRE(s2 == size && !memcmp(b, b2, size), "encoding the decoded instance gives another document"); free(b2);
  for (size_t j = 0; j < x->vals.size(); j++) if (x->vals[j].size() > 1 ) g.nontrivial();
  // the document does not belong to the instance
  free(b); w.check("after releasing the document");
  w.finish();
}

PBT(D12, metadata, 6000, 80000, 40, "metadata with dimensions and properties") {
  MetaOpt o; o.types = TY_REF | TY_REL; o.refuri = "http://onto-ns.com/meta/0.1/Other"; MetaM m = gen_meta(g, o); m.meta = create_meta(m);
  g.log("%s", showmeta(m).c_str()); REQUIRE(m.meta, "create"); check_meta(m.meta, m, "after creation");
  size_t size; unsigned char *b = exact(encode((DLiteInstance *)m.meta, size), size);
  smallbuf(g, (DLiteInstance *)m.meta, b, size);
  DLiteInstance *again = dlite_bson_load_instance(b); REQUIRE(again == (DLiteInstance *)m.meta, "decoding the identity of live metadata"); dlite_instance_decref(again);
  int rc = m.meta->_refcount; for (int i = 0; i < rc; i++) dlite_meta_decref(m.meta);
  REQUIRE(!dlite_instance_has(m.uri.c_str(), 0), "metadata still there"); dlite_errclr();
  m.meta = (DLiteMeta *)dlite_bson_load_instance(b); REQUIRE(m.meta, "decoding metadata: %s", dlite_errmsg());
  check_meta(m.meta, m, "after decoding");
  REQUIRE(m.meta->_refcount == rc, "reference count of decoded metadata is %d, of created %d", m.meta->_refcount, rc);
  free(b);
  // usable for instances
  auto d = gen_dims(g, m); if (dims_status(m, d) == 1) { InstM x; x.m = &m; x.dims = d; x.inst = create_inst(m, d, NULL); REQUIRE(x.inst, "cannot create an instance of decoded metadata"); x.uuid = x.inst->uuid; zero_vals(x); check_inst(x, "instance of decoded metadata"); dlite_instance_decref(x.inst); }
  for (int i = 0; i < rc; i++) dlite_meta_decref(m.meta);
  if (m.dims.size() && m.props.size()) g.nontrivial();
}

PBT(D12, collections, 4000, 40000, 40, "collection with at least 3 relations") {
  World w(g); MetaOpt o; o.maxprops = 2; o.maxdims = 1; w.init(1, o); std::vector<InstM *> xs; int n = g.below(4);
  for (int i = 0; i < n; i++) xs.push_back(w.create(0, gen_dims(g, *w.metas[0])));
  DLiteCollection *c = dlite_collection_create(g.flip() ? NULL : ("urn:c:" + g.ident()).c_str()); S id = c->uuid; std::multiset<S> rel;
  for (int i = 0; i < n; i++) REQUIRE(dlite_collection_add(c, fmt("i%d", i).c_str(), xs[i]->inst) == 0, "add");
  int k = g.below(6); for (int i = 0; i < k; i++) REQUIRE(dlite_collection_add_relation(c, ("s" + g.text(5)).c_str(), ("p" + g.text(5)).c_str(), ("o" + g.text(5)).c_str(), g.flip() ? NULL : "@en") == 0, "add_relation");
  auto list = [](DLiteCollection *c) { std::multiset<S> r; DLiteCollectionState s; dlite_collection_init_state(c, &s); const DLiteRelation *t; while ((t = dlite_collection_find(c, &s, NULL, NULL, NULL, NULL))) r.insert(S(t->s) + "\1" + t->p + "\1" + t->o + "\1" + (t->d ? t->d : "")); dlite_collection_deinit_state(&s); return r; };
  rel = list(c); size_t size; unsigned char *b = exact(encode((DLiteInstance *)c, size), size); smallbuf(g, (DLiteInstance *)c, b, size);
  dlite_collection_decref(c); REQUIRE(!dlite_instance_has(id.c_str(), 0), "collection still there"); dlite_errclr();
  c = (DLiteCollection *)dlite_bson_load_instance(b); REQUIRE(c && id == c->uuid, "decoding collection: %s", dlite_errmsg()); free(b);
  REQUIRE(list(c) == rel, "decoded collection has %zu relations, expected %zu", list(c).size(), rel.size());
  for (int i = 0; i < n; i++) { REQUIRE(dlite_collection_get(c, fmt("i%d", i).c_str()) == xs[i]->inst, "instance i%d of decoded collection", i); }
  dlite_collection_decref(c); w.check("after collection");
  for (auto *x : xs) REQUIRE(x->inst->_refcount == 1, "instance has reference count %d after its decoded collection is gone", x->inst->_refcount);
  if (rel.size() >= 3) g.nontrivial();
  w.finish();
}

// mutated documents of instances: refused or decoded, without leaking
PBT(D12, mutated_instances, 15000, 200000, 60, "the mutated document was refused") {
  World w(g); MetaOpt o; o.types = TY_REF | TY_REL; w.init(1, o);
  InstM *x = w.create(0, gen_dims(g, *w.metas[0], 2));
  for (size_t j = 0; j < x->vals.size(); j++) w.set_random(*x, j);
  if (g.chance(1, 4)) { dlite_instance_freeze(w.targets[0]); REQUIRE(dlite_instance_set_parent(x->inst, w.targets[0]) == 0, "set_parent"); }
  bool meta = g.chance(1, 3); MetaM m2; size_t size; unsigned char *b;
  if (meta) { m2 = gen_meta(g, o); m2.meta = create_meta(m2); b = encode((DLiteInstance *)m2.meta, size); for (int i = m2.meta->_refcount; i > 0; i--) dlite_meta_decref(m2.meta); }
  else b = encode(x->inst, size);
  w.release(*x);
  S s((char *)b, size); free(b); s = mutate(g, s);
  uint32_t sz; memcpy(&sz, s.data(), 4);
  if (!meta && g.chance(1, 3)) {  // consistent change: drop or repeat an element, or change its type
    std::vector<Node> v; s.assign(s); if (refparse(s, v, true)) { std::vector<Node> *l = &v; for (auto &y : v) if ((y.type == bsonDocument || y.type == bsonArray) && g.flip()) l = &y.kids; if (l->size()) { size_t i = g.below(l->size()); switch (g.below(4)) { case 0: l->erase(l->begin() + i); break; case 1: l->push_back((*l)[i]); break; case 2: (*l)[i] = gen_node(g, 2); break; default: { Node q = gen_node(g, 2); q.name = (*l)[i].name; (*l)[i] = q; } } } s = refdoc(v); }
  }
  g.log("%s", show(s).c_str());
  std::vector<Node> out; bool ok = refparse(s, out, false);
  // not instances of gigabytes
  for (auto &n : out) if (n.name.compare(0, 9, "dimension") == 0 && n.type == bsonDocument) { std::vector<Node> d; refparse(n.data, d, false); for (auto &y : d) if (y.type == bsonInt32) { int32_t v; memcpy(&v, y.data.data(), 4); if (v > 3000) { dlite_errclr(); throw Discard{}; } } }
  unsigned char *doc = (unsigned char *)malloc(s.size()); memcpy(doc, s.data(), s.size());
  size_t before = 0; bool refused = false;
  for (int i = 0; i < 3; i++) {
    dlite_errclr(); DLiteInstance *y = dlite_bson_load_instance(doc);
    if (!y) { refused = true; REQUIRE(take_error(), "refused without an error"); } else { REQUIRE(ok, "malformed document decoded"); for (int n = y->_refcount; n > 0 && !dlite_instance_is_meta(y); n--) dlite_instance_decref(y); break; }
    size_t now = __sanitizer_get_current_allocated_bytes();
    if (i == 1) before = now; if (i == 2) REQUIRE(now == before, "refusing a document leaks %ld bytes", (long)(now - before));
  }
  free(doc); if (refused) g.nontrivial(); g.label(refused ? "refused" : "decoded");
  dlite_errclr();
}

int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
