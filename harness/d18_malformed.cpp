// flavours: asan
// D18: malformed input is rejected without harm
#define PBT_MAXALLOC_MB "128"   // documents can ask for arrays of any size
#include "metadoc.hpp"
#include "datadoc.hpp"
#include "dlite-json.h"
#include <fstream>
extern "C" {
#include "utils/bson.h"
#include "dlite-bson.h"
#include "utils/infixcalc.h"
#include "utils/globmatch.h"
#include "dlite-storage-plugins.h"
#include "utils/strutils.h"
#include "utils/uri_encode.h"
#include "utils/urlsplit.h"
#include "utils/strtob.h"
#include "utils/jsmnx.h"
#include "utils/jstore.h"
#define template template_
#include "utils/tgen.h"
#undef template
#include "utils/unicode.h"
}
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

struct Exact { char *p; size_t n; Exact(const S &s, bool term) : n(s.size() + term) { p = (char *)malloc(n ? n : 1); memcpy(p, s.c_str(), n); } ~Exact() { free(p); } };
static S nonul(S s) { for (auto &c : s) if (!c) c = '0'; return s; }

// ------------------------------------------------ state of the library
struct State { std::map<S, int> refs; };
static State state() {
  State s; int n = 0; char **u = dlite_istore_get_uuids(&n);
  for (int i = 0; i < n; i++) { DLiteInstance *x = (DLiteInstance *)dlite_instance_has(u[i], 0); REQUIRE(x, "listed instance %s is not there", u[i]); s.refs[u[i]] = x->_refcount; free(u[i]); }
  free(u); dlite_errclr();
  return s;
}
// instances may refer to each other in a circle; that is broken by hand
static bool breakcycle(DLiteInstance *x) {
  bool any = false; dlite_instance_incref(x);
  for (size_t i = 0; i < x->meta->_nproperties; i++) {
    const DLiteProperty *p = x->meta->_properties + i; if (p->type != dliteRef) continue;
    size_t n = 1; for (int k = 0; k < p->ndims; k++) n *= DLITE_PROP_DIM(x, i, k);
    char *q = (char *)dlite_instance_get_property_by_index(x, i); if (!q) continue;
    for (size_t k = 0; k < n; k++) if (((DLiteInstance **)q)[k]) { any = true; dlite_type_clear(q + k * p->size, p->type, p->size); }
  }
  if (!strcmp(x->meta->uri, DLITE_COLLECTION_ENTITY) && dlite_collection_remove_relations((DLiteCollection *)x, NULL, "_has-uuid", NULL, NULL) > 0) any = true;
  dlite_instance_decref(x); return any;
}
// removes new metadata; nothing else may be new
static void cleanup(const State &base, const char *when) {
  for (int pass = 0; pass < 50; pass++) {
    State now = state(); DLiteInstance *del = NULL; bool other = false; S what;
    for (auto &kv : now.refs) if (!base.refs.count(kv.first)) { DLiteInstance *x = (DLiteInstance *)dlite_instance_has(kv.first.c_str(), 0); if (dlite_instance_is_meta(x)) del = x; else { other = true; what += kv.first + " of " + (x->meta ? x->meta->uri : "?") + " (" + std::to_string(x->_refcount) + "), "; } }
    if (other) { bool any = false; for (auto &kv : now.refs) if (!base.refs.count(kv.first)) { DLiteInstance *x = (DLiteInstance *)dlite_instance_has(kv.first.c_str(), 0); if (x && !dlite_instance_is_meta(x) && breakcycle(x)) any = true; } if (any) continue; }
    REQUIRE(!other, "%s: instance %s is left in the library", when, what.c_str());
    if (!del) break;
    // instances of it keep references, hence metadata last
    int n = del->_refcount; S u = del->uuid; for (int i = 0; i < n && dlite_instance_has(u.c_str(), 0); i++) dlite_instance_decref(del);
    dlite_errclr();
  }
  State now = state();
  for (auto &kv : base.refs) { REQUIRE(now.refs.count(kv.first), "%s: instance %s is gone", when, kv.first.c_str()); REQUIRE(now.refs[kv.first] == kv.second, "%s: instance %s has %d references instead of %d", when, kv.first.c_str(), now.refs[kv.first], kv.second); }
  REQUIRE(now.refs.size() == base.refs.size(), "%s: %zu instances instead of %zu", when, now.refs.size(), base.refs.size());
}
static const char *GOODMETA = "{\"uri\": \"zz:good/0.1/Good\", \"dimensions\": {\"N\": \"n\"}, \"properties\": {\"a\": {\"type\": \"int32\", \"shape\": [\"N\"]}, \"s\": {\"type\": \"string\"}}}";
static const char *GOODDATA = "{\"uri\": \"zz:gooddata\", \"meta\": \"zz:good/0.1/Good\", \"dimensions\": {\"N\": 3}, \"properties\": {\"a\": [1, -2, 3], \"s\": \"text\"}}";
static void works() {
  dlite_errclr();
  DLiteInstance *x = dlite_json_sscan(GOODDATA, NULL, NULL); REQUIRE(x, "a good document is no longer accepted: %s", dlite_errmsg());
  const int32_t *a = (const int32_t *)dlite_instance_get_property(x, "a"); REQUIRE(a && a[0] == 1 && a[1] == -2 && a[2] == 3, "good document gives wrong values");
  REQUIRE(S(*(char **)dlite_instance_get_property(x, "s")) == "text", "good document gives wrong text");
  dlite_instance_decref(x); dlite_errclr();
}
// an array can be empty and yet have very many rows
static bool huge(DLiteInstance *x) {
  for (size_t i = 0; i < x->meta->_nproperties; i++) { double n = 1; for (int k = 0; k < x->meta->_properties[i].ndims; k++) { double d = DLITE_PROP_DIM(x, i, k); n *= d < 1 ? 1 : d; } if (n > 1e6) return true; }
  return false;
}
// uses an accepted instance
static void exercise(DLiteInstance *x) {
  REQUIRE(x->meta && x->_refcount >= 1 && dlite_instance_has(x->uuid, 0) == x, "accepted instance is not in the instance store");
  for (size_t i = 0; i < x->meta->_ndimensions; i++) { size_t d = dlite_instance_get_dimension_size_by_index(x, i); if (d > 2000) return; }
  if (huge(x)) return;
  char *j = dlite_json_aprint(x, 2, dliteJsonWithUuid); dlite_errclr(); free(j);
  size_t n; unsigned char *b = dlite_bson_from_instance(x, &n); dlite_errclr(); free(b);
  uint8_t h[DLITE_HASH_SIZE]; dlite_instance_get_hash(x, h, sizeof h); dlite_errclr();
  for (size_t i = 0; i < x->meta->_nproperties; i++) { dlite_instance_get_property_by_index(x, i); dlite_errclr(); }
  if (dlite_instance_is_meta(x)) {
    DLiteMeta *m = (DLiteMeta *)x; size_t dims[100]; if (m->_ndimensions > 100) return;
    for (size_t k = 0; k < 3; k += 2) {
      for (size_t i = 0; i < 100; i++) dims[i] = k;
      if (dlite_meta_is_metameta(m)) continue;
      DLiteInstance *y = dlite_instance_create(m, dims, NULL); if (y) { char *j = huge(y) ? NULL : dlite_json_aprint(y, 0, dliteJsonWithUuid); free(j); dlite_instance_decref(y); }
      dlite_errclr();
    }
  } else { DLiteInstance *c = dlite_instance_copy(x, NULL); if (c) dlite_instance_decref(c); dlite_errclr(); }
}
template <class F> static bool careful(Gen &g, const char *what, F f) {   // f: true if accepted
  State base = state(); size_t heap[4]; bool ok = false, first = false;
  for (int i = 0; i < 4; i++) {
    dlite_errclr(); ok = f(); if (i == 0) first = ok;
    int e = take_error(); if (!ok) REQUIRE(e, "%s: rejected without an error", what);
    REQUIRE(ok == first, "%s: %s at first, then %s", what, first ? "accepted" : "rejected", ok ? "accepted" : "rejected");
    cleanup(base, what); heap[i] = __sanitizer_get_current_allocated_bytes();
  }
  REQUIRE(!(heap[1] < heap[2] && heap[2] < heap[3]), "%s: %zu bytes are lost (%s)", what, heap[3] - heap[2], ok ? "accepted" : "rejected");
  works(); g.label(ok ? "accepted" : "rejected"); if (!ok) g.nontrivial();
  return ok;
}

// ------------------------------------------------ mutations
static S anynum(Gen &g) { return g.pick<S>({"0", "-1", "1", "2", "7", "1.5", "-0", "1e3", "1e400", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551616", "4611686018427387904", "99999999999999999999999", "0x10", "1000000", "536870912", "NaN", "1 2", "+3", "007", "-9223372036854775808", "1e", "."}); }
static S token(Gen &g) {
  return g.pick<S>({"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\u0041", "\\ud83d", "null", "true", "false", "\"\"", "[]", "{}", "[[]]", "{}{}", "\n", " ", "0", "-1", "1e400", "NaN", "\"meta\"", "\"uri\"", "\"uuid\"", "\"dimensions\"", "\"properties\"", "\"relations\"", "\"type\"", "\"shape\"", "\"dims\"", "\"$ref\"", "\"ref\"", "\"name\"", "\"version\"", "\"namespace\"", "\"unit\"", "\"description\"", "\"parent\"", "\"hash\"", "\"string10\"", "\"blob3\"", "\"ref\"", "\"relation\"", "\"http://onto-ns.com/meta/0.3/EntitySchema\"", "\"http://onto-ns.com/meta/0.3/BasicMetadataSchema\"", "\"http://onto-ns.com/meta/0.1/Collection\"", "zz:good/0.1/Good", "\"zz:good/0.1/Good\"",
    "'", "%", "%s", "%n", "%4", "%00", "*", "?", "[^", "[a-", "[]", "(", ")", "+", "/", "//", "://", "#", "&", "=", ";", "@", "$", "\xff", "\xc3", "\xf0\x9f", "\x80", "\t", "\r", "\x01", "<", ">", "-", ".", "..", "~", "`", "|"});
}
static S wild(Gen &g, S s) {
  int k = g.weighted({4, 2, 1}) + 1;
  for (int i = 0; i < k; i++) {
    size_t p = g.below(s.size() + 1), q = g.below(s.size() + 1), n = std::min<size_t>(g.size(20), s.size() - p);
    switch (g.below(9)) {
    case 0: s.insert(p, token(g)); break;
    case 1: s.erase(p, n); break;
    case 2: s.insert(q, s.substr(p, n)); break;
    case 3: s.resize(p); break;
    case 4: if (p < s.size()) s[p] = (char)g.below(256); break;
    case 5: if (p < s.size()) s[p] ^= 1 << g.below(8); break;
    case 6: if (s.size() > 1) std::swap(s[g.below(s.size())], s[g.below(s.size())]); break;
    case 7: s.replace(p, n, token(g)); break;
    default: { size_t a = s.find_first_of("0123456789", p); if (a == S::npos) a = s.find_first_of("0123456789"); if (a != S::npos) { size_t b = s.find_first_not_of("0123456789", a); s.replace(a, b == S::npos ? S::npos : b - a, anynum(g)); } }
    }
  }
  return s;
}
static S randomtokens(Gen &g, int max = 30) { S s; for (int i = g.size(max); i > 0; i--) s += g.chance(1, 4) ? g.ident(5) : g.chance(1, 8) ? anynum(g) : token(g); return s; }
static void nodes(js::V &v, std::vector<js::V *> &out) { out.push_back(&v); for (auto &x : v.a) nodes(x, out); for (auto &x : v.o) nodes(x.second, out); }
static js::V randval(Gen &g, int depth = 0) {
  switch (g.below(depth < 2 ? 9 : 6)) {
  case 0: return js::null();
  case 1: return js::boolean(g.flip());
  case 2: { S s; do s = anynum(g); while (s.find_first_not_of("0123456789-.e") != S::npos); return js::num(s); }
  case 3: return js::str(g.text(10));
  case 4: return js::str(g.pick<S>({"", "int32", "string", "ref", "relation", "blob7", "blob0", "blob99999999999", "string4", "float3", "int7", "N", "N+1", "N-100", "N*1000000000", "-1", "0", "N/0", "(", "zz:good/0.1/Good", "http://onto-ns.com/meta/0.3/EntitySchema", "00000000-0000-0000-0000-000000000000", "name", "abc", "0g", "0102030405060708"}));
  case 5: return js::arr();
  case 6: { js::V v = js::arr(); for (int i = g.below(4); i > 0; i--) v.a.push_back(randval(g, depth + 1)); return v; }
  default: { js::V v = js::obj(); for (int i = g.below(3); i > 0; i--) v.o.push_back({g.pick<S>({"name", "type", "uri", "meta", "properties", "dimensions", "shape", "s", "p", "o", "d", "", "x"}), randval(g, depth + 1)}); return v; }
  }
}
static void mutate(Gen &g, js::V &root) {
  int k = g.weighted({5, 2, 1}) + 1;
  for (int i = 0; i < k; i++) {
    std::vector<js::V *> n; nodes(root, n); js::V *v = g.pick(n);
    switch (g.below(9)) {
    case 0: *v = randval(g); break;
    case 1: case 2: if (v->a.size()) v->a.erase(v->a.begin() + g.below(v->a.size())); else if (v->o.size()) v->o.erase(v->o.begin() + g.below(v->o.size())); else *v = randval(g); break;
    case 3: if (v->a.size()) { js::V q = g.pick(v->a); v->a.insert(v->a.begin() + g.below(v->a.size() + 1), q); } else if (v->o.size()) { auto q = g.pick(v->o); if (g.flip()) q.second = randval(g); v->o.insert(v->o.begin() + g.below(v->o.size() + 1), q); } else *v = randval(g); break;
    case 4: if (v->o.size()) v->o[g.below(v->o.size())].first = g.pick<S>({"", "name", "uri", "uuid", "meta", "dimensions", "properties", "relations", "type", "shape", "N", "identity", "parent"}); else if (v->k == '#') v->s = anynum(g); else *v = randval(g); break;
    case 5: { js::V *w = g.pick(n); js::V c = *w; if (js::print(root).size() < 20000) *v = c; break; }
    case 6: if (v->k == 's') v->s = wild(g, v->s); else if (v->k == '#') v->s = g.pick<S>({"0", "1", "-1", "3", "100000", "4294967297", "1.5", "9223372036854775807", "2305843009213693952"}); else *v = randval(g); break;
    case 7: { js::V c = *v; *v = g.flip() ? js::arr({c}) : js::obj(); if (v->k == 'o') v->o.push_back({"name", c}); break; }
    default: if (v->a.size() > 1) std::swap(v->a[0], v->a[g.below(v->a.size())]); else if (v->o.size() > 1) std::swap(v->o[0].second, v->o[g.below(v->o.size())].second); else *v = randval(g);
    }
  }
}

// ------------------------------------------------ JSON documents
static js::V collectiondoc(Gen &g, const S &uri, const std::vector<std::pair<S, S>> &items) {
  js::V v = js::obj(), p = js::obj(), r = js::arr(), d = js::obj();
  auto rel = [&](S a, S b, S c) { r.a.push_back(js::arr({js::str(a), js::str(b), js::str(c)})); };
  for (auto &x : items) { S l = g.ident(5); rel(l, "_is-a", "Instance"); r.a.push_back(js::arr({js::str(l), js::str("_has-uuid"), js::str(x.first), js::str("xsd:anyURI")})); rel(l, "_has-meta", x.second); }
  for (int i = g.below(3); i > 0; i--) rel(g.ident(4), g.text(5), g.text(5));
  p.o.push_back({"relations", r}); d.o.push_back({"nrelations", js::num(fmt("%zu", r.a.size()))});
  v.o = {{"uri", js::str(uri)}, {"meta", js::str(DLITE_COLLECTION_ENTITY)}, {"dimensions", d}, {"properties", p}};
  return v;
}
// a valid document, ids of instances in it
static js::V document(Gen &g, World &w, std::vector<S> &ids, std::vector<S> &metas) {
  js::V doc = js::obj(); int kind = g.below(6);
  auto meta = [&]() {
    MetaOpt o; o.types = TY_REF | TY_REL; o.refuri = w.refmeta.uri; MetaM m = gen_meta(g, o); char u[DLITE_UUID_LENGTH + 1]; dlite_get_uuid(u, m.uri.c_str());
    Rels rels; ids.push_back(m.uri); return metadoc(g, m, rels, DLITE_ENTITY_SCHEMA, g.below(3), u); };
  auto data = [&](bool &ok) {
    InstM x; x.m = w.metas[g.below(w.metas.size())].get(); x.dims = gen_dims(g, *x.m, 3); if (dims_status(*x.m, x.dims) != 1) { ok = false; return js::obj(); }
    zero_vals(x); for (size_t j = 0; j < x.vals.size(); j++) x.vals[j] = w.gen_prop_value(x, j);
    S uri = fmt("zz:a.b/%zu", ids.size()); char u[DLITE_UUID_LENGTH + 1]; dlite_get_uuid(u, uri.c_str()); x.uuid = u; ids.push_back(uri); metas.push_back(x.m->uri); ok = true;
    return datadoc(g, x, Elem(uri), g.flip()); };
  bool ok = false;
  if (kind == 0) return meta();
  if (kind == 1) { js::V v = data(ok); if (ok) return v; return meta(); }
  if (kind == 2) return collectiondoc(g, "zz:coll", {});
  for (int i = g.range(1, 4); i > 0; i--) {
    js::V v; if (g.chance(1, 4)) { v = meta(); doc.o.push_back({ids.back(), v}); continue; }
    v = data(ok); if (ok) doc.o.push_back({g.flip() ? ids.back() : fmt("%08x-0000-0000-0000-000000000000", (int)ids.size()), v});
  }
  if (kind == 3) { std::vector<std::pair<S, S>> items; for (size_t i = 0; i < doc.o.size(); i++) if (metas.size() > i) items.push_back({ids[i], metas[i]}); ids.push_back("zz:coll"); doc.o.push_back({"zz:coll", collectiondoc(g, "zz:coll", items)}); }
  if (!doc.o.size()) return meta();
  return doc;
}
static S mutated(Gen &g, js::V doc) {
  int how = g.weighted({5, 4, 1}); if (how == 0 || how == 2) mutate(g, doc);
  S t = g.flip() ? js::print(doc) : js::print(doc, &g); if (how) t = wild(g, t);
  return t;
}
static S jsontext(Gen &g, World &w, std::vector<S> &ids, std::vector<S> &metas) {
  S t = g.chance(1, 12) ? randomtokens(g) : mutated(g, document(g, w, ids, metas));
  return nonul(t);
}
static World *world(Gen &g) { World *w = new World(g); MetaOpt o; o.types = TY_REF | TY_REL; w->init(g.range(1, 2), o); return w; }

PBT(D18, json, 10000, 300000, 50, "the document is rejected") {
  std::unique_ptr<World> w(world(g)); std::vector<S> ids, metas; S t = jsontext(g, *w, ids, metas); g.log("%s", t.c_str());
  S id = ids.size() && g.flip() ? g.pick(ids) : g.chance(1, 5) ? g.text(10) : S(), mid = metas.size() && g.chance(1, 3) ? g.pick(metas) : S();
  if (id.find("http") == 0 && g.flip()) id = "";
  Exact e(t, true); bool useid = id.size() || g.chance(1, 5);
  careful(g, "dlite_json_sscan", [&]() { DLiteInstance *x = dlite_json_sscan(e.p, useid ? id.c_str() : NULL, mid.size() ? mid.c_str() : NULL); if (!x) return false; exercise(x); dlite_instance_decref(x); return true; });
  w->finish();
}
PBT(D18, json_tools, 20000, 400000, 100, "the document is rejected") {
  std::unique_ptr<World> w(world(g)); std::vector<S> ids, metas; S t = jsontext(g, *w, ids, metas); g.log("%s", t.c_str());
  Exact e(t, false); bool term = false; (void)term; S id = ids.size() && g.flip() ? g.pick(ids) : S("x");
  switch (g.below(4)) {
  case 0: careful(g, "dlite_json_scheck", [&]() { DLiteJsonFlag fl; return dlite_json_scheck(e.p, e.n, g.rng.s & 1 ? NULL : id.c_str(), &fl) >= 0; }); break;
  case 1: { Exact z(t, true); bool zl = g.flip(); careful(g, "dlite_json_iter", [&]() {
      DLiteJsonIter *it = dlite_json_iter_create(zl || !e.n ? z.p : e.p, zl ? 0 : (int)e.n, metas.size() ? metas[0].c_str() : NULL); if (!it) return false;
      int len; size_t n = 0; while (const char *p = dlite_json_next(it, &len)) { const char *b = zl || !e.n ? z.p : e.p; REQUIRE(p >= b && len >= 0 && p + len <= b + t.size() && ++n <= t.size(), "iterator leaves the document"); }
      dlite_json_iter_free(it); return true; }); break; }
  case 2: careful(g, "dlite_jstore_loads", [&]() {
      JStore *js = jstore_open(); bool ok = dlite_jstore_loads(js, e.p, (int)e.n) >= 0;
      if (ok) { DLiteJStoreIter *it = dlite_jstore_iter_create(js, NULL); if (it) { std::vector<S> keys; while (const char *k = dlite_jstore_iter_next(it)) keys.push_back(k); dlite_jstore_iter_free(it); } dlite_errclr(); }
      jstore_close(js); return ok; }); break;
  default: careful(g, "jstore_update_from_string", [&]() {
      JStore *js = jstore_open(); jstore_add(js, "k", "1"); bool ok = jstore_update_from_string(js, e.p, (int)e.n) == 0;
      REQUIRE(jstore_get(js, "k") || ok, "entry lost"); char *s = jstore_to_string(js); REQUIRE(s, "a store cannot be written"); free(s); jstore_close(js); return ok; });
  }
  w->finish();
}

// ------------------------------------------------ JSON storages
static S path() { const char *d = getenv("VERIF_SCRATCH"); return fmt("%s/d18-%d.json", d ? d : "/tmp", (int)getpid()); }
static void spit(const S &t) { std::ofstream f(path(), std::ios::binary); f << t; }
static S readall() { std::ifstream f(path(), std::ios::binary); return S(std::istreambuf_iterator<char>(f), {}); }
PBT(D18, json_storage, 4000, 80000, 25, "the storage is rejected or an instance in it is") {
  std::unique_ptr<World> w(world(g)); std::vector<S> ids, metas; S t = g.chance(1, 10) ? g.bytes(g.size(50)) : jsontext(g, *w, ids, metas); if (g.chance(1, 20)) t += S(1, '\0') + "}"; g.log("%s", show(t).c_str());
  S opt = g.pick<S>({"mode=r", "mode=r", "mode=a", "", "mode=append", "mode=r;with-uuid=yes", "mode=r;single=yes"}); if (g.chance(1, 4)) { opt = wild(g, opt); for (auto &c : opt) if (!c || c == 'w') c = 'a'; } g.log("options %s", show(opt).c_str());
  S f = path(); bool rejected = false;
  careful(g, "JSON storage", [&]() {
    spit(t); rejected = false;
    DLiteStorage *s = dlite_storage_open("json", f.c_str(), opt.c_str());
    if (!s) { REQUIRE(readall() == t, "a file that cannot be opened was changed"); return false; }
    dlite_errclr(); std::vector<S> found; char u[DLITE_UUID_LENGTH + 1]; size_t n = 0;
    if (void *it = dlite_storage_iter_create(s, NULL)) { while (dlite_storage_iter_next(s, it, u) == 0) { found.push_back(u); REQUIRE(++n <= t.size(), "endless iteration"); } dlite_storage_iter_free(s, it); }
    dlite_errclr();
    char **uu = dlite_storage_uuids(s, NULL); dlite_errclr(); if (uu) dlite_storage_uuids_free(uu);
    for (auto &i : ids) found.push_back(i);
    for (auto &i : found) { if (i.find("http") == 0) continue; DLiteInstance *x = dlite_instance_load(s, i.c_str()); if (x) { exercise(x); dlite_instance_decref(x); } else { REQUIRE(take_error(), "loading %s: rejected without an error", i.c_str()); rejected = true; } }
    if (found.size() == 1) { DLiteInstance *x = dlite_instance_load(s, NULL); if (x) { exercise(x); dlite_instance_decref(x); } else { REQUIRE(take_error(), "rejected without an error"); rejected = true; } }
    dlite_storage_close(s); dlite_errclr();
    return true; });
  unlink(f.c_str()); if (rejected) { g.nontrivial(); g.label("instance rejected"); }
  w->finish();
}

// ------------------------------------------------ BSON
static S wildb(Gen &g, S s) {
  int k = g.weighted({5, 2, 1}) + 1;
  for (int i = 0; i < k && s.size(); i++) switch (g.below(9)) {
    case 0: s[g.below(s.size())] = (char)g.below(256); break;
    case 1: s[g.below(s.size())] ^= 1 << g.below(8); break;
    case 2: s.resize(g.below(s.size() + 1)); break;
    case 3: s.insert(g.below(s.size() + 1), g.bytes(1 + g.below(6))); break;
    case 4: { size_t p = g.below(s.size()); s.erase(p, 1 + g.below(8)); break; }
    case 5: { if (s.size() >= 8) { size_t p = g.below(s.size() - 3); int32_t v; memcpy(&v, &s[p], 4); v = g.pick<int32_t>({v + 1, v - 1, 0, -1, INT32_MAX, INT32_MIN, (int32_t)s.size(), 4, 5, v * 2}); memcpy(&s[p], &v, 4); } break; }
    case 6: { size_t a = g.below(s.size()), b = g.below(s.size()), n = std::min<size_t>(g.size(30), s.size() - a); S c = s.substr(a, n); s.insert(b, c); break; }
    case 7: { // another element type
      size_t p = g.below(s.size()); for (int j = 0; j < 50 && p < s.size() && !(s[p] >= 1 && s[p] <= 0x12); j++) p = g.below(s.size()); s[p] = g.pick<char>({1, 2, 3, 4, 5, 8, 10, 16, 17, 18}); break; }
    default: { static const char *names[] = {"uri", "uuid", "meta", "dimensions", "properties", "type", "shape", "ref", "unit", "name"}; const char *a = names[g.below(10)], *b = names[g.below(10)]; size_t p = s.find(a); if (p != S::npos && strlen(a) >= strlen(b)) { s.replace(p, strlen(b), b); if (strlen(b) < strlen(a)) s[p + strlen(b)] = 0; } break; }
  }
  if (s.size() < 5) s.resize(5, 0);
  if (!g.chance(1, 20)) { uint32_t sz = s.size(); memcpy(&s[0], &sz, 4); s[sz - 1] = 0; } else { uint32_t sz; memcpy(&sz, s.data(), 4); if (sz > s.size() && sz <= 0x7fffffff) { sz = s.size(); memcpy(&s[0], &sz, 4); } }
  return s;
}
PBT(D18, bson, 8000, 150000, 50, "the document is rejected") {
  std::unique_ptr<World> w(world(g)); S doc;
  { DLiteInstance *x = NULL; MetaM m; InstM *im = NULL;
    if (g.chance(1, 3)) { MetaOpt o; o.types = TY_REF | TY_REL; o.refuri = w->refmeta.uri; m = gen_meta(g, o); m.meta = create_meta(m); REQUIRE(m.meta, "metadata"); x = (DLiteInstance *)m.meta; }
    else { int mi = g.below(w->metas.size()); auto d = gen_dims(g, *w->metas[mi], 3); if (dims_status(*w->metas[mi], d) == 1) { im = w->create(mi, d, g.flip() ? "zz:inst" : NULL); for (size_t j = 0; j < im->vals.size(); j++) w->set_random(*im, j); x = im->inst; } }
    if (!x) { w->finish(); return; }
    size_t n; unsigned char *b = dlite_bson_from_instance(x, &n); REQUIRE(b, "encode: %s", dlite_errmsg()); doc.assign((char *)b, n); free(b);
    if (m.meta) forget(m.meta); else w->release(*im);
  }
  S t = wildb(g, doc); g.log("%s", show(t).c_str()); Exact e(t, false);
  careful(g, "dlite_bson_load_instance", [&]() { DLiteInstance *x = dlite_bson_load_instance((unsigned char *)e.p); if (!x) return false; exercise(x); dlite_instance_decref(x); return true; });
  w->finish();
}

// ------------------------------------------------ texts of values
PBT(D18, values, 30000, 500000, 200, "the text is rejected") {
  std::unique_ptr<World> w(world(g)); InstM *x = NULL; int mi = g.below(w->metas.size());
  { auto d = gen_dims(g, *w->metas[mi], 3); if (dims_status(*w->metas[mi], d) == 1) x = w->create(mi, d); }
  if (!x || !x->m->props.size()) { w->finish(); return; }
  for (size_t j = 0; j < x->vals.size(); j++) w->set_random(*x, j); size_t pi = g.below(x->m->props.size()); const DLiteProperty *p = x->m->meta->_properties + pi; std::vector<size_t> sh; size_t n = shape_of(*x->m, pi, x->dims, sh); (void)n;
  int flags = g.pick<int>({0, 0, dliteFlagQuoted, dliteFlagStrip, dliteFlagRaw, dliteFlagDefault});
  char buf[4]; void *ptr = dlite_instance_get_property_by_index(x->inst, pi); size_t *shp = dlite_instance_get_property_dims_by_index(x->inst, pi); 
  int need = dlite_property_print(buf, 0, ptr, p, shp, 0, -2, (DLiteTypeFlag)flags); S t; if (need >= 0) { t.resize(need + 1); dlite_property_print(&t[0], need + 1, ptr, p, shp, 0, -2, (DLiteTypeFlag)flags); t.resize(need); }
  dlite_errclr(); t = nonul(g.chance(1, 8) ? randomtokens(g) : wild(g, t)); g.log("%s shape %zu: %s", tyname(x->m->props[pi].t).c_str(), sh.size(), show(t).c_str());
  Exact e(t, true); Ty ty = x->m->props[pi].t; bool rejected = false;
  if (g.flip()) { free(shp); shp = NULL;
    // one value
    Exact u(t, false); int how = g.below(2); size_t heap[4];
    for (int i = 0; i < 4; i++) { char mem[64]; void *q = calloc(1, ty.n); (void)mem; int r = how ? dlite_type_scan(u.p, (int)u.n, q, ty.t, ty.n, (DLiteTypeFlag)flags) : dlite_type_scan(e.p, -1, q, ty.t, ty.n, (DLiteTypeFlag)flags); REQUIRE(r <= (int)t.size(), "consumed %d of %zu characters", r, t.size()); int err = take_error(); REQUIRE(r >= 0 || err, "rejected without an error"); rejected = r < 0; dlite_type_clear(q, ty.t, ty.n); free(q); heap[i] = __sanitizer_get_current_allocated_bytes(); }
    REQUIRE(!(heap[1] < heap[2] && heap[2] < heap[3]), "dlite_type_scan: %zu bytes lost", heap[3] - heap[2]);
  } else {
    size_t heap[4];
    for (int i = 0; i < 4; i++) {
      int r = dlite_property_scan(e.p, x->m->props[pi].shape.size() ? ptr : ptr, p, shp, (DLiteTypeFlag)flags); REQUIRE(r <= (int)t.size(), "consumed %d of %zu characters", r, t.size()); int err = take_error(); REQUIRE(r >= 0 || err, "rejected without an error"); rejected = r < 0;
      heap[i] = __sanitizer_get_current_allocated_bytes();
    }
    if (ty.t != dliteRef) REQUIRE(!(heap[1] < heap[2] && heap[2] < heap[3]), "dlite_property_scan: %zu bytes lost", heap[3] - heap[2]);
    free(shp);
    char *j = dlite_json_aprint(x->inst, 0, dliteJsonWithUuid); free(j); dlite_errclr();
    // values may have been replaced
    dlite_instance_decref(x->inst); x->inst = NULL;
  }
  if (x->inst) w->release(*x);
  if (rejected) g.nontrivial();
  for (auto *q : w->targets) if (q->_refcount > 1) {} ;
}

// ------------------------------------------------ other texts
static S sample(Gen &g, int kind) {
  switch (kind) {
  case 0: return g.pick<S>({"json://path/to/file.json?mode=r;a=b#frag", "http://user:pw@host.org:80/p/a/t/h?q=1&r=2#f", "driver://loc", "C:\\dir\\file?mode=w", "hdf5://[::1]:99/x", "zz:a/0.1/b", "file:///a/b", "http://onto-ns.com/meta/0.3/EntitySchema", "urn:isbn:1", "a?b=c&d=%20e"});
  case 1: return g.pick<S>({"mode=r;compact=yes", "mode=w&with-uuid=0#x", "a=1;b=2", "key1=va%20lue;key2=;key3", "b=%41%zz"});
  case 2: return g.pick<S>({"Hello {name}!", "{list:{.name} is {n%04d}\\.\n}", "{if (n > 3)}yes{elif n=2}maybe{else}no{endif}", "{name%M}{@12}{a%-6.3s}", "{{}}{sub:{}text{a}}", "{n%d} {@4}\\.{name%%20s}", "{if name=\"x y\" && n}a{else if !n}b{endif}"});
  case 3: return g.pick<S>({"1+2*(3-x)/y^2%5", "x<=3 && !(y!=2) || n", "-3+((2))", "((x))", "2^31-1", "x=y"});
  case 4: return g.pick<S>({"*.json", "a?c[a-z]*", "[^abc]x\\*", "**/*", "[]]", "[a-]"});
  case 5: return g.pick<S>({"\"quoted \\\"text\\\"\"", "  \"a\"b", "plain", "\"\\u00e5\\n\\\\\"", "\"\""});
  case 6: return g.pick<S>({"0123456789abcdefABCDEF", "00", "f", ""});
  case 7: return g.pick<S>({"int32", "uint64", "float", "double", "string12", "blob16", "fixstring", "bool", "ref", "relation", "dimension", "property", "longint", "float128", "http://onto-ns.com/meta/0.1/E"});
  case 8: return g.pick<S>({"http://onto-ns.com/meta/0.1/Entity", "zz:a/1/b", "ns/0.1/name", "550e8400-e29b-41d4-a716-446655440000", "http://a/550e8400-e29b-41d4-a716-446655440000"});
  default: return g.pick<S>({"1.2.3-alpha.1+build", "0.0.0", "10.20.30", "yes", "true", "0", "N", "off"});
  }
}
static int loopf(TGenBuf *s, const char *t, int len, TGenSubs *subs, void *ctx) { for (int i = 0; i < 2; i++) { int r = tgen_append(s, t, len, subs, ctx); if (r) return r; } return 0; }
static void texts(Gen &g, int kind, const S &t, bool &rejected, int sel, int size) {
  Exact e(t, true), u(t, false); char *out = (char *)malloc(size ? size : 1);
  auto bad = [&](bool r, bool err) { rejected = r; int c = take_error(); if (r && err) REQUIRE(c, "rejected without an error"); };
  switch (kind) {
  case 0: { char *c = strdup(t.c_str()), *d, *l, *o, *f; int r = sel & 1 ? dlite_split_url(c, &d, &l, &o, &f) : dlite_split_url_winpath(c, &d, &l, &o, &f, sel & 2); 
      if (!r) { S all; for (char *x : {d, l, o, f}) if (x) { REQUIRE(x >= c && x <= c + t.size(), "part outside"); all += x; } char *j = dlite_join_url(d, l ? l : "", o, f); free(j); }
      bad(r, true); free(c);
      UrlComponents q; r = urlsplitn(u.p, (int)u.n, &q); REQUIRE(r >= 0 && r <= (int)t.size(), "urlsplitn: %d", r); isurln(u.p, (int)u.n); r = urlsplit(e.p, &q); REQUIRE(r >= 0 && r <= (int)t.size(), "urlsplit: %d", r); isurl(e.p); if (r) { urljoin(out, size, &q); }
      r = pct_ndecode(out, size, u.p, u.n); pct_decode(out, size, e.p); pct_encode(out, size, e.p); pct_nencode(out, size, u.p, u.n); break; }
  case 1: { char *c = strdup(t.c_str()); DLiteOpt opts[] = {{'m', "mode", "a", "d"}, {'c', "compact", "b", "d"}, {'1', "a", NULL, "d"}, {'2', "b", "", "d"}, {'k', "key1", "x", "d"}, {0, NULL, NULL, NULL}};
      int r = dlite_option_parse(c, opts, (DLiteOptFlag)(sel & 1 ? dliteOptStrict : 0)); for (int i = 0; opts[i].key; i++) if (opts[i].value) strlen(opts[i].value); bad(r, true); free(c);
      S o(t.size() + 1, 0); size_t n = uri_decode(u.p, u.n, &o[0]); REQUIRE(n <= t.size(), "uri_decode gives more than it got"); break; }
  case 2: { TGenSubs subs; tgen_subs_init(&subs); tgen_subs_set(&subs, "name", "NAME", NULL); tgen_subs_set(&subs, "n", "3", NULL); tgen_subs_set(&subs, "a", "text {name}", NULL); tgen_subs_set(&subs, "list", "", loopf); tgen_subs_set(&subs, "sub", NULL, tgen_append);
      TGenBuf b; tgen_buf_init(&b); int r = tgen_append(&b, e.p, sel & 1 ? (int)u.n : -1, &subs, NULL); bad(r, true); tgen_buf_deinit(&b); tgen_subs_deinit(&subs); break; }
  case 3: { InfixCalcVariable v[] = {{"x", 3}, {"y", -2}, {"n", 0}, {"N", 1000000000}}; memset(out, 0, size ? size : 1); infixcalc(e.p, v, 4, out, size); rejected = size && *out; if (size) REQUIRE(memchr(out, 0, size), "message is not terminated"); infixcalc_depend(e.p, "x"); infixcalc_depend(e.p, "N"); break; }
  case 4: { S s = g.rng.s & 1 ? t : S("abc.json"); int r = globmatch(e.p, s.c_str()); globmatch(s.c_str(), e.p); rejected = r != 0; break; }
  case 5: { int cons; for (int f : {0, 1, 2, 4, 7}) { int r = strunquote(out, size, e.p, &cons, (StrquoteFlags)f); if (r >= 0) REQUIRE(cons <= (int)t.size() && cons >= 0, "consumed %d", cons); else rejected = true; r = strnunquote(out, size, u.p, (int)u.n, &cons, (StrquoteFlags)f); if (r >= 0) REQUIRE(cons <= (int)t.size() && cons >= 0, "consumed %d", cons); strnquote(out, size, u.p, (int)u.n, (StrquoteFlags)f); char *d = NULL; size_t ds = 0; strnput_unquote(&d, &ds, 0, u.p, (int)u.n, &cons, (StrquoteFlags)f); free(d); } strquote(out, size, e.p); dlite_errclr(); break; }
  case 6: { int r = strhex_decode((unsigned char *)out, size, u.p, (int)u.n); rejected = r < 0; strhex_decode((unsigned char *)out, size, e.p, -1); strhex_encode(out, size, (unsigned char *)u.p, u.n); dlite_errclr(); break; }
  case 7: { DLiteType ty; size_t n; int r = dlite_type_set_dtype_and_size(e.p, &ty, &n); bad(r, true); if (!r) { char b[40]; dlite_type_set_typename(ty, n, b, sizeof b); dlite_errclr(); } break; }
  case 8: { char b[DLITE_UUID_LENGTH + 1]; dlite_get_uuidn(b, u.p, u.n); dlite_get_uuid(b, e.p); char *n = NULL, *v = NULL, *s = NULL; dlite_errclr(); int r = dlite_split_meta_uri(e.p, &n, &v, &s); bad(r, true); if (!r) { char *j = dlite_join_meta_uri(n, v, s); free(j); free(n); free(v); free(s); } break; }
  default: { int r = strtob(e.p, NULL); char *end; strtob(e.p, &end); REQUIRE(end >= e.p && end <= e.p + t.size(), "end"); rejected = r < 0; strchk_semver(e.p); strnchk_semver(u.p, u.n); strcmp_semver(e.p, "1.2.3-alpha"); { S o("1.2.3-rc.1+b"); o.resize(std::min(o.size(), u.n)); Exact ob(o, true); strncmp_semver(e.p, ob.p, u.n); } for (int c = 0; c < 6; c++) { strcatspn(e.p, (StrCategory)c); strcatjspn(e.p, (StrCategory)c); strcatcjspn(e.p, (StrCategory)c); } 
      break; }
  }
  dlite_errclr(); free(out);
}
static S fewdigits(S t) { int n = 0; S r; for (char c : t) { n = isdigit((unsigned char)c) ? n + 1 : 0; if (n < 5) r += c; } return r; }   // a template may ask for any amount of padding
PBT(D18, texts, 120000, 2000000, 500, "the text is rejected") {
  int kind = g.below(10); S t = nonul(g.chance(1, 6) ? randomtokens(g) : g.chance(1, 12) ? g.bytes(g.size(40)) : wild(g, sample(g, kind))); if (kind == 2) t = fewdigits(t); int sel = g.below(4), size = g.chance(1, 3) ? g.below(4) : g.size(60);
  g.log("kind %d size %d sel %d: %s", kind, size, sel, show(t).c_str());
  size_t heap[4]; bool rejected = false; for (int i = 0; i < 4; i++) { rejected = false; texts(g, kind, t, rejected, sel, size); heap[i] = __sanitizer_get_current_allocated_bytes(); }
  REQUIRE(!(heap[1] < heap[2] && heap[2] < heap[3]), "%zu bytes are lost", heap[3] - heap[2]);
  if (rejected) g.nontrivial();
  g.label(fmt("kind %d %s", kind, rejected ? "rejected" : "accepted"));
}
static void init() {
  dlite_err_set_stream(NULL); world_finite = true;
  DLiteInstance *m = dlite_json_sscan(GOODMETA, NULL, NULL); REQUIRE(m, "good metadata: %s", dlite_errmsg()); works();
}
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
