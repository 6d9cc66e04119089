// flavours: asan builtin
// D14: the content hash tells contents apart and depends on nothing else
#include "world.hpp"
#include "json.hpp"
#include "preimage.hpp"
#include "dlite-json.h"
extern "C" {
#include "dlite-bson.h"
}
#include "dlite-collection.h"
static void init() { dlite_err_set_stream(NULL); world_finite = true; }

static S hash_of(const DLiteInstance *inst, int n, const char *when) {
  uint8_t h[64 + 8]; memset(h, 0xa5, sizeof h); REQUIRE(dlite_instance_get_hash(inst, h, n) == 0, "%s: get_hash: %s", when, dlite_errmsg());
  for (int i = n; i < (int)sizeof h; i++) REQUIRE(h[i] == 0xa5, "%s: hash of size %d writes byte %d", when, n, i);
  return S((char *)h, n);
}
static int hsize(Gen &g) { return g.pick<int>({32, 48, 64, DLITE_HASH_SIZE}); }
static InstM norm(const InstM &x) {   // null and empty text are the same content
  InstM y = x; for (size_t j = 0; j < y.vals.size(); j++) for (auto &e : y.vals[j]) { if (y.m->props[j].t.t == dliteStringPtr && e.null) e = Elem(S("")); if (y.m->props[j].t.t == dliteRelation) for (auto &f : e.f) if (f.null) f = Elem(S("")); }
  return y;
}
static S key(const InstM &x) { return x.m->uri + "\n" + preimage(x); }
static bool same_content(const InstM &a, const InstM &b) { InstM x = norm(a), y = norm(b); return x.m == y.m && x.dims == y.dims && x.vals == y.vals; }

struct Pool {
  Gen &g; World w; Pool(Gen &g_) : g(g_), w(g_) {}
  void init(int types) { MetaOpt o; o.types = types; o.maxprops = 4; w.init(g.range(1, 2), o); }
  Elem small(Ty t) {   // values that often coincide
    switch (t.t) {
    case dliteStringPtr: return g.pick<S>({"", "a", "b", "ab", "ba"});
    case dliteFixString: { S s = g.pick<S>({"", "a", "b", "ab", "ba"}); return s.substr(0, t.n - 1); }
    case dliteRef: return gen_value(g, t, w.trefs);
    case dliteRelation: { Elem e; for (int i = 0; i < 4; i++) e.f.push_back(Elem(g.pick<S>({"a", "b", "c"}))); return e; }
    case dliteBool: return Elem(S(1, (char)g.below(2)));
    default: { S b(t.n, '\0'); b[g.below(t.n)] = (char)g.below(3); return t.t == dliteFloat ? gen_value(g, t) : Elem(b); }
    }
  }
  std::vector<Elem> value(InstM &x, size_t j) { std::vector<Elem> v; bool s = g.chance(3, 4); S lng; if (x.m->props[j].t.t == dliteStringPtr && g.chance(1, 6)) while (lng.size() < (size_t)g.range(20, 300)) lng += "long text ";
    if (lng.size()) for (size_t i = 0; i < x.vals[j].size(); i++) v.push_back(Elem(lng)); else
    for (size_t i = 0; i < x.vals[j].size(); i++) v.push_back(s ? small(x.m->props[j].t) : gen_value(g, x.m->props[j].t, w.trefs)); return v; }
  void assign(InstM &x, size_t j, const std::vector<Elem> &v) { PropBuf b(w.buf(x, j, v)); REQUIRE(dlite_instance_set_property_by_index(x.inst, j, b.p) == 0, "set"); x.vals[j] = v; }
  // another instance with the same content, made in another way
  DLiteInstance *again(InstM &x, S &how) {
    switch (g.below(5)) {
    case 0: { how = "copied"; DLiteInstance *c = dlite_instance_copy(x.inst, g.flip() ? NULL : "http://x.y/copy"); REQUIRE(c, "copy"); return c; }
    case 1: {   // through JSON, under another identity
      how = "from JSON"; int flags = g.below(2) ? dliteJsonArrays : 0; int n = dlite_json_sprint(NULL, 0, x.inst, 0, (DLiteJsonFlag)(dliteJsonSingle | flags)); REQUIRE(n >= 0, "sprint"); S b(n, 0); dlite_json_sprint(&b[0], n + 1, x.inst, 0, (DLiteJsonFlag)(dliteJsonSingle | flags));
      js::V v = js::parse(b, "json"), o = js::obj(); for (auto &e : v.o) if (e.first != "uri" && e.first != "uuid") o.o.push_back(e); S t = js::print(o);
      DLiteInstance *c = dlite_json_sscan(t.c_str(), "http://x.y/json", NULL); REQUIRE(c, "sscan: %s %s", t.c_str(), dlite_errmsg()); return c; }
    case 2: {   // through BSON while the first one is gone
      how = "from BSON"; size_t n; unsigned char *b = dlite_bson_from_instance(x.inst, &n); REQUIRE(b, "bson"); S u = x.uuid; REQUIRE(dlite_instance_decref(x.inst) == 0, "release"); x.inst = dlite_bson_load_instance(b); free(b); REQUIRE(x.inst && u == x.inst->uuid, "bson load: %s", dlite_errmsg()); DLiteInstance *c = x.inst; dlite_instance_incref(c); return c; }
    default: {
      how = "built"; DLiteInstance *c; InstM y = x; y.inst = c = create_inst(*x.m, x.dims, NULL); REQUIRE(c, "create"); 
      for (int k = g.below(4); k > 0 && y.vals.size(); k--) { size_t j = g.below(y.vals.size()); auto v = value(y, j); PropBuf b(w.buf(y, j, v)); REQUIRE(dlite_instance_set_property_by_index(c, j, b.p) == 0, "set"); }
      if (x.dims.size() && g.flip()) { auto d = gen_dims(g, *x.m, 3); if (dims_status(*x.m, d) == 1) { std::vector<int> a(d.begin(), d.end()), b(x.dims.begin(), x.dims.end()); REQUIRE(dlite_instance_set_dimension_sizes(c, a.data()) == 0 && dlite_instance_set_dimension_sizes(c, b.data()) == 0, "resize"); how = "resized"; } }
      std::vector<size_t> ord; for (size_t j = 0; j < y.vals.size(); j++) ord.push_back(j); for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[g.below(i)]);
      for (size_t j : ord) { PropBuf b(w.buf(y, j, x.vals[j])); REQUIRE(dlite_instance_set_property_by_index(c, j, b.p) == 0, "set"); 
        if (x.m->props[j].t.t == dliteFixString && g.flip()) {   // what follows the end of a text is not content
          size_t n = x.m->props[j].t.n; char *p = (char *)dlite_instance_get_property_by_index(c, j); for (size_t i = 0; i < x.vals[j].size(); i++, p += n) { size_t l = strnlen(p, n); for (size_t k = l + 1; k < n; k++) p[k] = (char)g.below(256); } how += ", garbage after text"; } }
      return c; }
    }
  }
};

PBT(D14, same_content, 8000, 300000, 50, "an instance with properties, made again in another way") {
  Pool p(g); p.init(TY_REF | TY_REL); MetaM &m = *p.w.metas[0]; auto d = gen_dims(g, m, 3); if (dims_status(m, d) != 1) { p.w.finish(); return; }
  InstM *x = p.w.create(0, d, g.flip() ? NULL : "http://x.y/first"); bool any = false;
  for (size_t j = 0; j < x->vals.size(); j++) if (g.chance(3, 4)) { if (g.flip()) p.w.set_random(*x, j); else p.assign(*x, j, p.value(*x, j)); if (x->vals[j].size()) any = true; }
  for (auto &v : x->vals) for (auto &e : v) for (auto &f : e.f) if (f.null) f = f;   // relations may have null text: not distinguished from empty
  int n = hsize(g); S h = hash_of(x->inst, n, "first"); check_inst(*x, "after hashing"); REQUIRE(hash_of(x->inst, n, "again") == h, "hashing the same instance twice gives different results");
  S how; DLiteInstance *c = p.again(*x, how); REQUIRE(hash_of(c, n, how.c_str()) == h, "the same content (%s) has another hash (size %d)", how.c_str(), n); g.log("%s", how.c_str()); g.label(how.substr(0, 8));
  REQUIRE(hash_of(x->inst, n, "after") == h, "hash of an unchanged instance changed");
  if (any) g.nontrivial();
  dlite_instance_decref(c); p.w.finish();
}

// Compares all pairs of a set of similar instances
PBT(D14, different_content, 8000, 300000, 50, "instances with the same and with different content") {
  Pool p(g); p.init(TY_REF | TY_REL); std::vector<MetaM *> ms; for (auto &m : p.w.metas) ms.push_back(m.get());
  MetaM twin = *ms[0]; twin.meta = NULL; twin.uri += "Twin"; twin.name += "Twin"; twin.meta = create_meta(twin); REQUIRE(twin.meta, "twin: %s", dlite_errmsg());
  int n = hsize(g), k = g.range(2, 6); std::vector<InstM> v; std::vector<S> hs;
  for (int i = 0; i < k; i++) {
    InstM x; x.m = v.size() && g.chance(1, 6) ? &twin : ms[g.chance(4, 5) ? 0 : g.below(ms.size())]; bool derive = v.size() && g.chance(2, 3) && (v.back().m == x.m || (x.m == &twin && v.back().m == ms[0]));
    x.dims = derive ? v.back().dims : gen_dims(g, *x.m, 3); if (derive && g.chance(1, 4) && x.dims.size()) { if (x.dims.size() > 1 && g.flip()) std::swap(x.dims[0], x.dims[1]); else x.dims[g.below(x.dims.size())] = g.below(4); }
    if (g.chance(1, 5) && x.dims.size()) {   // large dimensions that no property depends on
      auto d = x.dims; d[g.below(d.size())] += g.pick<long>({256, 65536, 1L << 24}); std::vector<size_t> a, b; bool unused = true;
      if (dims_status(*x.m, x.dims) == 1) { for (size_t j = 0; j < x.m->props.size(); j++) if (!shape_of(*x.m, j, x.dims, a) || !shape_of(*x.m, j, d, b) || a != b) unused = false; if (unused) { x.dims = d; g.label("large unused dimension"); } }
    }
    if (dims_status(*x.m, x.dims) != 1) continue;
    x.inst = create_inst(*x.m, x.dims, NULL); REQUIRE(x.inst, "create"); x.uuid = x.inst->uuid; zero_vals(x);
    if (derive && x.dims == v.back().dims) for (size_t j = 0; j < x.vals.size(); j++) x.vals[j] = v.back().vals[j];
    else for (size_t j = 0; j < x.vals.size(); j++) { if (derive && x.vals[j].size() == v.back().vals[j].size()) x.vals[j] = v.back().vals[j]; else x.vals[j] = p.value(x, j); }
    S what = "as it was";
    if (x.vals.size()) for (int r = g.below(3); r > 0; r--) {
      size_t j = g.below(x.vals.size()); auto &a = x.vals[j]; if (a.empty()) continue;
      switch (g.below(4)) {
      case 0: a[g.below(a.size())] = p.small(x.m->props[j].t); what = "element"; break;
      case 1: std::swap(a[g.below(a.size())], a[g.below(a.size())]); what = "swapped elements"; break;
      case 2: { size_t q = g.below(x.vals.size()); if (x.m->props[q].t.t == x.m->props[j].t.t && x.m->props[q].t.n == x.m->props[j].t.n && x.vals[q].size() == a.size()) std::swap(a, x.vals[q]); what = "swapped properties"; break; }
      case 3: { Elem &e = a[g.below(a.size())]; const Ty t = x.m->props[j].t; if (t.t == dliteInt || t.t == dliteUInt || t.t == dliteBlob) { e.b[g.below(t.n)] ^= 1 << g.below(8); what = "one bit"; } else if (e.b.size() && t.t == dliteStringPtr) { e.b[g.below(e.b.size())] ^= 1; if (e.b.find('\0') != S::npos) e.b = "x"; what = "one letter"; } break; }
      }
    }
    for (size_t j = 0; j < x.vals.size(); j++) { PropBuf b(p.w.buf(x, j, x.vals[j])); REQUIRE(dlite_instance_set_property_by_index(x.inst, j, b.p) == 0, "set"); }
    g.log("%zu: %s, %s", v.size(), x.m == &twin ? "twin metadata" : x.m->uri.c_str(), what.c_str());
    v.push_back(x); hs.push_back(hash_of(x.inst, n, "hash"));
  }
  bool eq = false, ne = false;
  for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) {
    if (same_content(v[i], v[j])) { eq = true; REQUIRE(hs[i] == hs[j], "instances %zu and %zu have the same content but different hashes", j, i); }
    else if (key(v[i]) != key(v[j])) { ne = true; REQUIRE(hs[i] != hs[j], "instances %zu and %zu have different content but the same hash", j, i); }
    else g.label("texts joined");
  }
  if (eq && ne) g.nontrivial();
  for (auto &x : v) dlite_instance_decref(x.inst);
  dlite_meta_decref(twin.meta); p.w.finish();
}

// Every part of a definition counts
PBT(D14, definitions, 4000, 120000, 50, "metadata made again, and with one part of its definition changed") {
  MetaOpt o; o.types = TY_REL; o.maxprops = 4; MetaM m = gen_meta(g, o); int n = hsize(g); if (m.props.empty()) throw Discard{};
  for (auto &q : m.props) if (g.chance(1, 3)) q.descr = Elem("d" + g.text(20) + S(g.below(80), 'l') + "e");
  S h[3]; const char *what = "as it was";
  auto change = [&](Elem &e) { if (e.null || e.b.empty() || g.chance(1, 4)) e = Elem(e.b + "x"); else { size_t k = g.below(e.b.size()); if ((unsigned char)e.b[k] < 128 && isalnum((unsigned char)e.b[k])) e.b[k] ^= 1; else e.b += "y"; } };
  for (int i = 0; i < 3; i++) {
    if (i == 2) {
      PropM &q = m.props[g.below(m.props.size())];
      auto used = [&](const S &x) { for (auto &r : m.props) for (auto &e : r.shape) if (e.text.find(x) != S::npos) return true; return false; };
      switch (g.below(11)) {
      case 0: change(m.descr); what = "description"; break;
      case 1: if (m.dims.size()) { change(m.dims[g.below(m.dims.size())].second); what = "description of a dimension"; break; }
      case 2: if (m.dims.size()) { auto &d = m.dims[g.below(m.dims.size())]; if (!used(d.first)) { d.first += "2x"; what = "name of a dimension"; break; } }
      case 3: q.name += "2x"; what = "name of a property"; break;
      case 4: if (q.t.t == dliteInt || q.t.t == dliteUInt) { if (g.flip()) q.t.t = q.t.t == dliteInt ? dliteUInt : dliteInt; else q.t.n = q.t.n == 4 ? 8 : 4; what = "type"; break; }
              if (q.t.t == dliteFixString || q.t.t == dliteBlob) { q.t.n += 1; what = "size"; break; }
              if (q.t.t == dliteStringPtr) { q.t = {dliteInt, 4}; what = "text to number"; break; }
      case 5: case 6: change(q.unit); what = "unit"; break;
      case 7: if (q.shape.size()) { auto &e = q.shape[g.below(q.shape.size())]; e.text = "1+" + e.text; what = "expression of a shape"; break; }
      case 8: { DimExpr one{"1", nullptr}; q.shape.push_back(one); what = "additional dimension of a shape"; break; }
      case 9: if (m.props.size() > 1) { std::swap(m.props[0], m.props[1]); what = "order of properties"; break; }
      default: change(q.descr); what = "description of a property";
      }
    }
    DLiteMeta *d = create_meta(m); REQUIRE(d, "create (%s): %s", what, dlite_errmsg());
    h[i] = hash_of((DLiteInstance *)d, n, "metadata"); REQUIRE(hash_of((DLiteInstance *)d, n, "again") == h[i], "hashing the same metadata twice gives different results");
    for (int k = 0; k < 2 && dlite_instance_has(m.uri.c_str(), 0); k++) dlite_meta_decref(d);   // metadata stays in the instance store
    REQUIRE(!dlite_instance_has(m.uri.c_str(), 0), "metadata is still there after it was released");
  }
  g.nontrivial(); g.log("%s: %s", showmeta(m).c_str(), what); g.label(what);
  REQUIRE(h[0] == h[1], "the same metadata made again has another hash");
  REQUIRE(h[0] != h[2], "metadata with another %s has the same hash", what);
}

// The identity and the content of an instance's parent are part of its content
PBT(D14, parents, 3000, 100000, 50, "instances of the same content with different parents") {
  Pool p(g); p.init(0); MetaM &m = *p.w.metas[0]; auto d = gen_dims(g, m, 2); if (dims_status(m, d) != 1) { p.w.finish(); return; }
  int n = hsize(g), np = g.range(1, 3), k = g.range(2, 4); std::vector<InstM> ps, v; std::vector<int> par; std::vector<S> hs;
  auto make = [&](InstM &x, const std::vector<InstM> &like) {
    x.m = &m; x.dims = d; x.inst = create_inst(m, d, NULL); REQUIRE(x.inst, "create"); x.uuid = x.inst->uuid; zero_vals(x);
    for (size_t j = 0; j < x.vals.size(); j++) p.assign(x, j, like.size() && g.chance(5, 6) ? like[0].vals[j] : p.value(x, j));
  };
  for (int i = 0; i < np; i++) { InstM x; make(x, ps); ps.push_back(x); dlite_instance_freeze(x.inst); }
  for (int i = 0; i < k; i++) {
    InstM x; make(x, v); int q = g.range(-1, np - 1); if (q >= 0 && g.chance(1, 5)) { REQUIRE(dlite_instance_set_parent(x.inst, ps[g.below(np)].inst) == 0, "set_parent"); }
    if (q >= 0) REQUIRE(dlite_instance_set_parent(x.inst, ps[q].inst) == 0, "set_parent: %s", dlite_errmsg());
    g.log("instance %d: parent %d, %s", i, q, show(preimage(x)).c_str()); v.push_back(x); par.push_back(q); hs.push_back(hash_of(x.inst, n, "hash"));
  }
  for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) {
    if (same_content(v[i], v[j]) && par[i] == par[j]) REQUIRE(hs[i] == hs[j], "instances %d and %d have the same content and parent but different hashes", j, i);
    else if (same_content(v[i], v[j]) || preimage(v[i]) != preimage(v[j])) { REQUIRE(hs[i] != hs[j], "instances %d and %d with parents %d and %d have the same hash", j, i, par[j], par[i]); if (same_content(v[i], v[j])) g.nontrivial(); }
  }
  for (auto &x : v) dlite_instance_decref(x.inst);
  for (auto &x : ps) dlite_instance_decref(x.inst);
  p.w.finish();
}

// Two parents of the same identity but of different content give children different hashes, whatever the child is
PBT(D14, parent_content, 1500, 50000, 50, "children of parents with the same identity and other content, as instances and as collections") {
  Pool p(g); p.init(0); MetaM &m = *p.w.metas[0]; auto d = gen_dims(g, m, 2); if (dims_status(m, d) != 1) { p.w.finish(); return; }
  int n = hsize(g); bool coll = g.flip(), pcoll = g.chance(1, 3); InstM cx, pv[2]; cx.m = &m; cx.dims = d; S hs[2]; char pid[] = "http://x.y/the-parent";
  auto make = [&](InstM &x, const char *id, const InstM *like) {
    x.m = &m; x.dims = d; x.inst = create_inst(m, d, id); REQUIRE(x.inst, "create: %s", dlite_errmsg()); x.uuid = x.inst->uuid; zero_vals(x);
    for (size_t j = 0; j < x.vals.size(); j++) p.assign(x, j, like && (like == &cx || g.chance(4, 5)) ? like->vals[j] : p.value(x, j));
  };
  { InstM x; make(x, NULL, NULL); cx.vals = x.vals; REQUIRE(dlite_instance_decref(x.inst) == 0, "release"); }
  S ptext[2];
  for (int i = 0; i < 2; i++) {
    DLiteInstance *par;
    if (pcoll) { DLiteCollection *c = dlite_collection_create(pid); REQUIRE(c, "create"); ptext[i] = g.pick<S>({"a", "b", "c"}); REQUIRE(dlite_collection_add_relation(c, "s", "p", ptext[i].c_str(), NULL) == 0, "add"); par = (DLiteInstance *)c; }
    else { make(pv[i], pid, i ? &pv[0] : NULL); par = pv[i].inst; }
    dlite_instance_freeze(par);
    DLiteInstance *c; InstM x;
    if (coll) { DLiteCollection *q = dlite_collection_create(NULL); REQUIRE(q && dlite_collection_add_relation(q, "a", "b", "c", NULL) == 0, "create"); c = (DLiteInstance *)q; } else { make(x, NULL, &cx); c = x.inst; }
    REQUIRE(dlite_instance_set_parent(c, par) == 0, "set_parent: %s", dlite_errmsg());
    if (g.flip()) { REQUIRE(dlite_instance_decref(par) == 1, "release parent"); par = NULL; }
    hs[i] = hash_of(c, n, "hash"); if (g.flip()) REQUIRE(hash_of(c, n, "hash") == hs[i], "the hash changes");
    REQUIRE(dlite_instance_decref(c) == 0, "release child"); if (par) REQUIRE(dlite_instance_decref(par) == 0, "release parent");
  }
  bool same = pcoll ? ptext[0] == ptext[1] : same_content(pv[0], pv[1]), differ = pcoll ? !same : key(pv[0]) != key(pv[1]);
  g.log("child %s parent %s: %s", coll ? "collection" : "instance", pcoll ? "collection" : "instance", same ? "same" : "different");
  if (same) REQUIRE(hs[0] == hs[1], "children of parents with the same identity and content have different hashes");
  else if (differ) { g.nontrivial(); REQUIRE(hs[0] != hs[1], "children of parents with different content have the same hash"); }
  p.w.finish();
}

typedef std::vector<S> T;   // s p o d
PBT(D14, collections, 6000, 200000, 50, "collections with the same and with different relations") {
  World w(g); MetaOpt o; o.maxprops = 2; w.init(1, o); int n = hsize(g);
  auto gt = [&] { return T{g.pick<S>({"a", "b", "ab", "x" + g.ident()}), g.pick<S>({"p", "b", "pb"}), g.pick<S>({"o", "a", "bo", g.text(4)}), g.chance(1, 4) ? g.pick<S>({"^", "d", "o"}) : S()}; };
  // two collections with the same member and mostly the same relations, added in different order
  std::vector<DLiteCollection *> c; std::vector<std::set<T>> r; int k = g.range(2, 4); std::set<T> base; for (int i = g.range(0, 5); i > 0; i--) { T t = gt(); if (t[2].empty()) t[2] = "o"; base.insert(t); }
  InstM *x = NULL; { auto d = gen_dims(g, *w.metas[0], 2); if (dims_status(*w.metas[0], d) == 1) x = w.create(0, d, NULL); } bool member = x && g.flip();
  for (int i = 0; i < k; i++) {
    std::set<T> s = base; if (i && g.chance(2, 3)) { if (s.size() && g.flip()) s.erase(std::next(s.begin(), g.below(s.size()))); if (g.flip()) { T t = gt(); if (t[2].empty()) t[2] = "o"; s.insert(t); } }
    DLiteCollection *q = dlite_collection_create(NULL); REQUIRE(q, "create"); std::vector<T> l(s.begin(), s.end()); for (size_t z = l.size(); z > 1; z--) std::swap(l[z - 1], l[g.below(z)]);
    size_t at = g.below(l.size() + 1); S desc;
    for (size_t z = 0; z <= l.size(); z++) {
      if (z == at && member) REQUIRE(dlite_collection_add(q, "item", x->inst) == 0, "add");
      if (z == at && g.chance(1, 4)) { REQUIRE(dlite_collection_add_relation(q, "tmp", "tmp", "tmp", NULL) == 0 && dlite_collection_remove_relations(q, "tmp", "tmp", "tmp", NULL) == 1, "temporary"); }
      if (z < l.size()) { T &t = l[z]; REQUIRE(dlite_collection_add_relation(q, t[0].c_str(), t[1].c_str(), t[2].c_str(), t[3].empty() ? NULL : t[3].c_str()) == 0, "add: %s", dlite_errmsg()); desc += fmt("(%s %s %s %s)", show(t[0]).c_str(), show(t[1]).c_str(), show(t[2]).c_str(), show(t[3]).c_str()); }
    }
    g.log("collection %d: %s%s", i, desc.c_str(), member ? " and an instance" : ""); c.push_back(q); r.push_back(s);
  }
  bool eq = false, ne = false; std::vector<S> hs; for (auto q : c) hs.push_back(hash_of((DLiteInstance *)q, n, "collection"));
  for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) { if (r[i] == r[j]) { eq = true; REQUIRE(hs[i] == hs[j], "collections %d and %d have the same relations but different hashes", j, i); } else { ne = true; REQUIRE(hs[i] != hs[j], "collections %d and %d have different relations but the same hash", j, i); } }
  if (member) {   // the content of members counts
    InstM old = *x; if (x->vals.size()) { w.set_random(*x, g.below(x->vals.size())); S h = hash_of((DLiteInstance *)c[0], n, "after changing a member"); if (preimage(old) != preimage(*x)) { g.label("member changed"); REQUIRE(h != hs[0], "hash of a collection does not depend on the content of its instances"); } else if (same_content(old, *x)) REQUIRE(h == hs[0], "hash of a collection changed"); }
  } 
  DLiteInstance *cp = dlite_instance_copy((DLiteInstance *)c[0], NULL); REQUIRE(cp, "copy: %s", dlite_errmsg()); REQUIRE(hash_of(cp, n, "copy") == hash_of((DLiteInstance *)c[0], n, "original"), "the copy of a collection has another hash"); dlite_collection_decref((DLiteCollection *)cp);
  if (eq && ne) g.nontrivial();
  for (auto q : c) dlite_collection_decref(q); w.finish();
}

// Where adjacent texts end is not part of the hash; pinned by the hash values in the test suite
PBT_KNOWN(D14, boundary, "texts that follow each other are hashed without separator: [\"ab\", \"c\"] and [\"a\", \"bc\"] have the same hash") {
  MetaM m; m.uri = "http://onto-ns.com/meta/0.1/HashBoundary"; m.descr = Elem(S("")); PropM p; p.name = "s"; p.t = {dliteStringPtr, sizeof(char *)}; p.shape.push_back(DimExpr{"2", [](const std::vector<long> &) { return 2L; }}); m.props.push_back(p);
  m.meta = create_meta(m); REQUIRE(m.meta, "create"); DLiteInstance *a = create_inst(m, {}, NULL), *b = create_inst(m, {}, NULL); const char *va[] = {"ab", "c"}, *vb[] = {"a", "bc"};
  REQUIRE(a && b && dlite_instance_set_property(a, "s", va) == 0 && dlite_instance_set_property(b, "s", vb) == 0, "set");
  return hash_of(a, 32, "a") == hash_of(b, 32, "b");
}

int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
