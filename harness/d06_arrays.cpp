// flavours: asan
// D06: array views and memory orders address the right elements
#include "world.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" {
#include "dlite-arrays.h"
}

// a view as the list of the elements it shows, in row-major order
struct View { std::vector<size_t> shape; std::vector<int> el; };
static size_t prod(const std::vector<size_t> &s) { size_t n = 1; for (size_t x : s) n *= x; return n; }
static std::vector<size_t> unravel(size_t k, const std::vector<size_t> &s) {
  std::vector<size_t> ix(s.size()); for (int i = (int)s.size() - 1; i >= 0; i--) { ix[i] = k % s[i]; k /= s[i]; } return ix;
}
static size_t ravel(const std::vector<size_t> &ix, const std::vector<size_t> &s) { size_t k = 0; for (size_t i = 0; i < s.size(); i++) k = k * s[i] + ix[i]; return k; }
static View transposed(const View &v) {
  View r; r.shape.assign(v.shape.rbegin(), v.shape.rend());
  for (size_t k = 0; k < v.el.size(); k++) { auto ix = unravel(k, r.shape); std::reverse(ix.begin(), ix.end()); r.el.push_back(v.el[ravel(ix, v.shape)]); }
  return r;
}
static View sliced(const View &v, const std::vector<std::vector<size_t>> &ax) {
  View r; for (auto &a : ax) r.shape.push_back(a.size());
  size_t n = prod(r.shape);
  for (size_t k = 0; k < n; k++) { auto ix = unravel(k, r.shape); for (size_t i = 0; i < ix.size(); i++) ix[i] = ax[i][ix[i]]; r.el.push_back(v.el[ravel(ix, v.shape)]); }
  return r;
}
// the indices start, stop and step select from an axis of the given length
static std::vector<size_t> axis(long len, bool hs, long s, bool he, long e, long d) {
  std::vector<size_t> r;
  if (!hs) s = d > 0 ? 0 : len; else if (s < 0) s += len;
  if (!he) e = d > 0 ? len : 0; else if (e < 0) e += len;
  if (d > 0) for (long i = s < 0 ? 0 : s; i < e && i < len; i += d) r.push_back(i);
  else for (long i = (s > len ? len : s) - 1; i >= e && i >= 0; i += d) r.push_back(i);
  return r;
}
static S shp(const std::vector<size_t> &s) { S r = "["; for (size_t x : s) r += fmt("%zu ", x); return r + "]"; }

struct Base { Ty t; size_t n; char *p; Base(Ty t_, size_t n_) : t(t_), n(n_), p((char *)malloc(n_ * t_.n ? n_ * t_.n : 1)) {} ~Base() { free(p); } Base(const Base &) = delete;
  void fill() { for (size_t k = 0; k < n; k++) for (size_t b = 0; b < t.n; b++) p[k * t.n + b] = (char)(b == 0 ? k : b == 1 ? k >> 8 : 0); } };

static void check_view(DLiteArray *a, const View &v, Base &b, const char *when) {
  size_t N = v.el.size(), nd = v.shape.size(), sz = b.t.n;
  REQUIRE(a->ndims == (int)nd && a->type == b.t.t && a->size == sz, "%s: %d dimensions of elements of size %zu, expected %zu of size %zu", when, a->ndims, a->size, nd, sz);
  for (size_t i = 0; i < nd; i++) if (a->shape[i] != v.shape[i]) fail("%s: shape is %s, expected %s", when, shp(std::vector<size_t>(a->shape, a->shape + nd)).c_str(), shp(v.shape).c_str());
  auto no = [&](void *q) { long d = (char *)q - b.p; return d < 0 || d % (long)sz || d >= (long)(b.n * sz) ? fmt("outside (byte %ld)", d) : fmt("%ld", d / (long)sz); };
  for (size_t k = 0; k < N; k++) {
    auto ix = unravel(k, v.shape); std::vector<int> ii(ix.begin(), ix.end()); ii.push_back(0);
    void *q = dlite_array_index(a, ii.data());
    REQUIRE(q == b.p + v.el[k] * sz, "%s: element %s is number %s, expected %d", when, shp(ix).c_str(), no(q).c_str(), v.el[k]);
    if (nd <= 4) { void *r = nd == 0 ? dlite_array_vindex(a) : nd == 1 ? dlite_array_vindex(a, ii[0]) : nd == 2 ? dlite_array_vindex(a, ii[0], ii[1]) : nd == 3 ? dlite_array_vindex(a, ii[0], ii[1], ii[2]) : dlite_array_vindex(a, ii[0], ii[1], ii[2], ii[3]);
      REQUIRE(r == q, "%s: dlite_array_vindex() at %s gives number %s", when, shp(ix).c_str(), no(r).c_str()); }
  }
  DLiteArrayIter it; REQUIRE(!dlite_array_iter_init(&it, a), "%s: iterator", when);
  for (size_t k = 0; k < N; k++) { void *q = dlite_array_iter_next(&it); REQUIRE(q == b.p + v.el[k] * sz, "%s: iteration gives %s at position %zu of %zu, expected number %d", when, q ? no(q).c_str() : "nothing", k, N, v.el[k]); }
  for (int k = 0; k < 3; k++) REQUIRE(!dlite_array_iter_next(&it), "%s: iteration continues after all %zu elements", when, N);
  dlite_array_iter_deinit(&it);
  bool cons = true; for (size_t k = 1; k < N; k++) if (v.el[k] != v.el[0] + (int)k) cons = false;
  if (!cons) REQUIRE(!dlite_array_is_continuous(a), "%s: view of scattered elements is reported continuous", when);
}

PBT(D06, views, 30000, 900000, 256, "views made by chains of slices, transposes and reshapes of arrays of all ranks; non-trivial: a view of at least 2 elements made with a slice with negative or open bounds or a step") {
  size_t before = __sanitizer_get_current_allocated_bytes();
  { Ty t = g.pick<Ty>({{dliteInt, 4}, {dliteInt, 2}, {dliteUInt, 8}, {dliteBlob, 3}, {dliteInt, 8}, {dliteFloat, 8}});
  int nd = g.pick<int>({2, 1, 3, 2, 4, 0, 1}); View v; for (int i = 0; i < nd; i++) v.shape.push_back(g.chance(1, 25) ? 0 : g.pick<size_t>({3, 2, 4, 1, 5, 6, 7}));
  size_t N = prod(v.shape); if (N > 900) throw Discard{};
  for (size_t k = 0; k < N; k++) v.el.push_back((int)k);
  Base b(t, N); b.fill();
  int order = g.pick<int>({'C', 'C', 'F', 'C'});
  g.log("%s array of shape %s order %c", tyname(t).c_str(), shp(v.shape).c_str(), order);
  DLiteArray *a = order == 'C' && g.flip() ? dlite_array_create(b.p, t.t, t.n, nd, v.shape.data()) : dlite_array_create_order(b.p, t.t, t.n, nd, v.shape.data(), order);
  REQUIRE(a, "no array");
  if (order == 'F') v = transposed(v);
  bool plain = order == 'C' || nd < 2;   // C-continuous for certain
  check_view(a, v, b, "new array");
  if (plain) REQUIRE(dlite_array_is_continuous(a), "new array is not continuous");
  REQUIRE(dlite_array_size(a) == N * t.n, "size of an array of %zu elements of %zu bytes is %zu", N, t.n, dlite_array_size(a));
  if (g.chance(1, 30)) { REQUIRE(!dlite_array_create_order(b.p, t.t, t.n, nd, v.shape.data(), 'A'), "order 'A' accepted"); REQUIRE(take_error(), "no error for invalid order"); }
  int nops = g.range(1, 4); bool interesting = false;
  for (int op = 0; op < nops; op++) {
    DLiteArray *n = NULL; nd = (int)v.shape.size();
    switch (g.pick<int>({0, 0, 0, 1, 2, 3})) {
    case 0: {
      bool hs = g.chance(3, 4), he = g.chance(3, 4), hd = g.chance(3, 4), bad = false; std::vector<int> s(nd + 1), e(nd + 1), d(nd + 1); std::vector<std::vector<size_t>> ax; S txt;
      for (int i = 0; i < nd; i++) {
        int L = (int)v.shape[i];
        auto bound = [&] { return g.chance(1, 12) ? g.pick<int>({INT_MAX, INT_MIN + 1, 100, -100}) : g.range(-L - 1, L + 1); };
        s[i] = bound(); e[i] = bound();
        d[i] = g.chance(1, 60) ? 0 : g.flip() ? 1 : g.pick<int>({-1, 2, -2, 3, -3, 4, -5, 9});
        txt += fmt("%s:%s:%s ", hs ? fmt("%d", s[i]).c_str() : "", he ? fmt("%d", e[i]).c_str() : "", hd ? fmt("%d", d[i]).c_str() : "");
        if (hd && !d[i]) bad = true; else ax.push_back(axis(L, hs, s[i], he, e[i], hd ? d[i] : 1));
        if ((hs && s[i] < 0) || (he && e[i] < 0) || (hd && d[i] != 1) || hs != he) interesting = true;
      }
      g.log("slice %s", txt.c_str());
      n = dlite_array_slice(a, hs ? s.data() : NULL, he ? e.data() : NULL, hd ? d.data() : NULL);
      if (bad) { REQUIRE(!n && take_error(), "slice with step zero accepted"); continue; }
      REQUIRE(n, "slice %s refused: %s", txt.c_str(), dlite_errmsg());
      bool full = true; for (int i = 0; i < nd; i++) if (ax[i].size() != v.shape[i] || (hd && d[i] != 1)) full = false;
      v = sliced(v, ax); g.label("slice"); plain = plain && full; break; }
    case 1: n = dlite_array_transpose(a); REQUIRE(n, "no transpose"); v = transposed(v); g.log("transpose"); g.label("transpose"); { int big = 0; for (size_t x : v.shape) big += x != 1; if (v.shape.size() > 1 && big) plain = false; if (v.shape.size() > 1) plain = false; } break;
    case 2: {
      std::vector<size_t> ns; size_t left = v.el.size();
      if (g.chance(1, 8)) { ns = v.shape; ns.push_back(g.range(2, 4)); }
      else if (!left) { ns = v.shape; std::reverse(ns.begin(), ns.end()); }
      else { while (left > 1 && ns.size() < 4) { std::vector<size_t> f; for (size_t x = 1; x <= left; x++) if (left % x == 0) f.push_back(x); size_t x = f[g.below(f.size())]; ns.push_back(x); left /= x; } if (left > 1) ns.push_back(left); if (ns.size() > 4) ns.assign(1, v.el.size()); if (ns.empty() || g.chance(1, 8)) ns.insert(ns.begin(), 1); if (ns.size() > 4) ns.resize(1), ns[0] = v.el.size(); }
      n = dlite_array_reshape(a, (int)ns.size(), ns.data());
      g.log("reshape %s -> %s", shp(ns).c_str(), n ? "ok" : "refused");
      bool fits = prod(ns) == v.el.size();
      if (!fits) { REQUIRE(!n, "reshape of %zu elements to %s accepted", v.el.size(), shp(ns).c_str()); REQUIRE(take_error(), "no error"); g.label("reshape refused"); continue; }
      if (plain) REQUIRE(n, "reshape of a continuous array from %s to %s refused", shp(v.shape).c_str(), shp(ns).c_str());
      if (!n) { REQUIRE(take_error(), "reshape refused without error"); g.label("reshape refused"); continue; }
      v.shape = ns; g.label("reshape"); break; }
    default: {  // a continuous copy of the same view
      n = dlite_array_slice(a, NULL, NULL, NULL); REQUIRE(n, "no full slice");
      if (!plain && dlite_array_is_continuous(a) && v.el.empty()) {}
      char *c = (char *)dlite_array_make_continuous(n); REQUIRE(c, "no continuous copy");
      g.log("make_continuous");
      REQUIRE(n->data == c, "array does not refer to its continuous copy"); REQUIRE(dlite_array_is_continuous(n), "copy is not continuous");
      for (size_t k = 0; k < v.el.size(); k++) {
        REQUIRE(!memcmp(c + k * t.n, b.p + v.el[k] * t.n, t.n), "element %zu of the continuous copy differs", k);
        auto ix = unravel(k, v.shape); std::vector<int> ii(ix.begin(), ix.end()); ii.push_back(0); REQUIRE(dlite_array_index(n, ii.data()) == c + k * t.n, "index into the continuous copy"); }
      free(c); dlite_array_free(n); g.label("continuous copy"); check_view(a, v, b, "after continuous copy"); continue; }
    }
    check_view(n, v, b, "view"); dlite_array_free(a); a = n;
    if (v.el.size() >= 2 && interesting) g.nontrivial();
  }
  // equality of two such views of different memory
  Base b2(t, b.n); b2.fill(); DLiteArray *a2 = dlite_array_slice(a, NULL, NULL, NULL); REQUIRE(a2, "slice");
  a2->data = b2.p + ((char *)a->data - b.p);
  REQUIRE(dlite_array_compare(a, a) == 1 && dlite_array_compare(a, a2) == 1 && dlite_array_compare(a2, a) == 1, "equal arrays compare different");
  std::set<int> in(v.el.begin(), v.el.end());
  if (b.n) {
    int k = (int)g.below(b.n); b2.p[k * t.n + g.below(t.n)] ^= (char)(1 << g.below(8));
    REQUIRE(dlite_array_compare(a, a2) == !in.count(k) && dlite_array_compare(a2, a) == !in.count(k), "arrays %s in element %d compare %s", in.count(k) ? "differing" : "equal, but with different memory outside the view", k, in.count(k) ? "equal" : "different");
    b2.fill();
  }
  if (a->ndims) { a2->shape[g.below(a2->ndims)]++; REQUIRE(!dlite_array_compare(a, a2), "arrays of different shape compare equal"); }
  dlite_array_free(a2);
  // printing shows the elements in order
  if (t.t != dliteBlob && t.t != dliteFloat && a->ndims) {
    char *txt = NULL; size_t len = 0; FILE *fp = open_memstream(&txt, &len);
    int r = dlite_array_printf(fp, a, g.pick<int>({-1, 0, 2}), -1); fclose(fp);
    S s(txt ? txt : "", len); free(txt); REQUIRE(r == 0, "printing failed");
    std::vector<long> got; int depth = 0, maxd = 0; S tok;
    for (char c : s + " ") { if (c == '[') { depth++; if (depth > maxd) maxd = depth; } if (isdigit((unsigned char)c) || c == '-') { REQUIRE(depth == a->ndims, "element printed at depth %d of %d in %s", depth, a->ndims, show(s).c_str()); tok += c; } else if (tok.size()) { got.push_back(atol(tok.c_str())); tok = ""; } if (c == ']') depth--; REQUIRE(depth >= 0, "unbalanced brackets"); }
    REQUIRE(depth == 0, "unbalanced brackets: %s", show(s).c_str());
    REQUIRE(got.size() == v.el.size(), "%zu elements printed of %zu: %s", got.size(), v.el.size(), show(s).c_str());
    for (size_t k = 0; k < got.size(); k++) REQUIRE(got[k] == v.el[k], "printed %ld at position %zu, expected %d", got[k], k, v.el[k]);
    g.label("printed");
  }
  dlite_array_free(a); }
  size_t after = __sanitizer_get_current_allocated_bytes(); REQUIRE(after == before, "%zd bytes leaked", (ssize_t)(after - before));
}

// strings of any length are printed whole
PBT(D06, print_text, 3000, 60000, 100, "printing arrays of strings; non-trivial: a string longer than 60 characters") {
  int n = g.range(0, 4), m = g.range(1, 3); size_t shape[] = {(size_t)n, (size_t)m}; std::vector<char *> d; std::vector<S> v;
  for (int i = 0; i < n * m; i++) { v.push_back(g.ident(g.pick<int>({5, 60, 150}))); d.push_back(strdup(v.back().c_str())); if (v.back().size() > 60) g.nontrivial(); }
  d.push_back(NULL); bool one = g.flip(); size_t shape1[] = {(size_t)(n * m)};
  DLiteArray *a = dlite_array_create(d.data(), dliteStringPtr, sizeof(char *), one ? 1 : 2, one ? shape1 : shape); REQUIRE(a, "no array");
  g.log("%d x %d strings", n, m);
  char *txt = NULL; size_t len = 0; FILE *fp = open_memstream(&txt, &len); int r = dlite_array_printf(fp, a, -1, -1); fclose(fp);
  S s(txt ? txt : "", len); free(txt); dlite_array_free(a); for (char *q : d) free(q);
  REQUIRE(r == 0, "printing failed");
  std::vector<S> got; S tok; for (char c : s + " ") if (isalnum((unsigned char)c) || c == '_') tok += c; else if (tok.size()) { got.push_back(tok); tok = ""; }
  REQUIRE(got == v, "printed %s", show(s).c_str());
}

PBT(D06, orders, 6000, 120000, 40, "properties copied to and assigned from buffers in both orders; non-trivial: an asymmetric array with two or more dimensions of size > 1 in column-major order") {
  World w(g); MetaOpt o; o.types = TY_REF | TY_REL; o.maxprops = g.pick<int>({3, 6}); w.init(1, o);
  InstM *x = w.create(0, gen_dims(g, *w.metas[0], 5)); if (!x || x->m->props.empty()) { w.finish(); return; }
  for (size_t j = 0; j < x->m->props.size(); j++) if (g.flip()) w.set_random(*x, j);
  int nops = g.size(12);
  for (int k = 0; k < nops; k++) {
    size_t j = g.below(x->m->props.size()); const PropM &p = x->m->props[j]; std::vector<size_t> sh; shape_of(*x->m, j, x->dims, sh); size_t N = nelem(sh);
    int order = g.pick<int>({'F', 'C', 'F'}); bool byname = g.flip();
    View f; f.shape = sh; for (size_t i = 0; i < N; i++) f.el.push_back((int)i);
    View ft = transposed(f);          // ft.el[m] = element stored at position m in column-major order
    auto pos = [&](size_t m) { return order == 'F' ? (size_t)ft.el[m] : m; };
    if (order == 'F' && N) { int big = 0; for (size_t s : sh) big += s > 1; if (big >= 2) g.nontrivial(); }
    g.log("property %zu %s %s shape %s order %c", j, p.name.c_str(), tyname(p.t).c_str(), shp(sh).c_str(), order);
    switch (g.below(4)) {
    case 0: {
      Mem b(p.t, N);
      if (p.t.t != dliteRef && g.flip()) for (size_t m = 0; m < N; m++) b.put(m, gen_value(g, p.t));
      int r = byname ? dlite_instance_copy_property(x->inst, p.name.c_str(), order, b.p) : dlite_instance_copy_property_by_index(x->inst, (int)j, order, b.p);
      REQUIRE(r == 0, "copying failed: %s", dlite_errmsg());
      for (size_t m = 0; m < N; m++) REQUIRE(same(b.get(m), x->vals[j][pos(m)], p.t), "position %zu in order %c holds %s, expected element %zu = %s", m, order, elemstr(b.get(m), p.t).c_str(), pos(m), elemstr(x->vals[j][pos(m)], p.t).c_str());
      w.check("after copying a property");
      // and back: changes nothing
      r = dlite_instance_assign_property(x->inst, p.name.c_str(), order, b.p); REQUIRE(r == 0, "assigning failed: %s", dlite_errmsg());
      w.check("after copying a property and assigning it again");
      if (p.t.t == dliteRef) for (size_t m = 0; m < N; m++) dlite_type_clear(b.at(m), p.t.t, p.t.n);
      g.label("copy"); break; }
    case 1: {
      auto v = w.gen_prop_value(*x, j); PropBuf b = w.buf(*x, j, v);
      int r = dlite_instance_assign_property(x->inst, p.name.c_str(), order, b.p); REQUIRE(r == 0, "assigning failed: %s", dlite_errmsg());
      for (size_t m = 0; m < N; m++) { x->vals[j][pos(m)] = v[m]; REQUIRE(same(b.get(m), v[m], p.t), "assigning changed the caller's buffer"); }
      w.check("after assigning a property"); g.label("assign"); break; }
    case 2: {  // a view of the property
      DLiteArray *a = byname ? dlite_instance_get_property_array(x->inst, p.name.c_str(), order) : dlite_instance_get_property_array_by_index(x->inst, j, order);
      REQUIRE(a, "no array");
      char *q = (char *)dlite_instance_get_property_by_index(x->inst, j);
      View e = f; if (e.shape.empty()) e.shape = {1}; if (order == 'F') e = transposed(e);
      REQUIRE(a->ndims == (int)e.shape.size() && a->type == p.t.t && a->size == p.t.n && a->data == q, "wrong array");
      for (size_t i = 0; i < e.shape.size(); i++) REQUIRE(a->shape[i] == e.shape[i], "shape[%zu] of order %c is %zu, expected %zu", i, order, a->shape[i], e.shape[i]);
      for (size_t m = 0; m < N; m++) { auto ix = unravel(m, e.shape); std::vector<int> ii(ix.begin(), ix.end()); ii.push_back(0); REQUIRE(dlite_array_index(a, ii.data()) == q + e.el[m] * p.t.n, "element %s", shp(ix).c_str()); }
      dlite_array_free(a); g.label("view"); break; }
    default: {
      Mem b(p.t, N);
      if (!sh.empty()) { REQUIRE(dlite_instance_copy_property(x->inst, p.name.c_str(), 'X', b.p) != 0 && take_error(), "order 'X' accepted"); REQUIRE(dlite_instance_assign_property(x->inst, p.name.c_str(), 'X', b.p) != 0 && take_error(), "order 'X' accepted"); w.check("after refused order"); } }
    }
  }
  w.finish();
}
static void init() { dlite_err_set_stream(NULL); }
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
