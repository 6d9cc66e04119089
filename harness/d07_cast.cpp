// flavours: asan
// D07: converting between data types preserves representable values
#include "dmodel.hpp"

typedef long double LD;
// numeric value of a number: integers exactly as __int128, floats as long double
struct Num { bool isf; __int128 i; LD f; };
static Num num(const Elem &e, Ty t) {
  Num n{false, 0, 0};
  if (t.t == dliteBool) n.i = e.b[0] != 0;
  else if (t.t == dliteInt) { int64_t v = 0; memcpy(&v, e.b.data(), t.n); if (t.n < 8 && (e.b[t.n - 1] & 0x80)) v |= (int64_t)(~0ULL << (8 * t.n)); n.i = v; }
  else if (t.t == dliteUInt) { uint64_t v = 0; memcpy(&v, e.b.data(), t.n); n.i = v; }
  else { n.isf = true; if (t.n == 8) { double d; memcpy(&d, e.b.data(), 8); n.f = d; } else { float d; memcpy(&d, e.b.data(), 4); n.f = d; } }
  if (n.isf && std::isfinite((double)n.f) && fabsl(n.f) < 1e30L && (LD)(__int128)n.f == n.f) n.i = (__int128)n.f;
  return n;
}
static bool isint(const Num &n) { return !n.isf || (std::isfinite((double)n.f) && fabsl(n.f) < 1e30L && (LD)(__int128)n.f == n.f); }
static bool isneg(const Num &n) { return n.isf ? n.f < 0 : n.i < 0; }

enum { ANY, VALUE, ERROR };
// what must come out of converting number n to numeric type t
static int expect_num(const Num &n, Ty t, Elem &out) {
  switch (t.t) {
  case dliteBool: { bool v = n.isf ? n.f != 0 : n.i != 0; out.b = S(1, (char)v); return VALUE; }
  case dliteInt: case dliteUInt: {
    if (t.t == dliteUInt && isneg(n)) return ERROR;
    if (!isint(n)) return ANY;
    __int128 lo = t.t == dliteUInt ? 0 : -((__int128)1 << (8 * t.n - 1)), hi = ((__int128)1 << (t.t == dliteUInt ? 8 * t.n : 8 * t.n - 1)) - 1;
    if (n.i < lo || n.i > hi) return ANY;
    uint64_t v = (uint64_t)n.i; out.b.assign((char *)&v, t.n); return VALUE; }
  case dliteFloat: {
    LD v = n.isf ? n.f : (LD)n.i;
    if (t.n == 8) { double d = (double)v; out.b.assign((char *)&d, 8); if (!std::isnan(d) && (std::isinf((double)v) ? !n.isf : (LD)d != v)) return ANY; if (!n.isf && (__int128)(LD)d != n.i) return ANY; return VALUE; }
    float d = (float)v; out.b.assign((char *)&d, 4); if (!std::isnan(d) && (LD)d != v) return ANY; if (!n.isf && (__int128)(LD)d != n.i) return ANY; return VALUE; }
  default: return ANY;
  }
}
static bool numeric(Ty t) { return t.t == dliteBool || t.t == dliteInt || t.t == dliteUInt || t.t == dliteFloat; }
static bool textual(Ty t) { return t.t == dliteStringPtr || t.t == dliteFixString; }
static S txt(const Elem &e) { return e.null ? "" : e.b; }

// decimal text of a number, in one of several spellings
static S spell(Gen &g, const Num &n, bool forint) {
  S s;
  if (!n.isf) {
    unsigned __int128 a = n.i < 0 ? -(unsigned __int128)n.i : n.i; do { s.insert(s.begin(), (char)('0' + (int)(a % 10))); a /= 10; } while (a);
    if (n.i < 0) s = "-" + s; else if (g.chance(1, 6)) s = "+" + s;
    if (!forint && g.chance(1, 4)) s += g.pick<S>({".0", ".", "e0", "e+00"});
  } else s = fmt("%.*Lg", 21, n.f);
  if (g.chance(1, 6)) s = g.pick<S>({" ", "\t", "  "}) + s;
  return s;
}
static bool is_number_text(const S &s, bool integer) {
  if (s.empty()) return false;
  char *e; if (integer) strtoll(s.c_str(), &e, 0); else strtold(s.c_str(), &e);
  return e != s.c_str() && !*e && strlen(s.c_str()) == s.size();
}

static void castone(Gen &g, Ty from, const Elem &v, Ty to, int want, const Elem &out, const S &what) {
  Mem a(from), b(to); a.put(0, v);
  if (g.flip() && to.t != dliteRef) b.put(0, gen_elem(g, to));
  int r = dlite_type_copy_cast(b.p, to.t, to.n, a.p, from.t, from.n); dlite_errclr();
  REQUIRE(same(a.get(0), v, from), "converting changes its source");
  if (to.t == dliteRef) { REQUIRE(r != 0, "%s is accepted", what.c_str()); return; }
  Elem got = b.get(0);
  if (want == ERROR) REQUIRE(r != 0, "%s gives %s, expected an error", what.c_str(), elemstr(got, to).c_str());
  if (want == VALUE) {
    REQUIRE(r == 0, "%s is refused", what.c_str());
    REQUIRE(same(got, out, to), "%s gives %s, expected %s", what.c_str(), elemstr(got, to).c_str(), elemstr(out, to).c_str());
  }
  g.label(want == ERROR ? "error" : want == VALUE ? "exact" : "unspecified");
}

PBT(D07, scalar, 80000, 4000000, 512, "convert a random value to a random type; non-trivial: different type or size with a specified outcome") {
  Ty from = gen_type(g, TY_META | TY_REL), to = gen_type(g, TY_META | TY_REL | TY_REF); if (g.chance(1, 12)) to = from;
  Elem v = gen_elem(g, from, g.chance(5, 6)), out; int want = ANY;
  if (textual(from) && numeric(to) && g.chance(3, 4)) {   // text that is a number
    Ty nt = g.flip() ? to : Ty{dliteInt, 8}; Elem nv = gen_elem(g, nt); Num n = num(nv, nt);
    v = Elem(spell(g, n, to.t != dliteFloat && !n.isf));
    if (from.t == dliteFixString) from.n = v.b.size() + g.range(1, 3);
  }
  g.log("%s %s -> %s", tyname(from).c_str(), elemstr(v, from).c_str(), tyname(to).c_str());
  S what = tyname(from) + " " + elemstr(v, from) + " -> " + tyname(to);
  bool sf = from.t >= dliteDimension, st = to.t >= dliteDimension;
  if (sf || st || to.t == dliteRef) {
    if (from.t == to.t) { want = VALUE; out = v; if (to.t == dliteProperty) { if (!out.f[3].null && out.f[3].b.empty()) out.f[3] = Elem::Null(); } }
    else want = ERROR;
  } else if (numeric(from) && numeric(to)) want = expect_num(num(v, from), to, out);
  else if (textual(from) && textual(to)) {
    want = VALUE; out = v;
    if (to.t == dliteFixString) { out = Elem(txt(v)); if (out.b.size() >= to.n) want = ANY; }
    if (to.t == dliteStringPtr && from.t == dliteFixString) out = Elem(v.b);
  } else if (textual(from) && numeric(to)) {
    S s = txt(v);
    if (to.t == dliteBool) { want = VALUE; out.b = S(1, (char)!s.empty()); }
    else if (!is_number_text(s, to.t != dliteFloat)) want = to.t == dliteUInt && is_number_text(s, false) ? ANY : ERROR;
    else if (to.t == dliteFloat) {
      LD x = strtold(s.c_str(), NULL);
      if (to.n == 8) { double d = (double)x; out.b.assign((char *)&d, 8); } else { float d = (float)x; out.b.assign((char *)&d, 4); }
      want = VALUE;
    } else {
      errno = 0; Num n{false, 0, 0}; long long q = strtoll(s.c_str(), NULL, 0); n.i = q;
      if (errno) { errno = 0; unsigned long long u = strtoull(s.c_str(), NULL, 0); if (errno) { want = ANY; errno = 0; goto done; } n.i = u; if (strtod(s.c_str(), NULL) < 0) { want = to.t == dliteUInt ? ERROR : ANY; goto done; } }
      want = expect_num(n, to, out);
    }
  } else if (to.t == dliteBlob && numeric(from)) { want = VALUE; out.b = v.b.substr(0, std::min(from.n, to.n)); out.b.resize(to.n); }
  else if (from.t == dliteBlob && to.t == dliteBlob) { want = VALUE; out.b = v.b.substr(0, to.n); out.b.resize(to.n); }
  else if (from.t == dliteBlob && to.t != dliteBool && numeric(to)) { want = VALUE; out.b = v.b.substr(0, to.n); out.b.resize(to.n); }
  else if (from.t == dliteBlob && to.t == dliteBool) want = ANY;
 done:
  if (want != ANY && !(from == to)) g.nontrivial();
  castone(g, from, v, to, want, out, what);
}

PBT(D07, through_text, 40000, 2000000, 512, "number -> text (string or fixed string that is long enough) -> number; non-trivial: floats and numbers with more than 6 digits") {
  Ty t = gen_type(g); if (!numeric(t)) { static const Ty alt[] = {{dliteFloat, 8}, {dliteFloat, 4}, {dliteInt, 8}, {dliteUInt, 8}}; t = alt[g.below(4)]; }
  Elem v = gen_elem(g, t, g.chance(5, 6)); bool fix = g.flip(); Ty st = fix ? Ty{dliteFixString, (size_t)g.range(1, 40)} : Ty{dliteStringPtr, sizeof(char *)};
  g.log("%s %s via %s", tyname(t).c_str(), elemstr(v, t).c_str(), tyname(st).c_str());
  Mem a(t), b(st), c(t); a.put(0, v);
  if (!fix && g.flip()) b.put(0, Elem(g.text(5)));
  REQUIRE(dlite_type_copy_cast(b.p, st.t, st.n, a.p, t.t, t.n) == 0, "%s is not converted to text", elemstr(v, t).c_str());
  Elem s = b.get(0);
  if (fix) {
    REQUIRE(memchr(b.p, 0, st.n), "fixed string is not terminated");
    Mem f(Ty{dliteStringPtr, sizeof(char *)}); dlite_type_copy_cast(f.p, dliteStringPtr, sizeof(char *), a.p, t.t, t.n);
    S full = txt(f.get(0));
    REQUIRE(s.b == full.substr(0, st.n - 1), "fixed string has %s, expected the start of %s", show(s.b).c_str(), show(full).c_str());
    if (full.size() >= st.n) { g.label("truncated"); return; }
  }
  if (t.t == dliteBool) { REQUIRE(s.b == (v.b[0] ? "true" : "false"), "bool as text is %s", show(s.b).c_str()); return; }
  if (s.b.size() > 6 || t.t == dliteFloat) g.nontrivial();
  REQUIRE(dlite_type_copy_cast(c.p, t.t, t.n, b.p, st.t, st.n) == 0, "%s is not converted back", show(s.b).c_str());
  REQUIRE(same(c.get(0), v, t), "%s as text is %s, which gives %s", elemstr(v, t).c_str(), show(s.b).c_str(), elemstr(c.get(0), t).c_str());
}

PBT(D07, ndarray, 15000, 600000, 256, "convert an n-dimensional array between layouts and types; non-trivial: two or more dimensions of size > 1 or a type change") {
  int nd = g.range(0, 4); std::vector<size_t> dims(nd); size_t N = 1;
  for (auto &d : dims) { d = g.pick<size_t>({1, 2, 3, 4, 5}); if (g.chance(1, 40)) d = 0; N *= d; }
  Ty from = gen_type(g, TY_REL), to = g.chance(1, 2) ? from : gen_type(g, TY_REL);
  if (textual(from) && numeric(to)) { to = from; }
  if ((from.t == dliteRelation) != (to.t == dliteRelation)) to = from;
  if (to.t == dliteUInt && from.t != dliteUInt && from.t != dliteBlob) to = Ty{dliteFloat, 8};
  if (from.t == dliteBlob && numeric(to)) to = from;
  std::vector<Elem> v(N), want(N); bool any = false;
  for (size_t i = 0; i < N; i++) {
    v[i] = gen_elem(g, from); Mem x(from), y(to); x.put(0, v[i]);
    if (dlite_type_copy_cast(y.p, to.t, to.n, x.p, from.t, from.n)) { any = true; dlite_errclr(); }
    want[i] = y.get(0);
  }
  if (any) throw Discard{};
  // layout: a permutation of the axes in memory, with optional negative strides
  auto layout = [&](size_t sz, std::vector<int> &str, size_t &off) {
    std::vector<int> perm(nd); for (int i = 0; i < nd; i++) perm[i] = i;
    bool plain = g.chance(1, 3); if (!plain) for (int i = nd - 1; i > 0; i--) std::swap(perm[i], perm[g.range(0, i)]);
    str.assign(nd, 0); int s = (int)sz; off = 0;
    for (int i = nd - 1; i >= 0; i--) { str[perm[i]] = s; s *= (int)dims[perm[i]]; }
    if (!plain) for (int i = 0; i < nd; i++) if (dims[i] && g.chance(1, 5)) { off += (size_t)str[i] * (dims[i] - 1); str[i] = -str[i]; }
    return plain;
  };
  std::vector<int> ss, ds; size_t so, dof; bool sp = layout(from.n, ss, so), dp = layout(to.n, ds, dof);
  g.log("%s -> %s ndims %d N %zu", tyname(from).c_str(), tyname(to).c_str(), nd, N);
  int big = 0; for (size_t d : dims) big += d > 1; if (N && (big >= 2 || !(from == to))) g.nontrivial();
  Mem a(from, N), b(to, N);
  auto at = [&](size_t k, const std::vector<int> &st, size_t off) { size_t p = off; for (int i = nd - 1; i >= 0; i--) { p += (k % dims[i]) * (size_t)st[i]; k /= dims[i]; } return p; };
  for (size_t i = 0; i < N; i++) put_elem(a.p + at(i, ss, so), from, v[i]);
  if (g.flip()) for (size_t i = 0; i < N; i++) b.put(i, gen_elem(g, to));
  const int *sarg = sp && g.flip() ? NULL : ss.data(), *darg = dp && g.flip() ? NULL : ds.data();
  int r = dlite_type_ndcast(nd, b.p + dof, to.t, to.n, nd ? dims.data() : NULL, darg, a.p + so, from.t, from.n, nd ? dims.data() : NULL, sarg, NULL);
  REQUIRE(r == 0, "refused: %s", dlite_errmsg());
  for (size_t i = 0; i < N; i++) {
    Elem got = get_elem(b.p + at(i, ds, dof), to), src = get_elem(a.p + at(i, ss, so), from);
    REQUIRE(same(got, want[i], to), "element %zu is %s, expected %s", i, elemstr(got, to).c_str(), elemstr(want[i], to).c_str());
    REQUIRE(same(src, v[i], from), "converting changes the source");
  }
  // the copy must be independent of the source
  if (allocated(from)) { a.clear(); memset(a.p, 0, N * from.n); for (size_t i = 0; i < N; i++) REQUIRE(same(get_elem(b.p + at(i, ds, dof), to), want[i], to), "copied element shares memory with its source"); }
}
static void init() { dlite_err_set_stream(NULL); }
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
