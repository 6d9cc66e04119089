// flavours: asan
// D20: dimension expressions evaluate to their arithmetic value
#include "cdlite.hpp"
extern "C" {
#include "utils/infixcalc.h"
}
#include "pbt.hpp"
#include <memory>
using namespace pbt;
typedef std::string S;

static const S OPS = "|&=!><+-*/%^";
static int prec(char c) {
  switch (c) { case '|': return 1; case '&': return 2; case '=': return 3; case '!': return 4;
    case '>': case '<': return 5; case '+': case '-': return 6; case '*': case '/': case '%': return 7; case '^': return 8; }
  return 0;
}

enum Kind { OK, BAD, SKIP };          // BAD: must be an error; SKIP: not specified (negative exponents, INT_MIN)
struct Val { Kind k; int64_t v; };

static Val apply(char op, Val a, Val b) {
  if (a.k == SKIP || b.k == SKIP) return {SKIP, 0};
  if (a.k == BAD || b.k == BAD) return {BAD, 0};
  int64_t x = a.v, y = b.v, r = 0;
  switch (op) {
  case '|': r = x || y; break;   case '&': r = x && y; break;
  case '=': r = x == y; break;   case '!': r = x != y; break;
  case '>': r = x > y; break;    case '<': r = x < y; break;
  case '+': r = x + y; break;    case '-': r = x - y; break;
  case '*': r = x * y; break;
  case '/': if (!y) return {BAD, 0}; r = x / y; break;
  case '%': if (!y) return {BAD, 0}; r = x % y; break;
  case '^': if (y < 0) return {SKIP, 0};
    if (x >= -1 && x <= 1) { r = y == 0 ? 1 : x == -1 ? (y % 2 ? -1 : 1) : x; break; }
    r = 1; for (int i = 0; i < y; i++) { r *= x; if (r > INT_MAX || r < INT_MIN) return {BAD, 0}; } break;
  }
  if (r > INT_MAX || r < INT_MIN) return {BAD, 0};
  if (r == INT_MIN) return {SKIP, 0};   // also the error value
  return {OK, r};
}

// ---- reference parser over text (precedence climbing, all left associative)
struct Parser {
  const S &s; const std::map<S, int> &vars; size_t p = 0; bool bad = false, skip = false; bool divzero = false;
  Parser(const S &s_, const std::map<S, int> &v) : s(s_), vars(v) {}
  void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
  Val primary() {
    ws();
    if (p >= s.size()) { bad = true; return {BAD, 0}; }
    if (s[p] == '(') {
      p++; Val v = expr(1); ws();
      if (bad || p >= s.size() || s[p] != ')') { bad = true; return {BAD, 0}; }
      p++; return v;
    }
    if (isdigit((unsigned char)s[p])) {
      char *e; errno = 0; long v = strtol(s.c_str() + p, &e, 0); p = e - s.c_str();
      if (errno || v > INT_MAX) { bad = true; return {BAD, 0}; }
      return {OK, v};
    }
    if (isalpha((unsigned char)s[p]) || s[p] == '_') {
      size_t q = p; while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) p++;
      auto it = vars.find(s.substr(q, p - q));
      if (it == vars.end()) { bad = true; return {BAD, 0}; }
      return {OK, it->second};
    }
    bad = true; return {BAD, 0};
  }
  Val expr(int minp) {
    Val l = primary();
    while (!bad) {
      ws();
      if (p >= s.size() || OPS.find(s[p]) == S::npos || prec(s[p]) < minp) break;
      char op = s[p++];
      Val r = expr(prec(op) + 1);
      if (bad) break;
      l = apply(op, l, r);
      if (l.k == BAD) divzero = true;
      if (l.k == SKIP) skip = true;
    }
    return l;
  }
  // well formed, ill formed, or unspecified
  Val all() {
    Val v = expr(1); ws();
    if (!bad && p < s.size()) bad = true;
    if (skip) return {SKIP, 0};            // value not specified
    if (bad || divzero) return {BAD, 0};
    return v;
  }
};

struct Env { std::map<S, int> m; std::vector<InfixCalcVariable> v; std::vector<S> names; };
static void genvars(Gen &g, Env &e, bool positive = false) {
  int n = g.range(0, 6);
  static const std::vector<S> base = {"N", "M", "N1", "N_", "nn", "K", "_", "x", "ten", "x1F", "NM"};
  for (int i = 0; i < n; i++) e.m[g.chance(1, 4) ? g.ident(8) : g.pick(base)] = positive ? g.range(0, 6) : g.pick<int>({0, 1, 2, 3, -1, 7, 10, -5, 100, 65536, INT_MAX, -INT_MAX});
  for (auto &kv : e.m) e.names.push_back(kv.first);
  for (auto &kv : e.m) e.v.push_back({kv.first.c_str(), kv.second});
  // the order of the variables must not matter
  for (size_t i = e.v.size(); i > 1; i--) std::swap(e.v[i - 1], e.v[g.below(i)]);
}

struct Ex { S s; Val v; int p; int nops; std::set<S> used; };
static S sp(Gen &g) { return g.chance(1, 4) ? S(g.range(1, 3), " \t\n"[g.below(3)]) : S(); }
static Ex leaf(Gen &g, const Env &e) {
  if (!e.names.empty() && g.flip()) { const S &n = g.pick(e.names); return {n, {OK, e.m.at(n)}, 9, 0, {n}}; }
  int v = g.weighted({6, 2, 1}) == 0 ? g.range(0, 12) : g.pick<int>({0, 1, 255, 1000, 46341, 65535, 65536, INT_MAX, 99999});
  switch (g.weighted({8, 1, 1})) {
  case 0: return {fmt("%d", v), {OK, v}, 9, 0, {}};
  case 1: return {fmt("0x%x", v), {OK, v}, 9, 0, {}};
  default: return {fmt("0X%X", v), {OK, v}, 9, 0, {}};
  }
}
// expression whose value is specified, or (allowbad) a division by zero
static Ex gen(Gen &g, const Env &e, int depth, bool allowbad) {
  if (depth == 0 || g.chance(1, 4)) return leaf(g, e);
  for (int tries = 0; tries < 3; tries++) {
    Ex a = gen(g, e, depth - 1, allowbad), b = gen(g, e, depth - 1, allowbad);
    char op = OPS[g.below(OPS.size())];
    Val v = apply(op, a.v, b.v);
    if (v.k == SKIP || (v.k == BAD && !allowbad)) continue;
    int pr = prec(op);
    S l = a.s, r = b.s;
    if (a.p < pr || g.chance(1, 8)) l = "(" + sp(g) + l + sp(g) + ")";
    if (b.p <= pr || g.chance(1, 8)) r = "(" + sp(g) + r + sp(g) + ")";
    Ex x{l + sp(g) + op + sp(g) + r, v, pr, a.nops + b.nops + 1, a.used};
    x.used.insert(b.used.begin(), b.used.end());
    return x;
  }
  return leaf(g, e);
}

struct ErrBuf {    // exactly sized: any overrun is seen by ASan
  char *p; size_t n;
  ErrBuf(size_t n_) : n(n_) { p = (char *)malloc(n ? n : 1); memset(p, 0x7f, n ? n : 1); }
  ~ErrBuf() { free(p); }
};

static void check(Gen &g, const S &s, const Env &e, Val want) {
  char *ex = strdup(s.c_str());
  const InfixCalcVariable *vars = e.v.empty() ? NULL : e.v.data();
  {
    ErrBuf b(512 + s.size());
    int r = infixcalc(ex, vars, e.v.size(), b.p, b.n);
    REQUIRE(memchr(b.p, 0, b.n), "message is not terminated");
    if (want.k == BAD) {
      REQUIRE(r == INT_MIN, "ill-formed expression %s gives %d", show(s).c_str(), r);
      REQUIRE(b.p[0], "no message for ill-formed expression %s", show(s).c_str());
    } else {
      REQUIRE(!b.p[0], "error for well-formed expression %s: %s", show(s).c_str(), b.p);
      REQUIRE(r == want.v, "%s = %d, expected %lld", show(s).c_str(), r, (long long)want.v);
    }
  }
  {
    ErrBuf b(g.range(0, 70));
    int r = infixcalc(ex, vars, e.v.size(), b.p, b.n);
    if (b.n) REQUIRE(memchr(b.p, 0, b.n), "message is not terminated in a buffer of %zu", b.n);
    REQUIRE(r == (want.k == BAD ? INT_MIN : (int)want.v), "result depends on the size of the message buffer");
    if (b.n > 1) REQUIRE(!!b.p[0] == (want.k == BAD), "error flag depends on the size of the message buffer (%zu)", b.n);
  }
  {
    int r = infixcalc(ex, vars, e.v.size(), NULL, 0);
    REQUIRE(r == (want.k == BAD ? INT_MIN : (int)want.v), "result depends on whether a message is asked for");
  }
  REQUIRE(s == ex, "expression was changed");
  free(ex);
}

PBT(D20, value, 96000, 1500000, 256, "random expression over <=6 variables printed with minimal and redundant parentheses and blanks, value from the syntax tree; non-trivial: at least two operators") {
  Env e; genvars(g, e);
  Ex x = gen(g, e, g.range(1, 6), false);
  S s = sp(g) + x.s + sp(g);
  g.log("expr %s", show(s).c_str()); for (auto &kv : e.m) g.log("  %s = %d", kv.first.c_str(), kv.second);
  g.label(fmt("ops %s", x.nops == 0 ? "0" : x.nops == 1 ? "1" : x.nops < 8 ? "2-7" : "8+"));
  if (x.nops >= 2) g.nontrivial();
  Parser P(s, e.m); Val w = P.all();
  if (w.k != OK || w.v != x.v.v) fail("harness: reference parser disagrees with the syntax tree on %s", show(s).c_str());
  check(g, s, e, x.v);
}

PBT(D20, rejects, 96000, 1500000, 256, "well-formed expressions with token-level mutations, division by zero, and random token soup, judged by a reference parser; non-trivial: rejected by the reference parser") {
  Env e; genvars(g, e);
  S s;
  if (g.chance(2, 3)) {
    s = sp(g) + gen(g, e, g.range(0, 4), g.flip()).s + sp(g);
    int k = g.range(0, 3);
    for (int i = 0; i < k; i++) {
      size_t at = g.below(s.size() + 1);
      switch (g.below(4)) {
      case 0: if (at < s.size()) s.erase(at, 1); break;
      case 1: s.insert(at, 1, "()()+-*/%^=!<>|&"[g.below(16)]); break;
      case 2: s.insert(at, g.pick<S>({" ", "1", "N", "zz", "?", ".", "$", "\"", "0x", " 3 ", "==", "\xc3\xa5", "#"})); break;
      default: if (s.size() > 1) { size_t b2 = g.below(s.size()); if (at < s.size()) std::swap(s[at], s[b2]); }
      }
    }
  } else {
    int n = g.range(0, 9);
    for (int i = 0; i < n; i++) {
      S t = g.pick<S>({"1", "2", "0", "10", "N", "M", "unknown", "(", ")", "(", ")", "+", "-", "*", "/", "%", "^", "=", "!", "<", ">", "|", "&", ",", ".", "~"});
      s += t + (g.flip() ? " " : "");
    }
  }
  Parser P(s, e.m); Val w = P.all();
  g.log("expr %s", show(s).c_str()); for (auto &kv : e.m) g.log("  %s = %d", kv.first.c_str(), kv.second);
  if (w.k == SKIP) { g.label("overflow (skipped)"); return; }
  g.label(w.k == BAD ? (P.divzero && !P.bad ? "division by zero" : "ill-formed") : "well-formed");
  if (w.k == BAD) g.nontrivial();
  check(g, s, e, w);
}

PBT(D20, depend, 48000, 600000, 256, "expression and a variable name, used or not, or a prefix/suffix/extension of a used one; non-trivial: expression with variables") {
  Env e; genvars(g, e);
  Ex x = gen(g, e, g.range(0, 5), false);
  S name;
  if (!x.used.empty() && g.chance(2, 3)) {
    std::vector<S> u(x.used.begin(), x.used.end()); name = g.pick(u);
    switch (g.below(5)) {
    case 1: name += g.pick<S>({"1", "_", "a"}); break;
    case 2: name = "N" + name; break;
    case 3: name = name.substr(0, std::max<size_t>(1, name.size() - 1)); break;
    case 4: if (name.size() > 1 && !isdigit(name[1])) name = name.substr(1); break;
    }
  } else name = g.chance(1, 2) && !e.names.empty() ? g.pick(e.names) : g.ident(3);
  g.log("expr %s name %s", show(x.s).c_str(), name.c_str());
  if (!x.used.empty()) g.nontrivial();
  bool want = x.used.count(name); g.label(want ? "used" : "not used");
  bool got = infixcalc_depend(x.s.c_str(), name.c_str()) != 0;
  REQUIRE(got == want, "infixcalc_depend(%s, %s) = %d", show(x.s).c_str(), name.c_str(), got);
}

PBT(D20, shapes, 24000, 200000, 64, "metadata whose property shapes are generated expressions of its dimensions, instance created with generated sizes; non-trivial: a shape with at least one operator and one variable") {
  // dimension names and sizes
  Env e; int nd = g.range(1, 5);
  std::vector<S> dn; std::vector<size_t> ds;
  static const std::vector<S> names = {"N", "M", "N1", "nn", "K", "L_", "NM"};
  for (int i = 0; i < nd; i++) { dn.push_back(names[i]); ds.push_back(g.range(0, 6)); }
  for (int i = 0; i < nd; i++) { e.m[dn[i]] = (int)ds[i]; e.names.push_back(dn[i]); }
  int np = g.range(1, 3);
  DLiteDimension *dims = NULL; std::vector<DLiteProperty *> props;
  std::vector<DLiteDimension> dv;
  for (auto &n : dn) { DLiteDimension d; memset(&d, 0, sizeof d); d.name = strdup(n.c_str()); d.description = strdup("a dimension"); dv.push_back(d); }
  std::vector<DLiteProperty> pv; std::vector<std::vector<Val>> want; bool bad = false; bool nt = false;
  for (int i = 0; i < np; i++) {
    DLiteProperty *p = dlite_property_create(fmt("p%d", i).c_str(), dliteInt, 4, NULL, "a property");
    int n = g.range(1, 3); std::vector<Val> w;
    for (int k = 0; k < n; k++) {
      S s; Val v;
      for (;;) {
        Ex x = gen(g, e, g.range(0, 3), g.chance(1, 6)); s = x.s;
        if (g.chance(1, 30)) s += g.pick<S>({" +", ")", " 2", "+ unknown"});
        Parser P(s, e.m); v = P.all();
        if (v.k == SKIP) continue;
        if (v.k == OK && v.v < 0 && g.chance(1, 4)) { v.k = BAD; g.label("negative size"); }
        if (v.k == OK && (v.v < 0 || v.v > 40)) { s = "(" + s + ") % 7 * 0 + 3"; Parser Q(s, e.m); v = Q.all(); if (v.k == SKIP) continue; }
        if (x.nops && !x.used.empty()) nt = true;
        break;
      }
      g.log("p%d dim %d: %s -> %s", i, k, show(s).c_str(), v.k == BAD ? "error" : fmt("%lld", (long long)v.v).c_str());
      if (v.k == BAD) bad = true;
      w.push_back(v); dlite_property_add_dim(p, s.c_str());
    }
    want.push_back(w); props.push_back(p); pv.push_back(*p);
  }
  for (int i = 0; i < nd; i++) g.log("%s = %zu", dn[i].c_str(), ds[i]);
  if (nt) g.nontrivial();
  g.label(bad ? "error in a shape" : "valid shapes");
  S uri = fmt("http://onto-ns.com/meta/0.1/Shapes%zu", g.casenum);
  DLiteMeta *m = dlite_meta_create(uri.c_str(), "desc", nd, dv.data(), np, pv.data());
  REQUIRE(m, "cannot create metadata");
  dlite_err_set_stream(NULL);
  DLiteInstance *inst = dlite_instance_create(m, ds.data(), NULL);
  if (bad) REQUIRE(!inst, "instance was created although a shape expression is in error");
  else {
    REQUIRE(inst, "instance could not be created");
    for (int i = 0; i < np; i++) {
      REQUIRE(dlite_instance_get_property_ndims_by_index(inst, i) == (int)want[i].size(), "rank of p%d", i);
      for (size_t k = 0; k < want[i].size(); k++) {
        size_t *sh = dlite_instance_get_property_dims_by_index(inst, i); REQUIRE(sh, "no shape"); int n = (int)sh[k]; free(sh);
        REQUIRE(n == want[i][k].v, "p%d dimension %zu is %d, expected %lld", i, k, n, (long long)want[i][k].v);
      }
    }
    dlite_instance_decref(inst);
  }
  dlite_errclr();
  dlite_meta_decref(m);
  for (auto p : props) { dlite_property_free(p); }
  for (auto &d : dv) { free(d.name); free(d.description); }
  (void)dims;
}
PBT_MAIN
