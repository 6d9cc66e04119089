// flavours: asan
// D23: templates and generated code reflect the definition exactly
#define HAVE___VA_ARGS__
#define HAVE___FUNC__
#include "cdlite.hpp"
extern "C" {
#include "utils/compat.h"
#include "utils/err.h"
#include "utils/map.h"
#define template template_
#include "utils/tgen.h"
#include "dlite-codegen.h"
#undef template
}
#include "pbt.hpp"
#include "dmodel.hpp"
#include "world.hpp"
#include <memory>
#include <sys/stat.h>
using namespace pbt;
typedef std::string S;
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

struct Exact {   // a string whose last byte is the last byte of its allocation (no terminator)
  char *p; size_t n;
  Exact(const S &s) : n(s.size()) { p = (char *)malloc(n ? n : 1); memcpy(p, s.data(), n); }
  ~Exact() { free(p); }
};

// ---------------------------------------------------------------- reference for cases and formats
static bool isblank_(char c) { return c && strchr(" \f\n\r\t\v", c); }
static bool issep(char c) { return c && strchr(" _-\f\n\r\t\v", c); }
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static char lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool isU(char c) { return c >= 'A' && c <= 'Z'; }
static bool isL(char c) { return c >= 'a' && c <= 'z'; }
static bool isA(char c) { return isU(c) || isL(c); }
static bool isN(char c) { return isA(c) || (c >= '0' && c <= '9'); }
static S strip(const S &s) {
  size_t a = 0, b = s.size();
  while (a < b && isblank_(s[a])) a++;
  while (b > a && isblank_(s[b - 1])) b--;
  return s.substr(a, b - a);
}
// returns false if the conversion is an error
static bool ref_case(const S &s, char mode, S &r) {
  r = "";
  switch (mode) {
  case 's': r = s; return true;
  case 'c': for (char c : s) r += lo(c); return true;
  case 'C': for (char c : s) r += up(c); return true;
  case 'T': for (size_t i = 0; i < s.size(); i++) r += i ? lo(s[i]) : up(s[i]); return true;
  case 'i': case 'I': {
    S t = strip(s); bool strict = mode == 'I';
    if (t.empty() || !(t[0] == '_' || isA(t[0]))) { if (strict) return false; r = "_"; } else r = S(1, t[0]);
    for (size_t i = 1; i < t.size(); i++) {
      if (t[i] == '_' || isN(t[i])) r += t[i];
      else if (!strict || t[i] == '-' || isblank_(t[i])) r += '_';
      else return false;
    }
    return true; }
  case 'u': case 'U': { // words are separated by blanks, hyphens, underscores or start with a capital
    int prev = 0;
    for (char c : strip(s)) {
      int m = issep(c) ? 0 : isU(c) ? 2 : 1;
      if (prev && m != 1) r += '_';
      if (m) r += mode == 'U' ? up(c) : lo(c);
      prev = m;
    }
    return true; }
  case 'm': case 'M': { // separators are removed, letters after separators and other characters become capital
    S t = s; size_t a = 0; while (a < t.size() && isblank_(t[a])) a++;
    bool start = true;
    for (size_t i = a; i < t.size(); i++) {
      char c = t[i];
      if (r.empty()) { r += mode == 'M' ? up(c) : lo(c); start = !isA(c); continue; }
      if (issep(c)) { start = true; continue; }
      r += start ? up(c) : c; start = !isA(c);
    }
    return true; }
  }
  return false;
}
static S ref_fmt(bool left, int width, int prec, const S &v) {
  S t = prec >= 0 && (int)v.size() > prec ? v.substr(0, prec) : v;
  while ((int)t.size() < width) { if (left) t += ' '; else t.insert(0, " "); }
  return t;
}
// escape sequences in template text
static S ref_unescape(const S &s) {
  S r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\') { r += s[i]; continue; }
    if (++i >= s.size()) { r += '\\'; break; }
    switch (s[i]) {
    case 'a': r += '\a'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break;
    case 'r': r += '\r'; break; case 't': r += '\t'; break; case 'v': r += '\v'; break;
    case '.': case '\n': break;
    case '\r': if (i + 1 < s.size() && s[i + 1] == '\n') i++; break;
    default: r += s[i];
    }
  }
  return r;
}
static const S CASES = "scCuUmMiIT";

// ---------------------------------------------------------------- template programs
struct Sub { enum K { VAL, COPY, LOOP } k; S v; std::shared_ptr<std::vector<struct Node>> templ; int n; };
typedef std::map<S, Sub> Env;
struct Expr { char op; int v; S var; std::vector<Expr> a; };
struct Cond {
  enum K { EMPTY, NUM, STR1, STREQ, STRNE } k; Expr e; std::vector<Node> *dummy = 0;
  std::shared_ptr<std::vector<Node>> a, b; char qa, qb;
};
struct Node {
  enum K { TEXT, VAR, EXISTS, IF, ASSIGN, ALIGN, COMMENT, ERROR, EVAL, CALL } k;
  S text, name, fmt; bool left; int width, prec; char mode; bool hasfmt; bool hastempl; int n;
  std::vector<std::vector<Node>> bodies; std::vector<Cond> conds; bool haselse;
  std::vector<Node> body; Expr e;
};
typedef std::vector<Node> Prog;
struct EvalError { int code; S msg; };

struct Ctx { int depth = 0; };

struct Gen23 {
  Gen &g; Env env; bool esc;   // esc: escape sequences are converted
  std::vector<S> vals, ints, funs, known, loopvars; int budget = 60; bool used_if = false, used_call = false, used_assign = false, nested_if = false;
  Gen23(Gen &g_, bool esc_) : g(g_), esc(esc_) {}

  S plain(int max, bool inassign) {   // text without backslash
    S s = g.chance(1, 3) ? g.text(max) : g.chars("abc XYZ{}_-.,;=?%:@\"'\n012", g.range(0, max));
    S r; for (char c : s) if (c != '\\') r += c;
    (void)inassign; return r;
  }
  S value(int max = 12) { return g.chance(1, 2) ? g.chars("abcDEF gHi_-.0 \t", g.range(0, max)) : plain(max, true); }

  void setup() {
    int n = g.range(1, 5);
    for (int i = 0; i < n; i++) { S nm = name(i); env[nm] = {Sub::VAL, value(), nullptr, 0}; vals.push_back(nm); }
    n = g.range(1, 3);
    for (int i = 0; i < n; i++) { S nm = fmt("n%d", i); env[nm] = {Sub::VAL, fmt("%d", g.range(0, 12)), nullptr, 0}; ints.push_back(nm); vals.push_back(nm); }
    env["copy"] = {Sub::COPY, "", nullptr, 0}; funs.push_back("copy");
    n = g.range(1, 2);
    for (int i = 0; i < n; i++) { S nm = fmt("loop.%d", i); env[nm] = {Sub::LOOP, "", nullptr, g.range(0, 3)}; funs.push_back(nm); }
  }
  S name(int i) { return g.pick<S>({fmt("v%d", i), fmt("prop.x%d", i), fmt("_v%d", i), fmt("a-b%d", i), fmt("v %d", i)}); }

  Expr expr(int d) {
    if (d <= 0 || g.chance(1, 3)) {
      if (!ints.empty() && g.chance(1, 2)) return {'v', 0, g.pick(ints), {}};
      return {'n', g.range(0, 20), "", {}};
    }
    char op = "+-*=!<>|&"[g.below(9)];
    Expr e{op, 0, "", {}}; e.a.push_back(expr(d - 1)); e.a.push_back(expr(d - 1)); return e;
  }
  Node text(bool inassign) {
    Node x{}; x.k = Node::TEXT; x.text = g.chance(1, 8) && !inassign && esc ? g.text(8) : plain(8, inassign);
    if (g.chance(1, 40)) { int k = g.range(100, 700); x.text += g.chars("abcdef \n", k % 7 + 1); while ((int)x.text.size() < k) x.text += x.text; }
    return x;
  }
  Cond cond(int d, bool ia) {
    Cond c{}; c.k = (Cond::K)g.weighted({1, 5, 2, 2, 2});
    if (c.k == Cond::NUM) c.e = expr(2);
    else if (c.k != Cond::EMPTY) {
      auto str = [&](char &q) {
        q = g.flip() ? '"' : '\''; auto p = std::make_shared<Prog>();
        int n = g.range(0, 2);
        for (int i = 0; i < n; i++) {
          if (g.flip()) { Node x{}; x.k = Node::TEXT; x.text = g.chars("abc ={}", g.range(0, 2)); p->push_back(x); }
          else { Node x{}; x.k = Node::VAR; x.name = g.pick(vals); p->push_back(x); }
        }
        return p; };
      c.a = str(c.qa); if (c.k != Cond::STR1) { c.b = g.chance(1, 3) ? c.a : str(c.qb); if (c.b == c.a) c.qb = c.qa; }
    }
    (void)d; (void)ia; return c;
  }
  Node node(int d, bool ia, const std::vector<S> &extra) {
    budget--;
    int w = g.weighted({8, 6, 1, d > 0 ? 4 : 0, d > 0 ? 3 : 0, 2, 2, 1, 2, d > 0 ? 4 : 0});
    Node x{};
    switch (w) {
    case 0: return text(ia);
    case 1: {
      x.k = Node::VAR; x.name = !extra.empty() && g.chance(1, 2) ? g.pick(extra) : g.chance(1, 60) ? S("undefd") : g.pick(vals);
      if (g.chance(1, 3)) {
        x.hasfmt = true; x.left = g.chance(1, 3); x.width = g.chance(1, 2) ? g.range(1, 30) : -1; x.prec = g.chance(1, 3) ? g.range(0, 9) : -1;
        if (g.chance(1, 12)) x.width = g.range(100, 300);
        x.mode = CASES[g.below(CASES.size())];
      }
      if (g.chance(1, 8) && d > 0) { x.hastempl = true; x.body = prog(d - 1, 2, ia, extra); }
      return x; }
    case 2: x.k = Node::EXISTS; x.name = g.chance(1, 2) ? g.pick(vals) : S("undefd"); return x;
    case 3: {
      x.k = Node::IF; used_if = true; if (d < 3) nested_if = true;
      int n = g.range(1, 3);
      for (int i = 0; i < n; i++) { x.conds.push_back(cond(d, ia)); x.bodies.push_back(prog(d - 1, 3, ia, extra)); }
      x.haselse = g.flip(); if (x.haselse) x.bodies.push_back(prog(d - 1, 3, ia, extra));
      return x; }
    case 4: {
      x.k = Node::ASSIGN; used_assign = true; x.name = g.pick<S>({"w0", "w1", "_w", "X"});
      x.body = prog(d - 1, 3, true, extra);
      return x; }
    case 5: x.k = Node::ALIGN; x.n = g.range(1, g.chance(1, 6) ? 200 : 30); return x;
    case 6: x.k = Node::COMMENT; x.body = prog(d > 0 ? d - 1 : 0, 2, ia, extra); return x;
    case 7: if (g.chance(1, 10)) { x.k = Node::ERROR; x.text = g.chars("abc msg.", g.range(1, 8)); return x; } return text(ia);
    case 8: x.k = Node::EVAL; x.e = expr(2); return x;
    default: {
      x.k = Node::CALL; used_call = true; x.name = g.pick(funs); x.hastempl = true;
      std::vector<S> ex = extra;
      if (env[x.name].k == Sub::LOOP) { ex.push_back("i"); ex.push_back("item"); ex.push_back(","); ex.push_back(", "); }
      x.body = prog(d - 1, 4, ia, ex);
      return x; }
    }
  }
  Prog prog(int d, int max, bool ia, const std::vector<S> &extra) {
    Prog p; int n = g.range(0, max);
    for (int i = 0; i < n && budget > 0; i++) p.push_back(node(d, ia, extra));
    fix(p); return p;
  }
  // without escape sequences there is no noop to separate closing braces
  void fix(Prog &p) {
    if (esc) return;
    for (auto &x : p) if (x.k == Node::TEXT && (x.text.empty() || x.text[0] == '}')) x.text = " " + x.text;
    Node x{}; x.k = Node::TEXT; x.text = " "; p.push_back(x);
  }
};

// ---- rendering
struct Render {
  Gen *g; bool esc; S out; bool tagend = false;   // tagend: the last character closes a tag
  void closing() { if (tagend) { out += "\\."; tagend = false; } }      // before any further '}' that is not part of the same run
  void lit(const S &s) {
    for (size_t i = 0; i < s.size(); i++) {
      unsigned char c = s[i];
      if (c == '{') { out += "{{"; tagend = false; continue; }
      if (c == '}') { if (tagend) out += "\\."; out += "}}"; tagend = false; continue; }
      tagend = false;
      if (!esc) { out += c; continue; }
      const char *p;
      if (c == '\\') out += "\\\\";
      else if ((p = (const char *)memchr("\a\b\f\n\r\t\v", c, 7)) && g->flip()) { out += '\\'; out += "abfnrtv"[p - "\a\b\f\n\r\t\v"]; }
      else if (strchr("!#%(XYZg", c) && g->chance(1, 12)) { out += '\\'; out += c; }     // other characters stand for themselves
      else out += c;
      if (g->chance(1, 25)) out += g->pick<S>({"\\.", "\\\n", "\\\r\n"});
    }
  }
  void open(const S &s) { out += "{" + s; tagend = false; }
  void shut() { if (tagend) { out += esc ? "\\." : ""; } out += "}"; tagend = true; }
  void expr(const Expr &e) {
    if (e.op == 'n') { out += fmt("%d", e.v); tagend = false; }
    else if (e.op == 'v') { open(e.var); shut(); }
    else { out += "("; tagend = false; expr(e.a[0]); out += g->flip() ? S(1, e.op) : fmt(" %c ", e.op); tagend = false; expr(e.a[1]); out += ")"; tagend = false; }
  }
  void str(const Prog &p, char q) { out += q; tagend = false; prog(p); out += q; tagend = false; }
  void cond(const Cond &c) {
    switch (c.k) {
    case Cond::EMPTY: return;
    case Cond::NUM: if (g->flip()) { out += " "; } tagend = false; expr(c.e); break;
    default: if (g->flip()) out += " ";
      str(*c.a, c.qa); if (c.k != Cond::STR1) { out += c.k == Cond::STREQ ? (g->flip() ? "=" : " = ") : (g->flip() ? "!" : " ! "); str(*c.b, c.qb); }
    }
    if (tagend || g->flip()) { out += " "; tagend = false; }
  }
  void prog(const Prog &p) { for (auto &x : p) node(x); }
  void node(const Node &x) {
    switch (x.k) {
    case Node::TEXT: lit(x.text); break;
    case Node::VAR: case Node::CALL:
      open(x.name);
      if (x.hasfmt) { out += "%"; if (x.left) out += "-"; if (x.width >= 0) out += fmt("%d", x.width); if (x.prec >= 0) out += fmt(".%d", x.prec); out += x.mode; }
      if (x.hastempl) { out += ":"; tagend = false; prog(x.body); }
      shut(); break;
    case Node::EXISTS: open(x.name + "?"); shut(); break;
    case Node::IF:
      for (size_t i = 0; i < x.conds.size(); i++) { open(i ? "@elif:" : "@if:"); cond(x.conds[i]); shut(); prog(x.bodies[i]); }
      if (x.haselse) { open("@else"); shut(); prog(x.bodies.back()); }
      open("@endif"); shut(); break;
    case Node::ASSIGN: open(x.name + "="); prog(x.body); shut(); break;
    case Node::ALIGN: open(fmt("@%d", x.n)); shut(); break;
    case Node::COMMENT: open(": "); prog(x.body); shut(); break;
    case Node::ERROR: open("@error:" + x.text); shut(); break;
    case Node::EVAL: open("@eval:"); expr(x.e); if (tagend) { out += " "; tagend = false; } shut(); break;
    }
  }
};

// ---- reference evaluation
struct Eval {
  std::vector<Env> scopes;
  const Sub *get(const S &n) { auto it = scopes.back().find(n); return it == scopes.back().end() ? NULL : &it->second; }
  int64_t expr(const Expr &e) {
    if (e.op == 'n') return e.v;
    if (e.op == 'v') { auto s = get(e.var); if (!s) throw EvalError{TGenVariableError, ""}; return atoi(s->v.c_str()); }
    int64_t x = expr(e.a[0]), y = expr(e.a[1]);
    switch (e.op) { case '+': return x + y; case '-': return x - y; case '*': return x * y; case '=': return x == y; case '!': return x != y;
      case '<': return x < y; case '>': return x > y; case '|': return x || y; default: return x && y; }
  }
  S str(const Prog &p, char q, bool &bad) { S o; prog(p, o); if (o.find(q) != S::npos || o.find('\\') != S::npos) bad = true; return o; }
  bool cond(const Cond &c) {
    bool bad = false, r = false;
    switch (c.k) {
    case Cond::EMPTY: return false;
    case Cond::NUM: return expr(c.e) != 0;
    case Cond::STR1: r = !str(*c.a, c.qa, bad).empty(); break;
    default: { S a = str(*c.a, c.qa, bad), b = str(*c.b, c.qb, bad); r = (a == b) == (c.k == Cond::STREQ); }
    }
    if (bad) throw Discard{};     // values that contain the quotes
    return r;
  }
  void prog(const Prog &p, S &out) { for (auto &x : p) { node(x, out); if (out.size() > 200000) throw Discard{}; } }
  void node(const Node &x, S &out) {
    switch (x.k) {
    case Node::TEXT: out += x.text; break;
    case Node::VAR: {
      auto s = get(x.name); if (!s) throw EvalError{TGenVariableError, ""};
      if (x.hasfmt) { S t; if (!ref_case(s->v, x.mode, t)) throw EvalError{-1, ""}; out += ref_fmt(x.left, x.width, x.prec, t); }
      else out += s->v;
      break; }
    case Node::EXISTS: out += get(x.name) ? "1" : "0"; break;
    case Node::IF: {
      size_t i; for (i = 0; i < x.conds.size(); i++) if (cond(x.conds[i])) { prog(x.bodies[i], out); break; }
      if (i == x.conds.size() && x.haselse) prog(x.bodies.back(), out);
      break; }
    case Node::ASSIGN: { S v; prog(x.body, v); for (auto &sc : scopes) sc[x.name] = {Sub::VAL, v, nullptr, 0}; break; }
    case Node::ALIGN: { size_t nl = out.rfind('\n'); int c = nl == S::npos ? out.size() : out.size() - nl - 1; for (; c < x.n; c++) out += ' '; break; }
    case Node::COMMENT: break;
    case Node::ERROR: throw EvalError{TGenUserError, x.text};
    case Node::EVAL: out += fmt("%lld", (long long)expr(x.e)); break;
    case Node::CALL: {
      auto s = get(x.name); Sub f = *s;
      if (f.k == Sub::COPY) { prog(x.body, out); break; }
      scopes.push_back(scopes.back());
      for (int i = 0; i < f.n; i++) {
        Env &e = scopes.back();
        e["i"] = {Sub::VAL, fmt("%d", i), nullptr, 0}; e["item"] = {Sub::VAL, fmt("Item no %d", i * 7), nullptr, 0};
        e[","] = {Sub::VAL, i < f.n - 1 ? "," : "", nullptr, 0}; e[", "] = {Sub::VAL, i < f.n - 1 ? ", " : "", nullptr, 0};
        prog(x.body, out);
      }
      scopes.pop_back(); break; }
    }
  }
};

// the loops, written like those in dlite-codegen.c
static std::map<const char *, int> *loop_n;
static int loop_count[2];
template <int K> static int loopfun(TGenBuf *s, const char *templ, int len, TGenSubs *subs, void *ctx) {
  TGenSubs d; int r = 0; int n = loop_count[K];
  if (tgen_subs_copy(&d, subs)) return 1;
  d.parent = subs;
  for (int i = 0; i < n && !r; i++) {
    tgen_subs_set_fmt(&d, "i", NULL, "%d", i); tgen_subs_set_fmt(&d, "item", NULL, "Item no %d", i * 7);
    tgen_subs_set(&d, ",", i < n - 1 ? "," : "", NULL); tgen_subs_set_fmt(&d, ", ", NULL, "%s", i < n - 1 ? ", " : "");
    r = tgen_append(s, templ, len, &d, ctx);
  }
  tgen_subs_deinit(&d);
  return r;
}

static void make_subs(TGenSubs *subs, const Env &env) {
  tgen_subs_init(subs);
  for (auto &kv : env) {
    if (kv.second.k == Sub::VAL) REQUIRE(tgen_subs_set(subs, kv.first.c_str(), kv.second.v.c_str(), NULL) == 0, "tgen_subs_set");
    else if (kv.second.k == Sub::COPY) tgen_subs_set(subs, kv.first.c_str(), NULL, tgen_append);
    else { bool one = kv.first == "loop.1"; loop_count[one] = kv.second.n; tgen_subs_set(subs, kv.first.c_str(), NULL, one ? loopfun<1> : loopfun<0>); }
  }
}

PBT(D23, templates, 60000, 3000000, 512, "random template programs (text, formats, nested conditionals, assignments, loops, alignment, comments, expressions, errors) against a reference evaluation; non-trivial: has a conditional, loop or assignment") {
  bool esc = !g.chance(1, 10);
  Gen23 G(g, esc); G.setup();
  Prog p = G.prog(3, 6, false, {});
  Render r{&g, esc, "", false}; r.prog(p);
  S templ = r.out;
  g.log("template %s", show(templ).c_str());
  for (auto &kv : G.env) g.log("  %s -> %s%s", show(kv.first).c_str(), show(kv.second.v).c_str(), kv.second.k == Sub::LOOP ? fmt(" loop %d", kv.second.n).c_str() : "");
  if (G.used_if || G.used_call || G.used_assign) g.nontrivial();
  if (G.nested_if) g.label("nested conditional");
  Eval ev; ev.scopes.push_back(G.env); S want; EvalError ee{0, ""};
  S pre = g.chance(1, 4) ? G.plain(6, false) : S(), tail = g.chance(1, 4) ? "\\." + G.plain(3, true) : S();
  if (tail.size() && (tail[tail.size() - 1] == '{' || !esc)) tail = "";
  bool append = !pre.empty() || !tail.empty();
  if (append) want = pre;
  try { ev.prog(p, want); } catch (EvalError &e) { ee = e; }
  TGenSubs subs; tgen_convert_escape_sequences = esc; make_subs(&subs, G.env);
  char *res = NULL; int stat = 0; TGenBuf buf; tgen_buf_init(&buf);
  err_clear();
  if (append) {
    tgen_convert_escape_sequences = 0; tgen_buf_append(&buf, pre.c_str(), pre.size()); tgen_convert_escape_sequences = esc;
    stat = tgen_append(&buf, (templ + tail).c_str(), templ.size(), &subs, NULL);
    if (!stat) { tgen_buf_append(&buf, "", 0); res = tgen_buf_steal(&buf); }
    g.label("append");
  } else res = tgen(templ.c_str(), &subs, NULL);
  tgen_convert_escape_sequences = 1;
  int code = err_geteval(); S msg = err_getmsg(); err_clear();
  tgen_buf_deinit(&buf);
  if (ee.code) {
    g.label(ee.code == TGenUserError ? "user error" : "error");
    REQUIRE(!res, "template with %s gives %s", ee.code == TGenUserError ? "@error" : "an unknown variable or an invalid name", show(res).c_str());
    REQUIRE(code != 0, "failure without error");
    if (ee.code > 0) REQUIRE(code == ee.code, "error code is %d (%s), expected %d", code, msg.c_str(), ee.code);
    if (!ee.msg.empty()) REQUIRE(msg.find(ee.msg) != S::npos, "message is %s, expected to contain %s", show(msg).c_str(), show(ee.msg).c_str());
  } else {
    REQUIRE(res, "failed: %s", msg.c_str());
    REQUIRE(want == res, "result is %s\nexpected  %s", show(res).c_str(), show(want).c_str());
    // assigned variables stay assigned
    for (auto &kv : ev.scopes[0]) {
      const TGenSub *s = tgen_subs_get(&subs, kv.first.c_str());
      REQUIRE(s, "%s is not defined", kv.first.c_str());
      if (kv.second.k == Sub::VAL) REQUIRE(s->repl && kv.second.v == s->repl && !s->func, "%s has value %s, expected %s", kv.first.c_str(), show(s->repl ? s->repl : "(null)").c_str(), show(kv.second.v).c_str());
    }
  }
  free(res); tgen_subs_deinit(&subs);
}

PBT(D23, damaged, 40000, 2000000, 512, "templates with random characters removed, inserted and exchanged: an error or a result, never a crash; non-trivial: it is an error") {
  Gen23 G(g, true); G.setup();
  Prog p = G.prog(3, 5, false, {});
  Render r{&g, true, "", false}; r.prog(p);
  S t = r.out; int n = g.range(1, 4);
  for (int i = 0; i < n; i++) {
    size_t at = g.below(t.size() + 1);
    switch (g.below(4)) {
    case 0: if (at < t.size()) t.erase(at, g.range(1, 3)); break;
    case 1: t.insert(at, g.pick<S>({"{", "}", "{{", "}}", "{}", "%", ":", "?", "=", "\\", "\"", "'", "{@if:", "{@elif:", "{@else}", "{@endif}", "{@error", "{@eval:", "{@3", "{n0%5", "{copy:", "{n0", "{x.y=", "{@", "{: "})); break;
    case 2: if (at < t.size()) t[at] = "{}%:?=\\\"'@ a"[g.below(12)]; break;
    default: t = t.substr(0, at);
    }
  }
  for (auto &c : t) if (!c) c = ' ';
  g.log("template %s", show(t).c_str());
  Exact x(t + S(1, '\0')); err_clear();
  size_t before = __sanitizer_get_current_allocated_bytes();
  TGenSubs subs; make_subs(&subs, G.env);
  char *res = tgen(x.p, &subs, NULL);
  if (!res) { g.nontrivial(); REQUIRE(err_geteval() != 0, "failure without error"); }
  else g.label("accepted");
  err_clear();
  free(res); tgen_subs_deinit(&subs);
  size_t after = __sanitizer_get_current_allocated_bytes();
  REQUIRE(before == after, "%ld bytes leaked", (long)(after - before));
}

PBT(D23, buffers, 40000, 2000000, 512, "random operations on a template buffer (append, printf, cases, unappend, alignment) against a string; non-trivial: more than three operations") {
  TGenBuf b; tgen_buf_init(&b); S m;
  int n = g.range(1, 8); if (n > 3) g.nontrivial();
  for (int i = 0; i < n; i++) {
    S s = g.chance(1, 30) ? S(g.range(100, 1200), 'x') : g.text(20); bool limit = g.chance(1, 3);
    int len = limit ? g.range(0, s.size()) : -1; S eff = limit ? s.substr(0, len) : s;
    S src = limit && !g.flip() ? eff : s + S(1, '\0'); if (!limit) src = s + S(1, '\0');
    Exact x(src);
    switch (g.below(5)) {
    case 0: { g.log("append %s %d", show(s).c_str(), len);
      int r = tgen_buf_append(&b, x.p, len); REQUIRE(r >= 0, "append fails"); m += ref_unescape(eff); break; }
    case 1: { S t; for (char c : s) if (c != '\\') t += c; int w = g.pick({0, 5, 127, 128, 129, 200}); g.log("fmt %d %s", w, show(t).c_str());
      S f = fmt("%*s", w, t.c_str()); int r = tgen_buf_append_fmt(&b, "%*s", w, t.c_str()); REQUIRE(r == (int)f.size(), "append_fmt returns %d, expected %zu", r, f.size()); m += f; break; }
    case 2: { char mode = CASES[g.below(10)]; g.log("case %c %s %d", mode, show(s).c_str(), len);
      if (eff.find('\\') != S::npos) continue;
      S t; bool ok = ref_case(eff, mode, t); size_t before = tgen_buf_length(&b);
      int r = tgen_buf_append_case(&b, x.p, len, mode);
      REQUIRE((r >= 0) == ok, "append_case returns %d", r);
      if (ok) m += t; else { tgen_buf_unappend(&b, tgen_buf_length(&b) - before); err_clear(); }
      // on its own
      char *c = tgen_convert_case(x.p, len, mode);
      REQUIRE((c != NULL) == ok, "tgen_convert_case %s", c ? "accepts" : "fails");
      if (ok) REQUIRE(t == c, "converted to %s, expected %s", show(c).c_str(), show(t).c_str());
      free(c); err_clear(); break; }
    case 3: { int k = g.range(0, 9); g.log("unappend %d", k); int e = std::min<int>(k, m.size());
      int r = tgen_buf_unappend(&b, k); REQUIRE(r == e, "unappend returns %d, expected %d", r, e); m.resize(m.size() - e); break; }
    default: { int k = g.range(1, 40); char c = g.pick({' ', '-'}); g.log("align %d", k);
      size_t nl = m.rfind('\n'); int col = nl == S::npos ? m.size() : m.size() - nl - 1, pad = std::max(0, k - col);
      int r = c == ' ' ? tgen_buf_align(&b, k) : tgen_buf_calign(&b, c, k);
      REQUIRE(r == pad, "align adds %d, expected %d", r, pad); m += S(pad, c); }
    }
    REQUIRE(tgen_buf_length(&b) == m.size(), "length %zu, expected %zu", tgen_buf_length(&b), m.size());
    if (tgen_buf_get(&b)) REQUIRE(m == tgen_buf_get(&b), "content %s, expected %s", show(tgen_buf_get(&b)).c_str(), show(m).c_str());
    else REQUIRE(m.empty(), "no content");
  }
  tgen_buf_deinit(&b);
}


// ---------------------------------------------------------------- generated code
static S nobs(const Elem &e) { S r; for (char c : e.b) if (c != '\\') r += c; return r; }
// definitions whose texts have no backslashes
static MetaM gen_def(Gen &g, bool forC, int k) {
  MetaOpt o; o.types = TY_REF | TY_REL; o.maxprops = 7; MetaM m = gen_meta(g, o);
  auto clean = [&](Elem &e) { e.b = nobs(e); if (forC) for (auto &c : e.b) if (c == '*') c = '+'; };
  clean(m.descr); for (auto &d : m.dims) clean(d.second);
  for (size_t i = 0; i < m.props.size(); i++) { auto &p = m.props[i]; clean(p.descr); clean(p.unit); if (forC) p.name += fmt("_%zu", i); if (forC && g.chance(1, 12)) p.name += S(g.range(20, 60), 'w'); }
  if (forC) {
    m.name = fmt("E%d", k) + m.name; m.uri = m.ns + "/" + m.version + "/" + m.name;
    static const std::set<S> kw = {"auto", "break", "case", "char", "const", "do", "double", "else", "enum", "extern", "float", "for", "goto", "if", "int", "long", "return", "short", "signed", "sizeof", "static", "struct", "switch", "union", "void", "while", "bool", "inline", "asm", "true", "false", "I", "unix", "linux", "errno", "BUFSIZ", "CMPLX", "CMPLXF", "CMPLXL", "DIRSEP", "EMMO", "EOF", "FD_CLR", "FD_SET", "JSMN_H", "MAP_H", "NULL", "OWL", "POSIX", "RDF", "RDFS", "SHA3_H", "SKOS", "SOFT", "XML", "XSD", "alloca", "map_t", "stdin", "stdout", "stderr", "va_arg", "va_end"};
    for (auto &d : m.dims) { if (kw.count(d.first)) throw Discard{}; for (auto &p : m.props) if (p.name == d.first) throw Discard{}; }
  }
  return m;
}
static S tynameC(Ty t) {
  switch (t.t) {
  case dliteBlob: return fmt("uint8_t[%zu]", t.n); case dliteFixString: return fmt("char[%zu]", t.n);
  case dliteBool: return "bool"; case dliteInt: return fmt("int%zu_t", t.n * 8); case dliteUInt: return fmt("uint%zu_t", t.n * 8);
  case dliteFloat: return t.n == 8 ? "double" : "float"; case dliteStringPtr: return "char *"; case dliteRef: return "DLiteInstance *";
  case dliteDimension: return "DLiteDimension"; case dliteProperty: return "DLiteProperty"; default: return "DLiteRelation";
  }
}
static const char *enumname(DLiteType t) {
  static const char *n[] = {"dliteBlob", "dliteBool", "dliteInt", "dliteUInt", "dliteFloat", "dliteFixString", "dliteStringPtr", "dliteRef", "dliteDimension", "dliteProperty", "dliteRelation"};
  return n[t];
}

PBT(D23, listings, 12000, 600000, 128, "listing of all dimensions, properties, shapes and property dimensions of random entities and their instances with a template; non-trivial: has a property with dimensions") {
  MetaM m = gen_def(g, false, 0); m.meta = create_meta(m); REQUIRE(m.meta, "cannot create metadata"); g.log("%s", showmeta(m).c_str());
  for (auto &p : m.props) if (p.shape.size()) g.nontrivial();
  bool native = g.chance(1, 4); dlite_codegen_set_native_typenames(native);
  S T = "{name}|{version}|{namespace}|{_uri}|{_uuid}|{descr}|{meta.uri}|{isdata}{ismeta}{ismetameta}|{_ndimensions} {_nproperties} {_nrelations}|{opt}|{my-key}\n"
        "{list_dimensions:D{dim.i} {dim.name} <{dim.descr}>{,}\n}"
        "{list_properties:P{prop.i} {prop.name} {prop.type} {prop.typename} {prop.dtype} {prop.size} {prop.ndims} [{prop.shape:{dim.i}.{dim.name}{, }\\.}] <{prop.unit}> <{prop.descr}> {prop.isallocated} {prop.typeno} {prop.dimind} {prop.ref}{,}\n}"
        "{list_propdims:{propdim.i}{, }\\.}\nend";
  S want = m.name + "|" + m.version + "|" + m.ns + "|" + m.uri + "|" + m.meta->uuid + "|" + m.descr.b + "|" + DLITE_ENTITY_SCHEMA + "|010|" + fmt("%zu %zu 0|", m.dims.size(), m.props.size());
  S o1 = g.chars("abc 12.", g.range(0, 8)), o2 = g.chars("xyz=,", g.range(0, 5)); if (g.chance(1, 10)) o1 += S(g.range(50, 90), 'o');
  want += o1 + "|" + o2 + "\n";
  for (size_t i = 0; i < m.dims.size(); i++) want += fmt("D%zu ", i) + m.dims[i].first + " <" + m.dims[i].second.b + ">" + (i + 1 < m.dims.size() ? "," : "") + "\n";
  int pd = 0;
  for (size_t i = 0; i < m.props.size(); i++) {
    auto &p = m.props[i]; static const char *dt[] = {"blob", "bool", "int", "uint", "float", "fixstring", "string", "ref", "dimension", "property", "relation"};
    want += fmt("P%zu ", i) + p.name + " " + dt[p.t.t] + " " + tyname(p.t) + " " + enumname(p.t.t) + fmt(" %zu %zu [", p.t.n, p.shape.size());
    for (size_t j = 0; j < p.shape.size(); j++) want += fmt("%zu.", j) + p.shape[j].text + (j + 1 < p.shape.size() ? ", " : "");
    want += "] <" + p.unit.b + "> <" + p.descr.b + ">" + fmt(" %d %d %d ", allocated(p.t), (int)p.t.t, pd) + (p.ref.null ? "NULL" : p.ref.b) + (i + 1 < m.props.size() ? "," : "") + "\n";
    pd += p.shape.size();
  }
  // the metadata is itself an instance of the entity schema
  size_t npd = m.meta->meta->_npropdims; for (size_t i = 0; i < npd; i++) want += fmt("%zu", i) + (i + 1 < npd ? ", " : "");
  want += "\nend";
  S opts = "opt=" + o1 + g.pick<S>({";", "&"}) + "my-key=" + o2 + g.pick<S>({"", "#frag", ";"});
  bool lose = g.chance(1, 10); if (lose) opts = "opt=1;novalue";
  char *r = dlite_codegen(T.c_str(), (DLiteInstance *)m.meta, opts.c_str());
  if (lose) { REQUIRE(!r && take_error(), "option without value is accepted"); }
  else REQUIRE(r && want == r, "listing is %s\nexpected   %s %s", show(r ? r : dlite_errmsg()).c_str(), show(want).c_str(), opts.c_str());
  free(r); take_error();
  // an instance
  std::vector<long> dims; for (size_t i = 0; i < m.dims.size(); i++) dims.push_back(g.range(0, 3));
  DLiteInstance *inst = create_inst(m, dims, NULL); REQUIRE(inst, "cannot create instance");
  r = dlite_codegen("{isdata}{ismeta}|{uuid}|{meta.uri}|{meta.name}|{meta._nproperties}|{list_propdims:{propdim.n}{,}\\.}", inst, NULL);
  want = S("10|") + inst->uuid + "|" + m.uri + "|" + m.name + "|"; REQUIRE(r && S(r).compare(0, want.size(), want) == 0, "instance gives %s, expected %s...", show(r ? r : "NULL").c_str(), want.c_str());
  S pds = S(r).substr(S(r).rfind('|') + 1), wpd;
  std::vector<S> parts; for (auto &p : m.props) for (auto &e : p.shape) parts.push_back(fmt("%ld", e.f(dims)));
  for (size_t i = 0; i < parts.size(); i++) wpd += parts[i] + (i + 1 < parts.size() ? "," : "");
  REQUIRE(pds == wpd, "property dimensions are %s, expected %s", pds.c_str(), wpd.c_str());
  free(r);
  // the values of the metadata in terms of its own schema
  r = dlite_codegen("{list_meta_properties:{prop.name}={prop.value};}", (DLiteInstance *)m.meta, NULL);
  REQUIRE(r, "listing of schema properties failed"); S all = r;
  for (auto &kv : std::vector<std::pair<S, S>>{{"name", m.name}, {"version", m.version}, {"namespace", m.ns}, {"description", m.descr.b}})
    REQUIRE((";" + all).find(";" + kv.first + "=" + kv.second + ";") != S::npos, "%s is not %s in %s", kv.first.c_str(), show(kv.second).c_str(), show(all).c_str());
  free(r);
  dlite_instance_decref(inst); dlite_codegen_set_native_typenames(0);
}

static int hcount;
static void writefile(const S &f, const S &t) { FILE *p = fopen(f.c_str(), "wb"); REQUIRE(p, "cannot write %s", f.c_str()); fwrite(t.data(), 1, t.size(), p); fclose(p); }
static S readfile(const S &f) { S r; FILE *p = fopen(f.c_str(), "rb"); char b[4096]; size_t n; if (!p) return r; while ((n = fread(b, 1, sizeof b, p)) > 0) r.append(b, n); fclose(p); return r; }

PBT(D23, headers, 400, 20000, 8, "C headers of six random entities, compiled with assertions about the position, size and type of every member against instances of the entity; non-trivial: always") {
  static S templ; 
  if (templ.empty()) templ = readfile(S(VERIF_REPO) + "/tools/templates/c-header.txt");
  bool native = g.flip(); dlite_codegen_set_native_typenames(native);
  bool full = g.chance(3, 4);        // with dlite, or only the minimal definitions of the header
  S dir = S(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + fmt("/d23-%d", (int)getpid());
  mkdir(dir.c_str(), 0700); g.nontrivial();
  S c = "#include <stddef.h>\n#include <stdint.h>\n#include <stdbool.h>\n"; if (full) c += "#include \"dlite.h\"\n";
  std::vector<S> files; S asserts;
  auto A = [&](const S &e, const S &what) { asserts += "_Static_assert(" + e + ", \"" + what + "\");\n"; };
  for (int k = 0; k < 6; k++) {
    MetaM m = gen_def(g, true, k); m.meta = create_meta(m); REQUIRE(m.meta, "cannot create metadata"); g.log("%s", showmeta(m).c_str());
    char *h = dlite_codegen(templ.c_str(), (DLiteInstance *)m.meta, NULL);
    REQUIRE(h, "no header for %s: %s", showmeta(m).c_str(), dlite_errmsg());
    S f = dir + fmt("/h%d.h", hcount++); writefile(f, h); free(h); files.push_back(f);
    c += "#include \"" + f + "\"\n";
    S sn; ref_case(m.name, 'M', sn); S cn; ref_case(m.name, 'C', cn);
    A(fmt("sizeof(%s_URI) == %zu", cn.c_str(), m.uri.size() + 1), "uri"); A(fmt("sizeof(%s_NAME) == %zu", cn.c_str(), m.name.size() + 1), "name");
    A("sizeof(" + cn + "_UUID) == 37", "uuid"); A(fmt("sizeof(%s_NAMESPACE) == %zu", cn.c_str(), m.ns.size() + 1), "namespace");
    std::vector<long> dims; for (size_t i = 0; i < m.dims.size(); i++) dims.push_back(g.range(1, 4));
    DLiteInstance *inst = create_inst(m, dims, NULL); REQUIRE(inst, "cannot create instance");
    S prev;
    auto order = [&](const S &nm) { if (!prev.empty()) A("offsetof(" + sn + "," + prev + ") < offsetof(" + sn + "," + nm + ")", "order of " + nm); prev = nm; };
    for (size_t i = 0; i < m.dims.size(); i++) {
      const S &nm = m.dims[i].first; order(nm);
      size_t off = m.meta->_dimoffset + i * sizeof(size_t);
      REQUIRE(*(size_t *)((char *)inst + off) == (size_t)dims[i], "dimension value is elsewhere");
      if (full) A(fmt("offsetof(%s,%s) == %zu", sn.c_str(), nm.c_str(), off), "position of dimension " + nm);
      A("__builtin_types_compatible_p(__typeof__(((" + sn + "*)0)->" + nm + "), size_t)", "type of dimension " + nm);
    }
    for (size_t i = 0; i < m.props.size(); i++) {
      auto &p = m.props[i]; order(p.name);
      void *v = dlite_instance_get_property(inst, p.name.c_str());
      size_t off = m.meta->_propoffsets[i]; char *at = (char *)inst + off;
      REQUIRE(p.shape.empty() ? v == at : v == *(void **)at, "value of property %s is elsewhere", p.name.c_str());
      if (full) A(fmt("offsetof(%s,%s) == %zu", sn.c_str(), p.name.c_str(), off), "position of " + p.name);
      S ty = tynameC(p.t), mem = "((" + sn + "*)0)->" + p.name;
      if (native && (p.t.t == dliteInt || p.t.t == dliteUInt)) { // any integer type of this size and sign
        S e = p.shape.empty() ? mem : "*" + mem;
        A(fmt("sizeof(%s) == %zu", e.c_str(), p.t.n), "size of " + p.name);
        A("(((__typeof__(" + e + "))-1) < 0) == " + (p.t.t == dliteInt ? "1" : "0"), "sign of " + p.name);
      } else if (p.shape.empty()) A("__builtin_types_compatible_p(__typeof__(" + mem + "), " + ty + ")", "type of " + p.name);
      else A("__builtin_types_compatible_p(__typeof__(" + mem + "), " + (ty.back() == ']' ? ty.substr(0, ty.find('[')) + "(*)" + ty.substr(ty.find('[')) : ty + "*") + ")", "type of " + p.name);
    }
    if (full) {
      A(fmt("sizeof(((%s*)0)->__propdims) == %zu", sn.c_str(), m.meta->_npropdims * sizeof(size_t)), "number of property dimensions");
      if (m.meta->_npropdims) A(fmt("offsetof(%s,__propdims) == %zu", sn.c_str(), m.meta->_propdimsoffset), "position of property dimensions");
      for (S hd : {"uuid", "uri", "meta", "_refcount"}) A("offsetof(" + sn + "," + hd + ") == offsetof(DLiteInstance," + hd + ")", "head");
    }
    dlite_instance_decref(inst);
  }
  S cf = dir + "/t.c", ef = dir + "/err"; writefile(cf, c + asserts);
  S cmd = S("cc -std=gnu99 -fsyntax-only -Wno-pedantic ") + (full ? "-DHAVE_DLITE " : "") + "-I " VERIF_BUILD_ROOT "/src -I " VERIF_BUILD_ROOT "/src/utils -I " VERIF_BUILD_ROOT " -I " VERIF_REPO "/src -I " VERIF_REPO "/src/utils " + cf + " > " + ef + " 2>&1";
  int r = system(cmd.c_str()); S e = readfile(ef), h; if (r) for (auto &f : files) h += readfile(f).substr(3000);
  for (auto &f : files) unlink(f.c_str());
  unlink(cf.c_str()); unlink(ef.c_str()); rmdir(dir.c_str());
  if (r) { g.log("%s", e.c_str()); fail("header does not compile as expected (%s, %s names):\n%s", full ? "with dlite" : "alone", native ? "native" : "portable", e.substr(0, 1500).c_str()); }
  g.label(full ? "with dlite" : "alone", 6);
  dlite_codegen_set_native_typenames(0);
}

static void init() { dlite_err_set_stream(NULL); for (int i = 0; i < 2; i++) { err(1, "warm up"); err_clear(); } }
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
