// flavours: asan
// D30: error records, guarded sections, handlers, masks and behaviours.
#define HAVE___VA_ARGS__
#define HAVE___FUNC__
#include "dmodel.hpp"
extern "C" {
#include "utils/err.h"
#include "dlite-behavior.h"
#include "utils/globmatch.h"
}
#undef err
#undef errx
#undef warn
#undef warnx

// ------------------------------------------------------------ model
enum Kind { K_ERR, K_ERRX, K_WARN, K_WARNX, K_INFO, K_CLEAR, K_UPDATE, K_TRY, K_RAISE, K_LEVEL, K_OVERRIDE, K_WARNMODE, K_CHECK };
struct Op { int kind, eval, errnum, node; char *msg; };
struct Node { int body, c1, c2, other, els, fin; bool has1, has2, hasoth, hasels, hasfin, fall1, re1, re2, reo; };
static std::vector<std::vector<Op>> blocks; static std::vector<Node> nodes;
static std::vector<S> trace, mtrace;     // observed and expected events
static void ev(const char *f, ...) { va_list ap; va_start(ap, f); trace.push_back(vfmt(f, ap)); va_end(ap); }
static void mev(const char *f, ...) { va_list ap; va_start(ap, f); mtrace.push_back(vfmt(f, ap)); va_end(ap); }
static const size_t MAXMSG = ERR_MSGSIZE - 1;

// observed: the handler
static S shorten(const S &s) { return s.size() <= 90 ? show(s) : show(s.substr(0, 40)) + "..." + show(s.substr(s.size() - 40)) + fmt("(%zu,%zx)", s.size(), std::hash<S>()(s)); }
static void handler(const ErrRecord *r) { ev("handler level %d eval %d msg %s new %s", r->level, r->eval, shorten(r->msg).c_str(), shorten(r->msg + r->pos).c_str()); }

static int with_names = 0, debugmode = 0; static S prefix;
static const char *nameconv(int e) { static char b[40]; snprintf(b, sizeof b, "Err<%d>", e); return b; }

struct Rec { int level = 0, eval = 0; S msg; size_t pos = 0; bool handled = false; int reraise = 0, state = 0; };
static std::vector<Rec> stack; static int m_level, m_override, m_warn;
static void cut(S &s) { if (s.size() > MAXMSG) s.resize(MAXMSG); }
static void m_report(int level, int eval, int errnum, const char *msg) {
  Rec &r = stack.back();
  if (level < (m_level == 0 ? errLevelWarn : m_level)) return;
  const char *ln = err_getlevelname(level);
  if (level == errLevelWarn) { if (m_warn == errWarnIgnore) return; if (m_warn == errWarnError) { level = errLevelError; ln = "Error"; } }
  S head; bool ignore = false, keep = false;
  if (r.eval) switch (m_override) {
    case errOverrideAppend: head = r.msg; keep = true; break;
    case errOverrideWarnNew: case errOverrideIgnoreNew: ignore = keep = true; break;
  }
  if (eval) keep = false;
  int oldlevel = r.level;
  r.level = level;
  if (!keep) r.eval = eval;
  if (!ignore) {
    S t; if (prefix.size()) t += prefix + ": ";
    if (debugmode >= 1) t += "f.c:7: ";
    if (debugmode >= 2) t += "in fun(): ";
    if (eval) t += with_names ? S(nameconv(eval)) + ln + ": " : fmt("%s %d: ", ln, eval);
    else t += S(ln) + ": ";
    t += msg; if (errnum) t += S(": ") + strerror(errnum);
    if (head.size()) { r.pos = head.size(); r.msg = head + "\n - " + t; } else { r.pos = 0; r.msg = t; }
    cut(r.msg);
  }
  if (level >= errLevelError && r.state) r.reraise = eval;
  if (stack.size() == 1 || level == errLevelWarn)
    mev("handler level %d eval %d msg %s new %s", r.level, r.eval, shorten(r.msg).c_str(), shorten(r.msg.substr(std::min(r.pos, r.msg.size()))).c_str());
  if (keep) r.level = oldlevel;
}
struct Raised {};
static void m_block(int b);
static void m_try(int n) {
  const Node &d = nodes[n]; stack.push_back(Rec()); size_t me = stack.size() - 1;
  auto R = [&]() -> Rec & { return stack[me]; };
  try { mev("try %d", n); m_block(d.body); } catch (Raised &) {}
  bool ft = false;
  // catch 1 (may fall through into catch 2)
  if (d.has1) { bool go = R().eval == 1; if (go) { R().handled = true; R().state = 1; mev("catch1 of %d", n); m_block(d.c1); if (d.re1) R().reraise = R().eval; if (d.fall1) ft = true; } }
  if (!d.has2 && ft) { R().handled = true; R().state = 1; }   // the harness always has the clause
  if (d.has2) { bool go = R().eval == 2 || ft; if (go) { R().handled = true; R().state = 1; mev("catch2 of %d", n); m_block(d.c2); if (d.re2) R().reraise = R().eval; } }
  if (d.hasoth) { bool go = R().eval && !R().handled; if (go) { R().handled = true; R().state = 1; mev("other of %d", n); m_block(d.other); if (d.reo) R().reraise = R().eval; } }
  if (d.hasels) { if (!R().eval) { R().state = 2; mev("else of %d", n); m_block(d.els); } }
  if (d.hasfin) { R().state = 3; mev("finally of %d", n); m_block(d.fin); }
  Rec r = R(); stack.pop_back();
  if (r.reraise || (r.eval && !r.handled)) {
    Rec &p = stack.back(); int eval = r.reraise ? r.reraise : r.eval; bool ignore = false; S head;
    if (p.eval) switch (m_override) { case errOverrideAppend: head = p.msg; break; case errOverrideWarnNew: case errOverrideIgnoreNew: ignore = true; }
    p.level = r.level; p.eval = eval;
    if (!ignore) { if (head.size()) { p.pos = head.size(); p.msg = head + "\n - " + r.msg; } else { p.pos = 0; p.msg = r.msg; } cut(p.msg); }
    if (r.level == errLevelException && stack.size() > 1) throw Raised();
    if (stack.size() == 1) mev("handler level %d eval %d msg %s new %s", p.level, p.eval, shorten(p.msg).c_str(), shorten(p.msg.substr(std::min(p.pos, p.msg.size()))).c_str());
  }
}
static void m_block(int b) {
  for (size_t i = 0; i < blocks[b].size(); i++) {
    Op o = blocks[b][i];
    switch (o.kind) {
    case K_ERR: m_report(errLevelError, o.eval, o.errnum, o.msg); break;
    case K_ERRX: m_report(errLevelError, o.eval, 0, o.msg); break;
    case K_WARN: m_report(errLevelWarn, 0, o.errnum, o.msg); break;
    case K_WARNX: m_report(errLevelWarn, 0, 0, o.msg); break;
    case K_INFO: m_report(o.eval, 0, 0, o.msg); break;
    case K_CLEAR: stack.back() = Rec(); break;
    case K_UPDATE: if (stack.back().eval) stack.back().eval = o.eval; mev("update %d", stack.back().eval); break;
    case K_TRY: m_try(o.node); break;
    case K_RAISE: m_report(errLevelException, o.eval, o.errnum, o.msg); throw Raised();
    case K_LEVEL: m_level = o.eval; break;
    case K_OVERRIDE: m_override = o.eval; break;
    case K_WARNMODE: m_warn = o.eval; break;
    case K_CHECK: { Rec &r = stack.back(); mev("level %d eval %d msg %s", r.level, r.eval, shorten(r.msg).c_str()); break; }
    }
  }
}

// ------------------------------------------------------------ the code
static void run_block(int b);
// The clauses without a condition of their own do nothing if they are absent.
#define CLAUSES_1                                                                                   \
  ErrTry: ev("try %d", n); run_block(d->body); break;                                               \
  ErrCatch((d->has1 ? 1 : -9999)): ev("catch1 of %d", n); run_block(d->c1); if (d->re1) err_reraise(); if (!d->fall1) break; \
  ErrCatch((d->has2 ? 2 : -9999)): if (d->has2) { ev("catch2 of %d", n); run_block(d->c2); if (d->re2) err_reraise(); } break;
#define CLAUSES_2                                                                                   \
  ErrElse: if (d->hasels) { ev("else of %d", n); run_block(d->els); }                               \
  ErrFinally: if (d->hasfin) { ev("finally of %d", n); run_block(d->fin); }                         \
  ErrEnd;
static void run_try_other(int n) {
  const Node *d = &nodes[n];
  CLAUSES_1
  ErrOther: ev("other of %d", n); run_block(d->other); if (d->reo) err_reraise();
  CLAUSES_2
}
static void run_try_plain(int n) {
  const Node *d = &nodes[n];
  CLAUSES_1
  CLAUSES_2
}
static void raise_now(int eval, int errnum, const char *msg) { errno = errnum; err_raise(eval, "%s", msg); }
static void run_block(int b) {
  size_t nops = blocks[b].size();
  for (size_t i = 0; i < nops; i++) {
    const Op *o = &blocks[b][i];
    errno = o->errnum;
    switch (o->kind) {
    case K_ERR: if (_err_format(errLevelError, o->eval, errno, "f.c:7", "fun", "%s", o->msg) != o->eval) ev("wrong return value"); break;
    case K_ERRX: if (_err_format(errLevelError, o->eval, 0, "f.c:7", "fun", "%s", o->msg) != o->eval) ev("wrong return value"); break;
    case K_WARN: if (_err_format(errLevelWarn, 0, errno, "f.c:7", "fun", "%s", o->msg)) ev("wrong return value"); break;
    case K_WARNX: if (_err_format(errLevelWarn, 0, 0, "f.c:7", "fun", "%s", o->msg)) ev("wrong return value"); break;
    case K_INFO: if (_err_format((ErrLevel)o->eval, 0, 0, "f.c:7", "fun", "%s", o->msg)) ev("wrong return value"); break;
    case K_CLEAR: err_clear(); break;
    case K_UPDATE: ev("update %d", err_update_eval(o->eval)); break;
    case K_TRY: if (nodes[o->node].hasoth) run_try_other(o->node); else run_try_plain(o->node); break;
    case K_RAISE: raise_now(o->eval, o->errnum, o->msg); break;
    case K_LEVEL: err_set_level(o->eval); break;
    case K_OVERRIDE: err_set_override_mode(o->eval); break;
    case K_WARNMODE: err_set_warn_mode(o->eval); break;
    case K_CHECK: ev("level %d eval %d msg %s", err_getlevel(), err_geteval(), shorten(err_getmsg()).c_str()); break;
    }
  }
}

// ------------------------------------------------------------ generator
static S gen_msg(Gen &g) {
  if (g.chance(1, 8)) { size_t n = g.pick<int>({100, 1000, 4000, 4080, 4085, 4090, 4095, 4096, 4097, 5000, 9000}) + g.range(0, 12); S s; while (s.size() < n) s += (char)('a' + s.size() % 23); return s; }
  return "m" + g.text(12);
}
static int gen_block(Gen &g, int depth, bool raise, int max);
static bool raises;
static int gen_try(Gen &g, int depth, bool safe) {
  Node d; memset(&d, 0, sizeof d);
  d.has1 = g.flip(); d.has2 = g.flip(); d.hasoth = safe || g.flip(); d.hasels = g.chance(1, 3); d.hasfin = g.chance(1, 3);
  d.fall1 = d.has1 && g.chance(1, 3);
  if (!safe) { d.re1 = g.chance(1, 4); d.re2 = g.chance(1, 4); d.reo = g.chance(1, 4); }
  d.body = gen_block(g, depth + 1, raises, 5);
  d.c1 = gen_block(g, depth + 1, false, 2); d.c2 = gen_block(g, depth + 1, false, 2); d.other = gen_block(g, depth + 1, false, 2);
  d.els = gen_block(g, depth + 1, false, 2); d.fin = gen_block(g, depth + 1, false, 2);
  nodes.push_back(d); return (int)nodes.size() - 1;
}
static int gen_block(Gen &g, int depth, bool raise, int max) {
  int n = g.range(0, max); std::vector<Op> ops;
  for (int i = 0; i < n; i++) {
    Op o; memset(&o, 0, sizeof o);
    static const int kinds[] = {K_ERRX, K_ERR, K_WARNX, K_WARN, K_INFO, K_CLEAR, K_UPDATE, K_TRY, K_RAISE, K_LEVEL, K_OVERRIDE, K_WARNMODE, K_CHECK};
    o.kind = kinds[g.weighted({8, 4, 3, 1, 1, 2, 1, depth < 4 ? 5 : 0, raise ? 2 : 0, 1, 1, 1, 4})];
    o.eval = g.pick<int>({1, 2, 3, -4, 77});
    switch (o.kind) {
    case K_INFO: o.eval = g.pick<int>({errLevelInfo, errLevelDebug}); break;
    case K_LEVEL: o.eval = g.pick<int>({0, 3, 4, 2, 1}); break;
    case K_OVERRIDE: o.eval = g.range(0, 4); break;
    case K_WARNMODE: o.eval = g.range(0, 2); break;
    case K_UPDATE: o.eval = g.range(1, 5); break;
    case K_ERR: case K_WARN: case K_RAISE: o.errnum = g.flip() ? 0 : g.pick<int>({ENOENT, EINVAL}); break;
    }
    if (o.kind <= K_INFO || o.kind == K_RAISE) o.msg = strdup(gen_msg(g).c_str());
    // a section within a clause or at top level must not be left by an exception
    if (o.kind == K_TRY) o.node = gen_try(g, depth, !raise);
    ops.push_back(o);
  }
  blocks.push_back(ops); return (int)blocks.size() - 1;
}
static S showblock(int b);
static S shownode(int n) {
  const Node &d = nodes[n]; S s = fmt("try%d{", n) + showblock(d.body) + "}";
  if (d.has1) s += "catch1{" + showblock(d.c1) + "}" + (d.re1 ? "reraise " : "") + (d.fall1 ? "fall " : "");
  if (d.has2) s += "catch2{" + showblock(d.c2) + "}" + (d.re2 ? "reraise " : "");
  if (d.hasoth) s += "other{" + showblock(d.other) + "}" + (d.reo ? "reraise " : "");
  if (d.hasels) s += "else{" + showblock(d.els) + "}";
  if (d.hasfin) s += "finally{" + showblock(d.fin) + "}";
  return s;
}
static S showblock(int b) {
  static const char *names[] = {"err", "errx", "warn", "warnx", "info", "clear", "update", "try", "raise", "level", "override", "warnmode", "check"};
  S s; for (auto &o : blocks[b]) {
    if (o.kind == K_TRY) { s += shownode(o.node) + " "; continue; }
    s += names[o.kind]; if (o.kind != K_CLEAR && o.kind != K_CHECK) s += fmt("(%d", o.eval);
    if (o.errnum) s += fmt(",errno %d", o.errnum);
    if (o.msg) s += "," + shorten(o.msg);
    s += o.kind != K_CLEAR && o.kind != K_CHECK ? ") " : " ";
  }
  return s;
}

PBT(D30, records, 30000, 400000, 100, "random programs of errors, warnings, exceptions and (nested) guarded sections with all override, warning and level modes and messages up to twice the buffer size, against a model of the stack of error records; non-trivial: an error is raised inside a guarded section") {
  for (auto &b : blocks) for (auto &o : b) free(o.msg);
  blocks.clear(); nodes.clear(); trace.clear(); mtrace.clear();
  debugmode = g.weighted({4, 1, 1}); raises = debugmode == 0 && g.flip(); with_names = g.flip(); prefix = g.chance(1, 3) ? S("pre") + g.ident(4) : S();
  int top = gen_block(g, 0, false, 8);
  m_level = g.pick<int>({0, 3, 4, 2, 1}); m_override = g.range(0, 4); m_warn = g.range(0, 2);
  int l0 = m_level, o0 = m_override, w0 = m_warn;
  g.log("level %d override %d warn %d debug %d names %d prefix %s: %s", m_level, m_override, m_warn, debugmode, with_names, show(prefix).c_str(), showblock(top).c_str());
  for (auto &n : nodes) for (auto &o : blocks[n.body]) if (o.kind <= K_ERRX || o.kind == K_RAISE) { g.nontrivial(); break; }
  stack.clear(); stack.push_back(Rec());
  m_block(top);
  mev("end level %d eval %d msg %s", stack[0].level, stack[0].eval, shorten(stack[0].msg).c_str());
  err_set_stream(NULL); err_set_handler(handler); err_set_nameconv(with_names ? nameconv : NULL); err_set_prefix(prefix.c_str());
  err_set_level(l0); err_set_override_mode(o0); err_set_warn_mode(w0); err_set_debug_mode(debugmode); err_set_abort_mode(0); err_set_color_mode(errColorNever);
  err_clear();
  int nul = open("/dev/null", O_WRONLY), save = dup(2); fflush(stderr); dup2(nul, 2);   // "Warning: overwriting old error"
  run_block(top);
  fflush(stderr); dup2(save, 2); close(save); close(nul);
  ev("end level %d eval %d msg %s", err_getlevel(), err_geteval(), shorten(err_getmsg()).c_str());
  err_clear(); err_set_prefix(""); err_set_level(0); err_set_override_mode(0); err_set_warn_mode(0); err_set_debug_mode(0);
  for (size_t i = 0; i < std::max(trace.size(), mtrace.size()); i++) {
    S a = i < trace.size() ? trace[i] : "(nothing)", b = i < mtrace.size() ? mtrace[i] : "(nothing)";
    REQUIRE(a == b, "event %zu is [%s], expected [%s]", i, a.c_str(), b.c_str());
  }
  if (mtrace.size() > 8) g.label("more than 8 events");
}

// ------------------------------------------------------------ dlite
static int bitof(int code) { return code >= 0 ? 0 : code <= dliteLastError ? -dliteLastError : -code; }
static S slurp(FILE *f) { fflush(f); rewind(f); S s; int c; while ((c = fgetc(f)) != EOF) s += (char)c; return s; }

PBT(D30, dlite, 12000, 150000, 60, "errors and warnings issued through the dlite wrappers under random ignore masks, levels, hidden warnings with patterns and error streams; the text written is compared with the messages that should pass; non-trivial: some message is suppressed and some is printed") {
  static ErrHandler dh = NULL; static ErrNameConv dn = NULL;
  if (!dh) { dlite_init(); dlite_errval(); dlite_globals_get(); dh = err_get_handler(); dn = err_get_nameconv(); }
  err_set_handler(dh); err_set_nameconv(dn); err_set_prefix(""); err_set_debug_mode(0); err_set_color_mode(errColorNever); err_set_level(0); err_set_warn_mode(0);
  err_set_override_mode(errOverrideOld); dlite_errclr(); errno = 0;
  FILE *f = tmpfile(); REQUIRE(f, "tmpfile"); dlite_err_set_stream(f);
  S path = fmt("%s/%d-err.log", getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp", (int)getpid()); unlink(path.c_str());
  bool tofile = false; FILE *ff = NULL;
  std::set<int> mask; _dlite_err_mask_set(0); S want, wantfile; int level = 0, hide = 0, warn = 0; S pattern; bool haspat = false;
  dlite_set_warnings_hide(0, NULL);
  int n = g.size(25), shown = 0, hidden = 0;
  for (int k = 0; k < n; k++) {
    switch (g.weighted({8, 5, 4, 2, 3, 2, 1, 2, 1, 2})) {
    case 0: {
      int code = -g.range(1, -dliteLastError + 1); if (g.chance(1, 6)) code = g.range(1, 5);
      S m = "m" + g.text(15), line = S(dlite_errname((DLiteErrCode)code)) + "Error: " + m;
      g.log("error %d %s", code, show(m).c_str());
      errno = 0; int r = g.flip() ? dlite_errx(code, "%s", m.c_str()) : dlite_err(code, "%s", m.c_str());
      REQUIRE(r == code, "error function returns %d, expected %d", r, code);
      REQUIRE(dlite_errval() == code, "error value is %d, expected %d", dlite_errval(), code);
      REQUIRE(line == err_getmsg(), "message is %s, expected %s", show(err_getmsg()).c_str(), show(line).c_str());
      REQUIRE(m == dlite_errmsg(), "dlite_errmsg() is %s, expected %s", show(dlite_errmsg()).c_str(), show(m).c_str());
      bool ign = mask.count(bitof(code)) || (code > 0 && mask.count(1));
      REQUIRE(!!dlite_err_ignored_get((DLiteErrCode)code) == ign, "dlite_err_ignored_get(%d) is %d, expected %d", code, dlite_err_ignored_get((DLiteErrCode)code), ign);
      if (!ign) { (tofile ? wantfile : want) += "** " + line + "\n"; shown++; } else hidden++;
      break; }
    case 1: {
      S m = g.pick<S>({"deprecated: x", "alpha beta", "*", "a.b"}) + (g.chance(1, 3) ? g.ident(4) : S()), line = "Warning: " + m;
      g.log("warning %s", show(m).c_str());
      dlite_warnx("%s", m.c_str());
      if (level > errLevelWarn || warn == errWarnIgnore) { hidden++; break; }
      if (warn == errWarnError) {   // reported as an error without error code
        if (!mask.count(0)) { (tofile ? wantfile : want) += "** Error: " + m + "\n"; shown++; } else hidden++; break; }
      bool match = haspat && globmatch(pattern.c_str(), line.c_str()) == 0;
      bool pr = haspat ? (match && !hide) || (!match && hide) : !hide;
      // the documentation: hidden if it matches and hide, or does not match and not hide
      if (pr) { (tofile ? wantfile : want) += "** " + line + "\n"; shown++; } else hidden++;
      break; }
    case 2: {
      int code = -g.range(0, -dliteLastError), v = g.flip();
      g.log("ignore %d %d", code, v);
      dlite_err_ignored_set((DLiteErrCode)code, v); if (v) mask.insert(bitof(code)); else mask.erase(bitof(code));
      break; }
    case 3: level = g.pick<int>({0, 3, 4, 2}); g.log("level %d", level); if (g.flip()) dlite_err_set_level(level); else { const char *nm = err_getlevelname(level); REQUIRE(dlite_err_set_levelname(nm) && S(dlite_err_get_levelname()) == (level ? nm : "Warning"), "level name %s", nm); }
            REQUIRE(dlite_err_get_level() == (level ? level : errLevelWarn), "level is %d, expected %d", dlite_err_get_level(), level); break;
    case 4: {
      hide = g.flip(); haspat = g.flip(); pattern = g.pick<S>({"*deprecated*", "Warning: a*", "*b", "Warning: ?.b", "nothing"});
      g.log("hide warnings %d pattern %s", hide, haspat ? pattern.c_str() : "NULL");
      dlite_set_warnings_hide(hide, haspat ? (char *)pattern.c_str() : NULL);
      const char *q = NULL; int h = dlite_get_warnings_hide(&q);
      REQUIRE(h == hide && (haspat ? q && pattern == q : !q), "dlite_get_warnings_hide gives %d %s", h, show(q).c_str());
      break; }
    case 5: dlite_errclr(); REQUIRE(dlite_errval() == 0 && !*err_getmsg(), "error not cleared"); g.log("clear"); break;
    case 6: {
      const char *nm = g.pick<const char *>({"<stdout>", "<stderr>", ""}); dlite_err_set_file(nm);
      FILE *e = !strcmp(nm, "<stdout>") ? stdout : !*nm ? NULL : stderr;
      g.log("set file %s", nm);
      REQUIRE(dlite_err_get_stream() == e, "error stream is not %s", nm);
      dlite_err_set_stream(tofile ? ff : f); break; }
    case 7:
      if (!tofile && !ff) { g.log("errors to a file"); dlite_err_set_file(path.c_str()); ff = dlite_err_get_stream(); REQUIRE(ff && ff != f && ff != stdout && ff != stderr, "error file was not opened"); tofile = true; g.label("error file"); }
      else if (ff) { tofile = !tofile; dlite_err_set_stream(tofile ? ff : f); g.log("switch stream"); }
      break;
    case 8: warn = g.range(0, 2); g.log("warn mode %d", warn); dlite_err_set_warn_mode(warn); break;
    case 9: {   // a section in which some errors are not printed
      int c1 = -g.range(1, -dliteLastError - 1), c2 = -g.range(1, -dliteLastError - 1); g.log("section ignoring %d: error %d", c1, c2);
      DLiteErrMask before = *_dlite_err_mask_get();
      DLITE_NOERR(DLITE_ERRBIT(c1));
      dlite_errx(c2, "in section");
      DLITE_NOERR_END;
      REQUIRE(*_dlite_err_mask_get() == before, "mask not restored after the section");
      if (c1 != c2) (tofile ? wantfile : want) += S("** ") + dlite_errname((DLiteErrCode)c2) + "Error: in section\n";
      break; }
    }
  }
  if (shown && hidden) g.nontrivial();
  S got = slurp(f), gotfile; if (ff) { fflush(ff); FILE *r = fopen(path.c_str(), "r"); REQUIRE(r, "no error file"); gotfile = slurp(r); fclose(r); }
  dlite_err_set_stream(NULL); fclose(f); if (ff) fclose(ff); unlink(path.c_str());
  _dlite_err_mask_set(0); dlite_set_warnings_hide(0, NULL); err_set_level(0); err_set_warn_mode(0); dlite_errclr();
  REQUIRE(got == want, "written %s, expected %s", show(got).c_str(), show(want).c_str());
  REQUIRE(gotfile == wantfile, "written to the file %s, expected %s", show(gotfile).c_str(), show(wantfile).c_str());
}

PBT(D30, codes, 2000, 10000, 100, "names of error codes, and behaviours set and read in random order; non-trivial: a behaviour was set") {
  int code = -g.range(0, -dliteLastError + 3); DLiteErrCode c = (DLiteErrCode)code;
  const char *nm = dlite_errname(c); REQUIRE(nm, "no name for error %d", code);
  if (code > dliteLastError) { S full = S(nm) + "Error"; REQUIRE(dlite_errcode(nm) == code && dlite_errcode(full.c_str()) == code, "code of %s is %d, expected %d", nm, dlite_errcode(nm), code); REQUIRE(dlite_errdescr(c), "no description of %d", code); }
  else REQUIRE(S(nm) == "DLiteUndefined", "name of %d is %s", code, nm);
  REQUIRE(dlite_errcode("NoSuchThing") == dliteUnknownError, "code of an unknown name");
  size_t n = dlite_behavior_nrecords(); std::map<S, int> m;
  REQUIRE(n > 0, "no behaviours");
  for (size_t i = 0; i < n; i++) {
    const DLiteBehavior *b = dlite_behavior_recordno(i); REQUIRE(b && b->name, "no behaviour number %zu", i);
    REQUIRE(dlite_behavior_record(b->name) == b, "record of %s", b->name); m[b->name] = -1;
  }
  REQUIRE(m.size() == n, "behaviours have equal names");
  size_t big = n + g.size(100); REQUIRE(!dlite_behavior_recordno(big), "behaviour number %zu exists", big);
  int k = g.size(10);
  for (int i = 0; i < k; i++) {
    auto it = m.begin(); std::advance(it, g.below(n));
    if (g.flip()) { int v = g.flip(); REQUIRE(dlite_behavior_set(it->first.c_str(), v) == 0, "set %s", it->first.c_str()); it->second = v; g.log("%s = %d", it->first.c_str(), v); g.nontrivial(); }
    for (auto &x : m) if (x.second >= 0) REQUIRE(dlite_behavior_get(x.first.c_str()) == x.second, "behaviour %s is %d, expected %d", x.first.c_str(), dlite_behavior_get(x.first.c_str()), x.second);
  }
  S un = g.ident(8); if (m.count(un)) return;
  dlite_errclr(); REQUIRE(!dlite_behavior_record(un.c_str()) && dlite_behavior_get(un.c_str()) < 0 && dlite_behavior_set(un.c_str(), 1), "unknown behaviour %s accepted", un.c_str());
  REQUIRE(take_error() == dliteNameError, "no name error");
}
static void init() { dlite_err_set_stream(NULL); }
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
