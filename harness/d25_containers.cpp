// flavours: asan
// D25: hash map, JSON store and session registry against std::map.
#include "json.hpp"
#include "dmodel.hpp"
extern "C" {
#include "utils/map.h"
#include "utils/jstore.h"
#include "utils/session.h"
}
#include <fstream>
#ifdef VERIF_FLAVOUR_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t heap() { return 0; }
#endif

struct Big { double a; char pad[5]; uint64_t b; bool operator==(const Big &x) const { return a == x.a && b == x.b && !memcmp(pad, x.pad, 5); } };
typedef map_t(Big) map_big_t;

static std::vector<S> keys(Gen &g, bool json) {
  std::vector<S> k; int n = g.range(1, 4) * g.range(1, 12), mode = g.below(4);
  S al = mode == 0 ? "ab" : mode == 1 ? "abcdefgh" : mode == 2 ? S(json ? "\x01\x7f\n\"\\/ ab" : "\x01\x7f\x80\xff\"\\/ ") : "aA0-_/:.# ";
  for (int i = 0; i < n; i++) k.push_back(g.chance(1, 30) ? S() : mode == 3 && g.flip() ? (json && g.flip() ? g.text(8) : g.ident(40)) : g.chars(al, g.range(1, mode ? 6 : 12)));
  return k;
}

template <class M, class V, class F> static void run_map(Gen &g, F mk) {
  M m; map_init(&m); std::map<S, V> w; auto ks = keys(g, false);
  int n = g.size(150), removed = 0, replaced = 0;
  for (int i = 0; i < n; i++) {
    S k = g.pick(ks);
    switch (g.weighted({6, 3, 3, 1, 1})) {
    case 0: { V v = mk(g); replaced += w.count(k); g.log("set %s", show(k).c_str()); REQUIRE(map_set(&m, k.c_str(), v) == 0, "map_set"); w[k] = v; break; }
    case 1: { removed += w.count(k); g.log("remove %s", show(k).c_str()); map_remove(&m, k.c_str()); w.erase(k); break; }
    case 2: break;
    case 3: { auto *p = map_get(&m, k.c_str()); if (p) { g.log("assign %s", show(k).c_str()); *p = mk(g); w[k] = *p; } break; }
    case 4: if (g.chance(1, 6)) { g.log("deinit"); map_deinit(&m); map_init(&m); w.clear(); } break;
    }
    auto *p = map_get(&m, k.c_str());
    REQUIRE(!!p == !!w.count(k), "map_get of %s gives %s entry", show(k).c_str(), p ? "an unexpected" : "no");
    if (p) REQUIRE(*p == w[k], "map_get of %s gives another value", show(k).c_str());
    if (g.chance(1, 12) || i == n - 1) {
      std::set<S> seen; map_iter_t it = map_iter(&m); const char *key;
      while ((key = map_next(&m, &it))) { REQUIRE(w.count(key), "iteration gives %s, which is not in the map", show(key).c_str()); REQUIRE(seen.insert(key).second, "iteration gives %s twice", show(key).c_str()); }
      REQUIRE(seen.size() == w.size(), "iteration gives %zu of %zu keys", seen.size(), w.size());
      for (auto &kv : w) { auto *q = map_get(&m, kv.first.c_str()); REQUIRE(q && *q == kv.second, "entry %s is wrong", show(kv.first).c_str()); }
    }
  }
  map_deinit(&m);
  if (removed && replaced) g.nontrivial();
}
PBT(D25, map, 8000, 200000, 128, "random histories of set, replace, assign through the returned pointer, remove, get, iterate and deinit on hash maps of int, pointer, double and struct; non-trivial: at least one key removed and one replaced") {
  switch (g.below(4)) {
  case 0: run_map<map_int_t, int>(g, [](Gen &g) { return (int)g.raw(1000000); }); break;
  case 1: run_map<map_void_t, void *>(g, [](Gen &g) { return (void *)g.raw(1000000); }); break;
  case 2: run_map<map_double_t, double>(g, [](Gen &g) { return (double)g.raw(1000000); }); break;
  default: run_map<map_big_t, Big>(g, [](Gen &g) { Big b; memset(&b, 0, sizeof b); b.a = g.raw(1000); b.b = g.raw(UINT64_MAX); for (auto &c : b.pad) c = g.raw(255); return b; });
  }
}

// ---- JSON store
static S jstring(Gen &g) {
  S s = "\""; int n = g.size(12);
  for (int i = 0; i < n; i++) switch (g.below(5)) { case 0: s += g.pick<S>({"\\\"", "\\\\", "\\n", "\\u00e5", "\\/", "\\t"}); break; case 1: s += "{}[],: '\x7f"[g.below(9)]; break; default: s += "abcxyz09 "[g.below(9)]; }
  return s + "\"";
}
static S ws(Gen &g) { return g.chance(1, 4) ? g.chars(" \n\t", g.range(1, 3)) : S(); }
static S jvalue(Gen &g, int depth) {
  switch (g.below(depth > 0 ? 6 : 4)) {
  case 0: return fmt("%" PRId64, g.i64());
  case 1: return g.pick<S>({"true", "false", "null", "1.5e-3", "-0", "0"});
  case 2: return jstring(g);
  case 3: return g.flip() ? "{}" : "[]";
  case 4: { S s = "["; int n = g.range(0, 4); for (int i = 0; i < n; i++) s += (i ? "," : "") + ws(g) + jvalue(g, depth - 1) + ws(g); return s + "]"; }
  default: { S s = "{"; int n = g.range(0, 4); for (int i = 0; i < n; i++) s += (i ? "," : "") + ws(g) + jstring(g) + ws(g) + ":" + ws(g) + jvalue(g, depth - 1) + ws(g); return s + "}"; }
  }
}
typedef std::map<S, S> JM;
static void checkjs(JStore *js, const JM &w, const S &what) {
  REQUIRE(jstore_count(js) == (int)w.size(), "%s: count is %d, expected %zu", what.c_str(), jstore_count(js), w.size());
  for (auto &kv : w) { const char *v = jstore_get(js, kv.first.c_str()); REQUIRE(v && v == kv.second, "%s: value of %s is %s, expected %s", what.c_str(), show(kv.first).c_str(), show(v).c_str(), show(kv.second).c_str()); }
  JStoreIter it; std::set<S> seen; jstore_iter_init(js, &it);
  while (const char *k = jstore_iter_next(&it)) { REQUIRE(w.count(k), "%s: unexpected key %s", what.c_str(), show(k).c_str()); REQUIRE(seen.insert(k).second, "%s: key %s is visited twice", what.c_str(), show(k).c_str()); }
  jstore_iter_deinit(&it);
  REQUIRE(seen.size() == w.size(), "%s: %zu of %zu keys are visited", what.c_str(), seen.size(), w.size());
  const char *one = jstore_get_single_key(js);
  if (w.size() == 1) REQUIRE(one && w.begin()->first == one, "%s: single key is %s", what.c_str(), show(one).c_str());
  else REQUIRE(!one, "%s: single key of %zu entries is %s", what.c_str(), w.size(), show(one).c_str());
}
static S objtext(Gen &g, const std::vector<S> &ks, JM &w) {
  S s = ws(g) + "{"; int n = g.range(0, 5);
  for (int i = 0; i < n; i++) { S k = g.pick(ks), v = jvalue(g, 2); w[k] = v; s += (i ? "," : "") + ws(g) + js::print(js::str(k), &g) + ws(g) + ":" + ws(g) + v + ws(g); }
  return s + ws(g) + "}" + ws(g);
}
struct Buf { char *p; size_t n; Buf(const S &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); } ~Buf() { free(p); } };
static S slurpf(const S &f) { std::ifstream i(f, std::ios::binary); return S(std::istreambuf_iterator<char>(i), {}); }
static void spit(const S &f, const S &t) { std::ofstream o(f, std::ios::binary); o << t; }

static void jstore_body(Gen &g) {
  auto ks = keys(g, true); int ns = g.range(1, 2); std::vector<JStore *> js; std::vector<JM> w(ns); std::map<S, S> file; bool havefile = false; std::map<S, S> lab[2];
  S dir = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp", path = fmt("%s/js-%d.json", dir.c_str(), (int)getpid());
  for (int i = 0; i < ns; i++) { js.push_back(jstore_open()); REQUIRE(js[i], "jstore_open"); }
  int n = g.size(40); bool text = false, rm = false;
  for (int op = 0; op < n; op++) {
    int i = g.below(ns); S k = g.pick(ks), v; JStore *j = js[i];
    switch (g.weighted({4, 2, 2, 3, 3, 1, 3, 2, 2, 2, 2})) {
    case 0: v = jvalue(g, 2); g.log("%d add %s %s", i, show(k).c_str(), v.c_str()); REQUIRE(jstore_add(j, k.c_str(), v.c_str()) == 0, "add"); w[i][k] = v; break;
    case 1: { v = jvalue(g, 2); if (k.empty()) break; Buf kb(k), vb(v); g.log("%d addn %s %s", i, show(k).c_str(), v.c_str()); REQUIRE(jstore_addn(j, kb.p, kb.n, vb.p, vb.n) == 0, "addn"); w[i][k] = v; break; }
    case 2: v = jvalue(g, 1); g.log("%d addstolen %s %s", i, show(k).c_str(), v.c_str()); REQUIRE(jstore_addstolen(j, k.c_str(), strdup(v.c_str())) == 0, "addstolen"); w[i][k] = v; break;
    case 3: { g.log("%d remove %s", i, show(k).c_str()); int r = jstore_remove(j, k.c_str()); rm |= !r; REQUIRE(!r == !!w[i].erase(k), "remove of %s returns %d", show(k).c_str(), r); break; }
    case 4: { JM add; S t = objtext(g, ks, add); Buf b(t); g.log("%d update from %s", i, show(t).c_str()); REQUIRE(jstore_update_from_string(j, b.p, (int)b.n) == 0, "update from %s fails", show(t).c_str()); for (auto &kv : add) w[i][kv.first] = kv.second; text = true; break; }
    case 5: { S t = g.pick<S>({"[1, 2]", "\"x\"", "{\"a\": 1", "{\"a\" 1}}", "", " ", "{\"a\": [1}", "3", "{]"}); Buf b(t); g.log("%d bad update from %s", i, show(t).c_str()); REQUIRE(jstore_update_from_string(j, b.p, (int)b.n), "an update from %s is accepted", show(t).c_str()); take_error(); break; }
    case 6: { int o = g.below(ns); g.log("%d update with %d", i, o); REQUIRE(jstore_update(j, js[o]) == 0, "update"); for (auto &kv : JM(w[o])) w[i][kv.first] = kv.second; break; }
    case 7: { g.log("%d to string and back", i); char *s = jstore_to_string(j); REQUIRE(s, "to_string"); JStore *c = jstore_open(); Buf b(s); free(s);
      js::dup_ok = true; js::V doc = js::parse(S(b.p, b.n), "store"); REQUIRE(doc.o.size() == w[i].size(), "the text has %zu entries, expected %zu", doc.o.size(), w[i].size()); for (auto &kv : w[i]) REQUIRE(doc.get(kv.first), "the text lacks key %s", show(kv.first).c_str());
      REQUIRE(jstore_update_from_string(c, b.p, (int)b.n) == 0, "the text %s of the store cannot be read", show(S(b.p, b.n)).c_str()); checkjs(c, w[i], "store read back from " + show(S(b.p, b.n))); jstore_close(c); text = true; break; }
    case 8: { g.log("%d to file", i); REQUIRE(jstore_to_file(j, path.c_str()) == 0, "to_file"); file = w[i]; havefile = true; break; }
    case 9: if (havefile) {
      if (g.flip()) { g.log("update file from %d", i); REQUIRE(jstore_update_file(j, path.c_str()) == 0, "update_file"); for (auto &kv : w[i]) file[kv.first] = kv.second; }
      else { g.log("%d from file", i); REQUIRE(jstore_update_from_file(j, path.c_str()) == 0, "update_from_file"); for (auto &kv : file) w[i][kv.first] = kv.second; }
      text = true; break; } break;
    default: {
      S l = g.flip() ? g.ident() : S(); Buf b(l); g.log("%d label %s %s", i, show(k).c_str(), show(l).c_str());
      if (g.flip()) REQUIRE(jstore_set_labeln(j, k.c_str(), b.p, (int)b.n) == 0, "set_labeln"); else REQUIRE(jstore_set_label(j, k.c_str(), l.c_str()) == 0, "set_label");
      lab[i][k] = l; break; }
    }
    for (int q = 0; q < ns; q++) { checkjs(js[q], w[q], fmt("store %d", q)); for (auto &kv : lab[q]) { const char *l = jstore_get_label(js[q], kv.first.c_str()); REQUIRE(l && kv.second == l, "label of %s is %s, expected %s", show(kv.first).c_str(), show(l).c_str(), show(kv.second).c_str()); }
      S nk = "not-there"; REQUIRE(!jstore_get_label(js[q], nk.c_str()) && !jstore_get(js[q], nk.c_str()), "an unknown key has a value"); }
    REQUIRE(!dlite_errval(), "an error is left behind: %s", dlite_errmsg());
  }
  if (havefile) { JStore *c = jstore_open(); REQUIRE(jstore_update_from_file(c, path.c_str()) == 0, "reading the file"); checkjs(c, file, "file"); jstore_close(c); unlink(path.c_str()); }
  for (auto j : js) jstore_close(j);
  if (text && rm) g.nontrivial();
}
template <class F> static void balanced(Gen &g, F f, const char *what) {
  size_t h = heap(); f(g); size_t h2 = heap();
  REQUIRE(h == h2, "%s: %zd bytes of memory are not released", what, (ssize_t)(h2 - h));
}
PBT(D25, jstore, 5000, 100000, 64, "random histories of adding, replacing, removing, merging, and reading and writing JSON stores as text and files; non-trivial: text was parsed and an entry removed") { balanced(g, jstore_body, "JSON stores"); }

PBT(D25, readfp, 400, 5000, 32, "reading files of sizes around powers of two; non-trivial: file longer than 500 bytes") {
  S dir = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp", path = fmt("%s/jr-%d", dir.c_str(), (int)getpid());
  int n = g.flip() ? (1 << g.range(0, 14)) + g.range(-2, 2) : g.size(3000); if (n < 0) n = 0;
  S t; int c = g.below(26); for (int i = 0; i < n; i++) t += (char)('a' + (i * 7 + c) % 26);
  spit(path, t); g.log("%d bytes", n);
  char *s = jstore_readfile(path.c_str()); unlink(path.c_str());
  REQUIRE(s && t == s, "a file of %d bytes is read as %zu bytes", n, s ? strlen(s) : 0); free(s);
  REQUIRE(!jstore_readfile(path.c_str()), "a file that does not exist was read"); take_error();
  if (n > 500) g.nontrivial();
}

// ---- sessions
static std::map<void *, int> freed;
static void freefun(void *p) { freed[p]++; }
static void session_body(Gen &g) {
  struct St { void *p; bool fun; }; struct Se { Session *s; std::map<S, St> st; };
  std::map<S, Se> w; S def; bool hasdef = false; static char pool[4096]; int np = 0; bool dead = false; const S D = ":default-session:";
  std::map<void *, int> expect; freed.clear();
  std::vector<S> ids = {"a", "b", "", "longer session id"}, names = {"x", "y", "z", "", "name"}; for (int i = g.range(0, 40); i > 0; i--) names.push_back(g.ident(6));
  auto done = [&](Se &s) { for (auto &kv : s.st) if (kv.second.fun) expect[kv.second.p]++; };
  int n = g.size(60);
  for (int op = 0; op < n; op++) {
    S id = g.pick(ids), nm = g.pick(names);
    switch (g.weighted({3, 1, 2, 1, 6, 3, 2})) {
    case 0: { g.log("create %s", show(id).c_str()); Session *s = session_create(id.c_str()); REQUIRE(!!s == !w.count(id), "creating session %s gives %p", show(id).c_str(), (void *)s); if (s) w[id] = {s, {}}; else take_error(); break; }
    case 1: { auto it = w.find(g.chance(1, 4) && hasdef ? def : id); if (it == w.end()) break; g.log("free %s", show(it->first).c_str()); session_free(it->second.s); done(it->second); if (hasdef && def == it->first) hasdef = false; w.erase(it); dead = true; break; }
    case 2: { g.log("get default"); Session *s = session_get_default(); REQUIRE(s, "no default session"); if (hasdef) REQUIRE(s == w[def].s, "the default session is %s, expected %s", show(session_get_id(s)).c_str(), show(def).c_str());
      else { REQUIRE(!w.count(D), "internal"); w[D] = {s, {}}; def = D; hasdef = true; } break; }
    case 3: { auto it = w.find(id); if (it == w.end()) break; g.log("set default %s", show(id).c_str()); int r = session_set_default(it->second.s);
      if (hasdef && def != id) { REQUIRE(r == -3, "replacing the default session returns %d", r); take_error(); } else { REQUIRE(r == 0, "set_default returns %d", r); hasdef = true; def = id; } break; }
    case 4: { auto it = w.find(g.chance(1, 4) && hasdef ? def : id); if (it == w.end()) break; void *p = pool + np++; bool fun = g.chance(2, 3); g.log("%s add %s", show(it->first).c_str(), show(nm).c_str());
      int r = session_add_state(it->second.s, nm.c_str(), p, fun ? freefun : NULL); REQUIRE(!r == !it->second.st.count(nm), "add_state of %s returns %d", show(nm).c_str(), r); if (!r) it->second.st[nm] = {p, fun}; else take_error(); break; }
    case 5: { auto it = w.find(g.chance(1, 4) && hasdef ? def : id); if (it == w.end()) break; g.log("%s remove %s", show(it->first).c_str(), show(nm).c_str()); auto &st = it->second.st;
      int r = session_remove_state(it->second.s, nm.c_str()); REQUIRE(!r == !!st.count(nm), "remove_state of %s returns %d", show(nm).c_str(), r); if (!r) { if (st[nm].fun) expect[st[nm].p]++; st.erase(nm); dead = true; } else take_error(); break; }
    default: { Session *s = session_get(id.c_str()); REQUIRE(s == (w.count(id) ? w[id].s : NULL), "session_get %s", show(id).c_str()); if (!s) take_error(); }
    }
    for (auto &kv : w) {
      REQUIRE(session_get(kv.first.c_str()) == kv.second.s, "session %s is another one", show(kv.first).c_str());
      REQUIRE(kv.first == session_get_id(kv.second.s), "id of session %s is %s", show(kv.first).c_str(), show(session_get_id(kv.second.s)).c_str());
      for (auto &x : names) { auto it = kv.second.st.find(x); void *p = session_get_state(kv.second.s, x.c_str()), *q = it == kv.second.st.end() ? NULL : it->second.p; REQUIRE(p == q, "state %s of session %s is %s", show(x).c_str(), show(kv.first).c_str(), !p ? "missing" : q ? "another one" : "there"); }
    }
    REQUIRE(freed == expect, "the states that were freed are not those removed");
  }
  std::vector<S> left; for (auto &kv : w) left.push_back(kv.first);
  while (!left.empty()) { int i = g.below(left.size()); session_free(w[left[i]].s); done(w[left[i]]); left.erase(left.begin() + i); }
  REQUIRE(freed == expect, "the states that were freed are not those of the freed sessions");
  freed.clear();
  if (dead && n > 5) g.nontrivial();
}
PBT(D25, session, 5000, 100000, 64, "random histories of creating, freeing and finding sessions, of the default session and of states with and without a free function; non-trivial: a session was freed or a state removed") { balanced(g, session_body, "sessions"); }

static void init() { dlite_err_set_stream(NULL); dlite_errclr(); Session *s = session_create("warm-up"); session_free(s); session_create("warm-up"); session_free(session_get("warm-up")); session_get("nono"); dlite_errclr(); }
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
