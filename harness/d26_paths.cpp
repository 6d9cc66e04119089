// flavours: asan
// D26: path manipulation, path lists and file iteration.
#include "dmodel.hpp"
extern "C" {
#include "utils/fileutils.h"
}
#include <fstream>
#ifdef VERIF_FLAVOUR_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
#endif
template <class F> static void balanced(Gen &g, F f, const char *what) {
  size_t h = heap(); f(g); size_t h2 = heap();
  REQUIRE(h == h2, "%s: %zd bytes of memory are not released", what, (ssize_t)(h2 - h));
}
struct CStr { char *p; size_t n; CStr(const S &s) : p((char *)malloc(s.size() + 1)), n(s.size()) { memcpy(p, s.c_str(), n + 1); } ~CStr() { free(p); } };
static S own(char *p) { if (!p) fail("no result: %s", dlite_errmsg()); S s = p; free(p); return s; }
static bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }

static S comp(Gen &g) { return g.pick<S>({"a", "bb", "ccc.txt", "x.tar.gz", "..", ".", ".hid", "", "name.", "d", "sp ace", "\xc3\xa5", "C", "v1.2"}); }
static S anypath(Gen &g, bool back) {
  S s; int n = g.range(0, 5);
  if (g.chance(1, 3)) s += "/"; if (back && g.chance(1, 6)) s += g.pick<S>({"C:", "c:\\", "\\\\", "\\", "D:/"});
  for (int i = 0; i < n; i++) { if (i) s += back && g.chance(1, 3) ? "\\" : g.chance(1, 8) ? "//" : "/"; s += comp(g); }
  if (g.chance(1, 6)) s += "/";
  return s;
}
static bool m_isabs(const S &p) { return (!p.empty() && (p[0] == '/' || p[0] == '\\')) || (p.size() >= 2 && al(p[0]) && p[1] == ':'); }
static bool m_iswin(const S &p) {
  if (p.size() > 2 && p[0] == '\\' && p[1] == '\\' && p[2] != '\\') return true;
  if (p.size() < 2 || !al(p[0]) || p[1] != ':') return false;
  return !(p.size() >= 4 && p[2] == '/' && p[3] == '/');
}

PBT(D26, parts, 20000, 400000, 512, "directory, base name, stem, extension, separators and joins of random paths; non-trivial: a path with a directory part and an extension, or a join in which something is absolute or empty") {
  S p = anypath(g, true); CStr c(p); g.log("path %s", show(p).c_str());
  size_t sl = p.rfind('/');
  char *ls = fu_lastsep(c.p); REQUIRE(sl == S::npos ? !ls : ls == c.p + sl, "fu_lastsep of %s", show(p).c_str());
  S base = sl == S::npos ? p : p.substr(sl + 1), dir = sl == S::npos ? S() : sl == 0 ? S("/") : p.substr(0, sl);
  size_t dot = base.rfind('.'); S ext = dot == S::npos ? S() : base.substr(dot + 1), stem = ext.empty() ? base : base.substr(0, dot);
  S x;
  x = own(fu_basename(c.p)); REQUIRE(x == base, "base name of %s is %s, expected %s", show(p).c_str(), show(x).c_str(), show(base).c_str());
  x = own(fu_dirname(c.p)); REQUIRE(x == dir, "directory of %s is %s, expected %s", show(p).c_str(), show(x).c_str(), show(dir).c_str());
  const char *e = fu_fileext(c.p); REQUIRE(e >= c.p && e <= c.p + c.n && ext == e, "extension of %s is %s, expected %s", show(p).c_str(), show(e).c_str(), show(ext).c_str());
  x = own(fu_stem(c.p)); if (dot == S::npos || !ext.empty()) REQUIRE(x == stem, "stem of %s is %s, expected %s", show(p).c_str(), show(x).c_str(), show(stem).c_str());
  REQUIRE(!!fu_isabs(c.p) == m_isabs(p), "fu_isabs of %s", show(p).c_str());
  REQUIRE(!!fu_iswinpath(c.p, -1) == m_iswin(p), "fu_iswinpath of %s", show(p).c_str());
  { int n = g.range(0, p.size()); char *q = (char *)malloc(n ? n : 1); memcpy(q, p.data(), n); bool r = fu_iswinpath(q, n); free(q); REQUIRE(r == m_iswin(p.substr(0, n)), "fu_iswinpath of the first %d bytes of %s", n, show(p).c_str()); }
  REQUIRE(S(fu_friendly_dirsep(c.p)) == p, "fu_friendly_dirsep changes %s", show(p).c_str());
  // joins
  S w[4]; int n = g.range(1, 4); for (int i = 0; i < n; i++) { w[i] = g.chance(1, 3) ? anypath(g, true) : g.chance(1, 5) ? S() : comp(g); g.log("join %s", show(w[i]).c_str()); }
  int k = 0; for (int i = 1; i < n; i++) if (m_isabs(w[i])) k = i;
  char sep = g.pick({'/', '/', '\\', '|'}); S want = w[k];
  for (int i = k + 1; i < n; i++) { if (!want.empty() && want.back() != '/' && want.back() != sep) want += sep; want += w[i]; }
  const char *a = w[0].c_str(), *b = n > 1 ? w[1].c_str() : NULL, *cc = n > 2 ? w[2].c_str() : NULL, *d = n > 3 ? w[3].c_str() : NULL;
  x = own(sep == '/' && g.flip() ? fu_join(a, b, cc, d, NULL) : fu_join_sep(sep, a, b, cc, d, NULL));
  REQUIRE(x == want, "joining gives %s, expected %s", show(x).c_str(), show(want).c_str());
  if ((!dir.empty() && !ext.empty()) || k > 0) g.nontrivial();
}

// ---- lists of paths
static S relem(Gen &g, bool forward) {   // a path component of at least two characters without separators
  return g.pick<S>({"usr", "bin", "file.txt", "..", "mrx", "dir", "x-y_z", "sp ace", "n1"});
}
struct El { S src, unix_, win; };
static El element(Gen &g, bool forwin, bool lists) {   // path + its conversion to either platform
  El e; int n = g.range(1, 4); auto join = [&](const S &sep, bool rep) { S s; for (int i = 0; i < n; i++) { (void)i; } return s; };
  (void)join; std::vector<S> w; for (int i = 0; i < n; i++) w.push_back(relem(g, forwin));
  int kind = g.weighted({4, 3, 3, 3, 2, 2}); S src, u, wi; char drive = (char)('a' + g.below(26)); if (g.flip()) drive = toupper(drive);
  auto body = [&](const S &first) {
    src = first; u = wi = "";
    for (int i = 0; i < n; i++) { if (i) { src += g.flip() ? "/" : "\\"; while (g.chance(1, 6)) src += g.flip() ? "/" : "\\"; u += "/"; wi += "\\"; } src += w[i]; u += w[i]; wi += w[i]; }
    if (g.chance(1, 6)) { src += g.flip() ? "/" : "\\"; u += "/"; wi += "\\"; }
  };
  switch (kind) {
  case 0: body(""); break;                                            // relative
  case 1: body("/"); u = "/" + u; wi = "\\" + wi; break;              // absolute
  case 2: { body(S(1, drive) + ":" + (g.flip() ? "\\" : "/")); src = src; u = S("/") + (char)tolower(drive) + "/" + u; wi = src.substr(0, 2) + "\\" + wi; break; } // drive
  case 3: { body(S("/") + drive + "/"); u = S("/") + drive + "/" + u; wi = S(1, (char)toupper(drive)) + ":\\" + wi; break; }   // drive, unix style
  case 4: { S url = g.pick<S>({"http://example.com/a/b.html", "https://ex.org", "postgresql://host/db?user=guest", "file:///tmp/x"}); if (lists && url.compare(0, 5, "file:") == 0) url = "http://ex.com//x"; src = u = wi = url; break; }
  default: body("\\\\"); u = "/" + u; wi = "\\\\" + wi;              // UNC path
  }
  e.src = src; e.unix_ = u; e.win = wi; return e;
}
static S cut(const S &s, size_t size) { return size ? s.substr(0, std::min(s.size(), size - 1)) : S(); }

PBT(D26, convert, 20000, 400000, 512, "converting single paths and path lists between Unix and Windows conventions, with allocated and caller's buffers of any size; non-trivial: a list of at least two paths, or a path with a drive") {
  bool one = g.chance(1, 3); int n = one ? 1 : g.range(1, 5); S src, u, w; bool explicit_sep = g.chance(1, 3), drive = false; const char *ps = one ? "" : explicit_sep ? "|" : NULL; std::vector<El> els;
  for (int i = 0; i < n; i++) {
    El e = element(g, false, true); els.push_back(e); drive |= m_iswin(e.src) || (e.win.size() > 1 && e.win[1] == ':');
    src += e.src; u += e.unix_; w += e.win;
    if (i + 1 < n) { S sp = explicit_sep ? "|" : g.flip() ? ":" : ";"; src += sp; while (g.chance(1, 6)) src += sp; u += explicit_sep ? "|" : ":"; w += ";"; }
  }
  CStr c(src); g.log("%s", show(src).c_str());
  // the list itself
  if (!one) {
    char *end = NULL; const char *p; size_t k = 0;
    while ((p = fu_nextpath(c.p, &end, ps))) {
      REQUIRE(p >= c.p && end >= p && end <= c.p + c.n, "fu_nextpath leaves the string");
      S x(p, end - p); REQUIRE(k < els.size() && x == els[k].src, "path %zu of %s is %s", k, show(src).c_str(), show(x).c_str()); k++;
    }
    REQUIRE(k == els.size() && end && !*end, "%s has %zu paths, expected %zu", show(src).c_str(), k, els.size());
  }
  for (int win = 0; win < 2; win++) {
    auto f = win ? fu_winpath : fu_unixpath; const S &want = win ? w : u; const char *nm = win ? "fu_winpath" : "fu_unixpath";
    S x = own(f(c.p, NULL, 0, ps)); REQUIRE(x == want, "%s of %s is %s, expected %s", nm, show(src).c_str(), show(x).c_str(), show(want).c_str());
    size_t size = g.range(1, want.size() + 3); char *buf = (char *)malloc(size); memset(buf, 'X', size);
    char *r = f(c.p, buf, size, ps); REQUIRE(r == buf && memchr(buf, 0, size), "%s of %s into %zu bytes is not terminated", nm, show(src).c_str(), size);
    x = buf; free(buf); REQUIRE(x == cut(want, size), "%s of %s into %zu bytes gives %s, expected %s", nm, show(src).c_str(), size, show(x).c_str(), show(cut(want, size)).c_str());
    if (!win) REQUIRE(own(fu_nativepath(c.p, NULL, 0, ps)) == u, "fu_nativepath differs from fu_unixpath");
  }
  if (one && els[0].src.compare(0, 2, "\\\\") && src.find("://") == S::npos) {   // round trips
    S a = own(fu_winpath(u.c_str(), NULL, 0, "")), b = own(fu_unixpath(a.c_str(), NULL, 0, ""));
    S lu = u; if (a.size() > 1 && a[1] == ':') lu[1] = tolower(lu[1]);
    REQUIRE(b == lu, "%s becomes %s on Windows and %s back on Unix", show(u).c_str(), show(a).c_str(), show(b).c_str());
  }
  if (n > 1 || drive) g.nontrivial();
}

PBT(D26, nextpath, 10000, 200000, 512, "splitting arbitrary strings at arbitrary separators stays inside the string; non-trivial: at least two separators in a row") {
  S sep = g.pick<S>({":", ";", "|", ";:", ":;|", ""}), s = g.chars("ab:;|/\\ C", g.range(0, 14)); bool null = g.chance(1, 3); CStr c(s); g.log("%s at %s", show(s).c_str(), null ? "NULL" : show(sep).c_str());
  std::vector<S> want, got; S cur; bool rep = false; for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || sep.find(s[i]) != S::npos) { if (!cur.empty()) want.push_back(cur); else rep = true; cur = ""; } else cur += s[i];
  char *end = NULL; const char *p; int k = 0;
  while ((p = fu_nextpath(c.p, &end, null ? NULL : sep.c_str()))) {
    REQUIRE(p >= c.p && end >= p && end <= c.p + c.n, "fu_nextpath of %s leaves the string", show(s).c_str()); REQUIRE(k++ < 40, "fu_nextpath of %s does not end", show(s).c_str());
    if (end > p) got.push_back(S(p, end - p));
  }
  if (!null) REQUIRE(got == want, "%s is split at %s into %zu paths, expected %zu", show(s).c_str(), show(sep).c_str(), got.size(), want.size());
  else for (auto &x : got) REQUIRE(x.find(';') == S::npos, "path %s has a separator", show(x).c_str());
  if (rep) g.nontrivial();
}

struct PL { std::vector<S> v; };
static int m_insert(std::vector<S> &v, const S &p, int n) {
  int len = v.size(); if (n < -len || n > len) return -1; if (n < 0) n += len;
  auto it = std::find(v.begin(), v.end(), p);
  if (it != v.end()) { int i = it - v.begin(); if (i == n || (n == len && i == len - 1)) return i; v.erase(it); if (n > i) n--; }
  v.insert(v.begin() + n, p); return n;
}
static char envbuf[8192] = "VERIF_PATHS=";
static void pathlist(Gen &g) {
  FUPaths ps; std::vector<S> v; bool win = false; S env = "VERIF_PATHS", sep = ":"; bool custom = g.chance(1, 3); std::vector<El> voc; S prefix = g.pick<S>({"/root/share", "rel", "/x"});
  for (int i = g.range(1, 4) * g.range(1, 10); i > 0; i--) { El e = element(g, false, true); if (e.src.find("://") != S::npos && g.flip()) continue; voc.push_back(e); } if (voc.empty()) voc.push_back(element(g, false, false));
  auto conv = [&](const El &e) { return win ? e.win : e.unix_; };
  if (custom) sep = "|";
  bool useenv = g.flip(); S ev; int ne = useenv ? g.range(0, 4) : 0; for (int i = 0; i < ne; i++) { El e = g.pick(voc); if (e.src.find_first_of(":;") != S::npos) continue; if (!ev.empty()) ev += sep; ev += e.src; m_insert(v, e.unix_, v.size()); }
  if (ev.empty()) useenv = useenv && g.flip(); snprintf(envbuf, sizeof envbuf, "VERIF_PATHS=%s", ev.c_str()); if (ev.empty()) env = "VERIF_NO_PATHS";
  g.log("init %s", show(ev).c_str());
  int r = custom ? fu_paths_init_sep(&ps, useenv ? env.c_str() : NULL, "|") : fu_paths_init(&ps, useenv ? env.c_str() : NULL); REQUIRE(r >= 0, "fu_paths_init"); if (!useenv) v.clear();
  int n = g.size(50); bool moved = false;
  for (int op = 0; op < n; op++) {
    El e = g.pick(voc); S p = conv(e); int len = v.size();
    switch (g.weighted({5, 4, 2, 3, 2, 2, 1, 2})) {
    case 0: { g.log("append %s", show(e.src).c_str()); moved |= std::find(v.begin(), v.end(), p) != v.end(); int w = m_insert(v, p, len); int r; if (g.flip()) r = fu_paths_append(&ps, e.src.c_str()); else { char *q = (char *)malloc(e.src.size()); memcpy(q, e.src.data(), e.src.size()); r = fu_paths_appendn(&ps, q, e.src.size()); free(q); }
      REQUIRE(r == w, "append returns %d, expected %d", r, w); break; }
    case 1: { int i = g.range(-len - 1, len + 1); g.log("insert %s at %d", show(e.src).c_str(), i); moved |= std::find(v.begin(), v.end(), p) != v.end(); int w = m_insert(v, p, i), r;
      if (g.flip()) r = fu_paths_insert(&ps, e.src.c_str(), i); else { char *q = (char *)malloc(e.src.size()); memcpy(q, e.src.data(), e.src.size()); r = fu_paths_insertn(&ps, q, e.src.size(), i); free(q); }
      REQUIRE(r == w, "insert at %d returns %d, expected %d", i, r, w); if (r < 0) take_error(); break; }
    case 2: { int i = g.range(-len - 1, len + 1); g.log("remove index %d", i); int r = fu_paths_remove_index(&ps, i); bool ok = i >= -len && i < len; REQUIRE(!r == ok, "remove_index %d of %d returns %d", i, len, r); if (ok) v.erase(v.begin() + (i < 0 ? i + len : i)); else take_error(); break; }
    case 3: { g.log("remove %s", show(p).c_str()); int r = fu_paths_remove(&ps, p.c_str()); auto it = std::find(v.begin(), v.end(), p); REQUIRE(!r == (it != v.end()), "remove of %s returns %d", show(p).c_str(), r); if (it != v.end()) v.erase(it); break; }
    case 4: case 5: { S s; int k = g.range(1, 4), w = 0; bool pre = g.flip(); std::vector<El> add; for (int i = 0; i < k; i++) { El x = g.pick(voc); if (x.src.find('|') != S::npos) continue; if (!s.empty()) s += "|"; s += x.src; add.push_back(x); }
      for (auto &x : add) { S c = conv(x); if (pre && !m_isabs(x.src)) { El y; S src = prefix + "/" + x.src; y.src = src; c = own((win ? fu_winpath : fu_unixpath)(src.c_str(), NULL, 0, "")); } w = m_insert(v, c, v.size()); }
      g.log("extend%s %s", pre ? " with prefix" : "", show(s).c_str());
      int r = pre ? fu_paths_extend_prefix(&ps, prefix.c_str(), s.c_str(), "|") : fu_paths_extend(&ps, s.c_str(), "|"); REQUIRE(r == w, "extend returns %d, expected %d", r, w); break; }
    case 6: if (win || g.chance(1, 3)) { bool to = !win; g.log("set platform %d", (int)to); int r = fu_paths_set_platform(&ps, to ? fuWindows : fuUnix); REQUIRE(r == (win ? fuWindows : fuUnix), "set_platform returns %d", r); REQUIRE(fu_paths_get_platform(&ps) == (to ? fuWindows : fuUnix), "get_platform");
      for (auto &x : v) { S y = own((to ? fu_winpath : fu_unixpath)(x.c_str(), NULL, 0, "")); x = y; } win = to; sep = to ? ";" : ":"; break; } // fallthrough
    default: { S s = own(fu_paths_string(&ps)), w; for (size_t i = 0; i < v.size(); i++) w += (i ? sep : S()) + v[i]; REQUIRE(s == w, "string is %s, expected %s", show(s).c_str(), show(w).c_str()); int r = fu_paths_set_platform(&ps, win ? fuWindows : fuUnix); REQUIRE(r == (win ? fuWindows : fuUnix), "setting the same platform returns %d", r); }
    }
    REQUIRE(ps.n == v.size(), "%zu paths, expected %zu", ps.n, v.size());
    const char **a = fu_paths_get(&ps); REQUIRE(v.empty() ? !a : a && !a[v.size()], "fu_paths_get");
    for (size_t i = 0; i < v.size(); i++) REQUIRE(v[i] == a[i], "path %zu is %s, expected %s", i, show(a[i]).c_str(), show(v[i]).c_str());
    auto it = std::find(v.begin(), v.end(), p); int w = it == v.end() ? -1 : it - v.begin(); REQUIRE(fu_paths_index(&ps, p.c_str()) == w, "index of %s is %d, expected %d", show(p).c_str(), fu_paths_index(&ps, p.c_str()), w);
  }
  fu_paths_deinit(&ps);
  if (moved && n > 5) g.nontrivial();
}
PBT(D26, pathlist, 6000, 100000, 128, "random histories of a path list (append, insert, remove, extend, with prefix, platform changes, string); non-trivial: an existing path was added again") {
  balanced(g, pathlist, "path list");
}

// ---- files
static S scratch() { const char *s = getenv("VERIF_SCRATCH"); return S(s ? s : "/tmp") + fmt("/d26-%d", (int)getpid()); }
struct FTree {
  S root; std::map<S, std::set<S>> dirs; std::vector<S> made;
  FTree(Gen &g) : root(scratch()) {
    mkdir(root.c_str(), 0755); if (chdir(root.c_str())) fail("chdir");
    for (int i = 0, n = g.range(1, 4); i < n; i++) {
      S d = fmt("d%d", i); mkdir(d.c_str(), 0755); dirs[d];
      for (int k = g.range(0, 6); k > 0; k--) { S f = g.pick<S>({"a.txt", "b.txt", "a.py", "b.json", ".hid", "name", "x.tar.gz", "a.json", "c.txt"}); if (dirs[d].insert(f).second) { std::ofstream(d + "/" + f) << "x"; made.push_back(d + "/" + f); } }
    }
    for (int k = g.range(0, 3); k > 0; k--) { S f = g.pick<S>({"top.txt", "e.json", "f.py"}); if (dirs["."].insert(f).second) { std::ofstream(f) << "x"; made.push_back(f); } }
    for (auto &d : dirs) if (d.first != ".") dirs["."].insert(d.first);
    dirs["."];
  }
  ~FTree() { for (auto &f : made) unlink((root + "/" + f).c_str()); for (auto &d : dirs) if (d.first != ".") rmdir((root + "/" + d.first).c_str()); if (chdir("/")) {} rmdir(root.c_str()); }
};
static bool gm(const S &pat, const S &s) { // glob with * and ? only
  if (pat.empty()) return s.empty();
  if (pat[0] == '*') return gm(pat.substr(1), s) || (!s.empty() && gm(pat, s.substr(1)));
  return !s.empty() && (pat[0] == '?' || pat[0] == s[0]) && gm(pat.substr(1), s.substr(1));
}
static S norm(S s) { S r; for (char c : s) if (!(c == '/' && !r.empty() && r.back() == '/')) r += c; if (r.compare(0, 2, "./") == 0) r = r.substr(2); return r; }
static void files(Gen &g, FTree &t) {
  S pat = g.pick<S>({"*", "*.txt", "*.json", "a*", "?.py", "b.json", "none", "*.gz", "x*z"}); int mode = g.below(3);
  std::vector<std::vector<S>> want; FUPaths ps; fu_paths_init(&ps, NULL); std::vector<S> used;
  auto indir = [&](const S &d, const S &pre, const S &p) { std::vector<S> r; for (auto &f : t.dirs[d]) if (gm(p, f)) r.push_back(norm(pre + "/" + f)); return r; };
  if (mode == 2) {   // fu_glob
    auto it = t.dirs.begin(); std::advance(it, g.below(t.dirs.size())); S d = it->first, pre = g.flip() ? t.root + (d == "." ? S() : "/" + d) : d == "." ? S() : d, full = pre.empty() ? pat : pre + "/" + pat; if (pre.size() && pre[0] == '/' && g.chance(1, 3)) full = "file:" + full;
    g.log("glob %s", show(full).c_str()); want.push_back(indir(d, pre.empty() ? S(".") : pre, pat));
    FUIter *iter = fu_glob(full.c_str(), g.flip() ? "|" : NULL); REQUIRE(iter, "fu_glob %s: %s", show(full).c_str(), dlite_errmsg());
    std::multiset<S> got; while (const char *f = fu_globnext(iter)) { S b = f; size_t k = b.rfind('/'); S last = k == S::npos ? b : b.substr(k + 1); if (last != "." && last != "..") got.insert(norm(b)); REQUIRE(got.size() < 100, "too many files"); }
    REQUIRE(!fu_globnext(iter), "the iterator starts again"); REQUIRE(fu_globend(iter) == 0, "fu_globend");
    REQUIRE(got == std::multiset<S>(want[0].begin(), want[0].end()), "glob %s gives %zu files, expected %zu", show(full).c_str(), got.size(), want[0].size()); if (got.size() > 1) g.nontrivial();
    fu_paths_deinit(&ps); return;
  }
  bool usepat = mode == 0 || g.chance(2, 3); int n = g.range(1, 5);
  for (int i = 0; i < n; i++) {
    S p; std::vector<S> w; auto it = t.dirs.begin(); std::advance(it, g.below(t.dirs.size())); S d = it->first; bool abs = g.flip(); S pre = abs ? t.root + (d == "." ? S() : "/" + d) : d;
    int k = g.below(mode ? 5 : 3);
    if (k == 0) p = "missing" + fmt("%d", i);
    else if (k <= 2) { p = pre; if (mode == 0 && abs && g.chance(1, 3)) p = "file:" + p; if (g.chance(1, 5) && p != ".") p += "/"; w = indir(d, pre, usepat ? pat : S("*")); }
    else { S gp = g.pick<S>({"*.txt", "*", "a.py", "b*", "top.txt"}); p = (pre == "." ? S() : pre + "/") + gp; struct stat sb; if (gp.find('*') == S::npos && stat(p.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) continue; for (auto &f : t.dirs[d]) if (gm(gp, f) && (!usepat || gm(pat, f))) w.push_back(norm(pre + "/" + f)); }
    if (std::find(used.begin(), used.end(), p) != used.end()) continue;
    used.push_back(p); want.push_back(w); g.log("path %s", show(p).c_str()); fu_paths_append(&ps, p.c_str());
  }
  if (used.empty()) { fu_paths_deinit(&ps); return; }
  g.log("pattern %s", usepat ? show(pat).c_str() : "NULL");
  FUIter *iter = mode == 0 ? fu_startmatch(pat.c_str(), &ps) : fu_pathsiter_init(&ps, usepat ? pat.c_str() : NULL); REQUIRE(iter, "no iterator");
  size_t i = 0, total = 0; std::set<S> seen; auto done = [&] { while (i < want.size() && seen.size() == want[i].size()) { seen.clear(); i++; } };
  int stop = g.chance(1, 5) ? g.below(4) : -1; bool change = g.chance(1, 3), stopped = false;
  done();
  while (const char *f = mode == 0 ? fu_nextmatch(iter) : fu_pathsiter_next(iter)) {
    S b = f; size_t k = b.rfind('/'); S last = k == S::npos ? b : b.substr(k + 1); if (last == "." || last == "..") continue;
    b = norm(b); total++; REQUIRE(total < 500, "too many files"); REQUIRE(access(b.c_str(), F_OK) == 0 && !fu_exists(b.c_str()), "%s does not exist", show(b).c_str());
    REQUIRE(i < want.size(), "%s is not expected", show(b).c_str());
    REQUIRE(std::count(want[i].begin(), want[i].end(), b), "%s is not expected for path %zu (%s)", show(b).c_str(), i, show(used[i]).c_str());
    REQUIRE(seen.insert(b).second, "%s is visited twice for path %zu", show(b).c_str(), i);
    if (change && g.chance(1, 3)) { if (ps.n && g.flip()) fu_paths_remove_index(&ps, g.below(ps.n)); else fu_paths_insert(&ps, fmt("new%zu", total).c_str(), 0); }
    done(); if (stop >= 0 && (int)total > stop) { stopped = true; break; }
  }
  if (!stopped) { REQUIRE(i == want.size(), "path %zu (%s): %zu files of %zu visited", i, show(used[i]).c_str(), seen.size(), want[i].size()); REQUIRE(!(mode == 0 ? fu_nextmatch(iter) : fu_pathsiter_next(iter)), "the iterator starts again"); }
  REQUIRE((mode == 0 ? fu_endmatch(iter) : fu_pathsiter_deinit(iter)) == 0, "end of the iteration");
  fu_paths_deinit(&ps); take_error();
  if (total > 2) g.nontrivial();
}
PBT(D26, files, 4000, 60000, 64, "iterating over the files of path lists (directories, files, glob patterns, missing paths, file URLs; relative and absolute) in generated directory trees, also while the list changes; non-trivial: more than two files found") {
  FTree t(g); std::function<void(Gen &)> f = [&](Gen &g) { files(g, t); };
  balanced(g, f, "file iteration");
}

PBT(D26, readfile, 600, 6000, 64, "reading files of sizes around multiples of the chunk size, real paths, platform names; non-trivial: at least one chunk") {
  S path = scratch() + ".txt", t; int n = g.flip() ? 4096 * g.range(0, 3) + g.range(-2, 2) : g.size(9000); if (n < 0) n = 0; int c = g.below(26);
  for (int i = 0; i < n; i++) t += (char)('a' + (i * 11 + c) % 26);
  { std::ofstream o(path); o << t; } FILE *fp = fopen(path.c_str(), "r"); REQUIRE(fp, "fopen"); char *s = fu_readfile(fp); fclose(fp); g.log("%d bytes", n);
  S x = own(s); REQUIRE(x == t, "a file of %d bytes is read as %zu bytes", n, x.size());
  char rp[PATH_MAX]; REQUIRE(fu_exists(path.c_str()) == 0 && realpath(path.c_str(), rp), "file is missing");
  S base = own(fu_basename(path.c_str())), dir = own(fu_dirname(path.c_str())), odd = dir + "/./" + "/../" + own(fu_basename(dir.c_str())) + "//" + base;
  S y = own(fu_realpath(odd.c_str(), NULL)); REQUIRE(y == rp, "real path of %s is %s", show(odd).c_str(), show(y).c_str());
  unlink(path.c_str()); REQUIRE(fu_exists(path.c_str()) != 0 && !fu_realpath(path.c_str(), NULL), "a removed file exists"); take_error();
  for (int p = 0; p < fuLastPlatform; p++) { S nm = fu_platform_name((FUPlatform)p); REQUIRE(fu_platform(nm.c_str()) == p, "platform %s", nm.c_str()); REQUIRE(fu_supported_platform((FUPlatform)p), "platform %d", p); }
  S nm = g.ident(7); int p = fu_platform(nm.c_str()); if (p < 0) take_error(); else REQUIRE(!strcasecmp(nm.c_str(), fu_platform_name((FUPlatform)p)), "platform of %s is %d", nm.c_str(), p);
  if (n >= 4096) g.nontrivial();
}

static void init() { putenv(envbuf); dlite_err_set_stream(NULL); dlite_errclr(); FUPaths p; fu_paths_init(&p, NULL); fu_paths_append(&p, "/nono-no"); FUIter *i = fu_startmatch("*", &p); fu_nextmatch(i); fu_endmatch(i); fu_paths_remove_index(&p, 77); fu_paths_deinit(&p); free(fu_unixpath("C:rel", NULL, 0, "")); dlite_errclr(); }
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
