// flavours: asan
// D21: percent-encoding, URL joining and splitting, option strings and booleans
#include "dmodel.hpp"
extern "C" {
#include "utils/uri_encode.h"
#include "utils/urlsplit.h"
#include "utils/strtob.h"
}

static bool unreserved(char c) { return c && (isalnum((unsigned char)c) || strchr("-._~", c)) && !(c & 0x80); }
static bool subdelim(char c) { return c && strchr("!$&'()*+,;=", c); }
static bool hexd(char c) { return isxdigit((unsigned char)c); }
// unterminated copy that ends with its allocation
struct Exact { char *p; size_t n; Exact(const S &s) : n(s.size()) { p = (char *)malloc(n ? n : 1); memcpy(p, s.data(), n); } ~Exact() { free(p); } };
struct Buf { char *p; size_t n; Buf(size_t k) : n(k) { p = (char *)malloc(k ? k : 1); memset(p, 0x5a, k); } ~Buf() { free(p); } };

// ------------------------------------------------------------ percent-encoding
PBT(D21, encode, 15000, 200000, 128, "random byte strings and strings with incomplete escapes, buffers of exactly the announced size; non-trivial: at least one byte has to be encoded") {
  S s = g.flip() ? g.bytes(40) : g.text(30);
  if (g.chance(1, 3)) for (int i = g.range(1, 4); i > 0; i--) s.insert(g.below(s.size() + 1), g.pick<S>({"%", "%4", "%41", "%zz", "%%", "+", "%C3%85", "%g0", "%0g"}));
  S want; bool any = false;
  for (char c : s) if (unreserved(c)) want += c; else { want += fmt("%%%02X", (unsigned char)c); any = true; }
  if (any) g.nontrivial();
  g.log("%s", show(s).c_str());
  Exact e(s); size_t n = uri_encode(e.p, s.size(), NULL);
  REQUIRE(n == want.size(), "uri_encode of %s announces %zu bytes, needs %zu", show(s).c_str(), n, want.size());
  { Buf b(n + 1); size_t m = uri_encode(e.p, s.size(), b.p);
    REQUIRE(m == n && S(b.p, m) == want && b.p[m] == 0, "uri_encode of %s gives %s, expected %s", show(s).c_str(), show(S(b.p, m)).c_str(), want.c_str()); }
  { Exact x(want); size_t m = uri_decode(x.p, want.size(), NULL); REQUIRE(m == s.size(), "uri_decode of %s announces %zu bytes", want.c_str(), m);
    Buf b(m + 1); m = uri_decode(x.p, want.size(), b.p); REQUIRE(m == s.size() && S(b.p, m) == s && b.p[m] == 0, "uri_decode of %s gives %s", want.c_str(), show(S(b.p, m)).c_str()); }
  // decoding arbitrary text: complete escapes are decoded, everything else is kept
  S dec; for (size_t i = 0; i < s.size();) { if (s[i] == '%' && i + 2 < s.size() && hexd(s[i + 1]) && hexd(s[i + 2])) { dec += (char)strtol(s.substr(i + 1, 2).c_str(), NULL, 16); i += 3; } else dec += s[i++]; }
  { Buf b(dec.size() + 1); size_t m = uri_decode(e.p, s.size(), b.p); REQUIRE(m == dec.size() && S(b.p, m) == dec, "uri_decode of %s gives %s, expected %s", show(s).c_str(), show(S(b.p, m)).c_str(), show(dec).c_str()); }

  // encoding limited to a category
  S t; for (char c : s) if (c) t += c;
  StrCategory cat = g.pick<StrCategory>({strcatUpper, strcatLower, strcatDigit, strcatUnreserved, strcatSubDelims}); S acc = g.pick<S>({"", ":", "/:@", "/:@?", " {}"});
  S w2; for (char c : t) { bool ok = (cat >= strcatUpper && c >= 'A' && c <= 'Z') || (cat >= strcatLower && c >= 'a' && c <= 'z') || (cat >= strcatDigit && c >= '0' && c <= '9') || (cat >= strcatUnreserved && unreserved(c)) || (cat >= strcatSubDelims && subdelim(c)) || acc.find(c) != S::npos;
    if (ok) w2 += c; else w2 += fmt("%%%02X", (unsigned char)c); }
  long size = g.flip() ? (long)w2.size() + 1 : (long)g.below(w2.size() + 3);
  Buf b(size); Exact et(t);
  int r = pct_xencode(b.p, size, et.p, t.size(), cat, g.flip() && acc.empty() ? NULL : acc.c_str());
  REQUIRE(r == (int)w2.size(), "pct_xencode of %s returns %d, expected %zu", show(t).c_str(), r, w2.size());
  if (size > 0) {
    REQUIRE(memchr(b.p, 0, size), "pct_xencode of %s into %ld bytes is not terminated", show(t).c_str(), size); S got = b.p;
    REQUIRE(w2.compare(0, got.size(), got) == 0, "pct_xencode of %s gives %s, expected %s", show(t).c_str(), show(got).c_str(), w2.c_str());
    if (size > (long)w2.size()) REQUIRE(got == w2, "pct_xencode of %s gives %s, expected %s", show(t).c_str(), show(got).c_str(), w2.c_str());
    else REQUIRE((long)got.size() + 3 >= size || size < 4, "pct_xencode of %s into %ld bytes writes only %zu", show(t).c_str(), size, got.size());
  }
  if (cat == strcatSubDelims && acc.empty()) { Buf c(w2.size() + 1); REQUIRE(pct_encode(c.p, w2.size() + 1, t.c_str()) == (int)w2.size() && w2 == c.p, "pct_encode of %s", show(t).c_str()); }
  // and back
  if (acc.find('%') == S::npos) {
    Exact x(w2); Buf c(t.size() + 8); int m = pct_ndecode(c.p, t.size() + 8, x.p, w2.size());
    REQUIRE(m == (int)t.size() && t == c.p, "pct_ndecode of %s gives %d %s, expected %s", w2.c_str(), m, m >= 0 ? show(S(c.p)).c_str() : "", show(t).c_str());
  }
  bool wf = true; for (size_t i = 0; i < t.size(); i++) if (t[i] == '%' && !(i + 2 < t.size() && hexd(t[i + 1]) && hexd(t[i + 2]))) wf = false;
  S d3; if (wf) for (size_t i = 0; i < t.size();) if (t[i] == '%') { d3 += (char)strtol(t.substr(i + 1, 2).c_str(), NULL, 16); i += 3; } else d3 += t[i++];
  if (d3.find('\0') == S::npos) {
    Buf c(t.size() + 8); int m = pct_decode(c.p, t.size() + 8, t.c_str());
    if (!wf) REQUIRE(m < 0, "pct_decode of %s returns %d", show(t).c_str(), m);
    else REQUIRE(m == (int)d3.size() && d3 == c.p, "pct_decode of %s gives %s", show(t).c_str(), show(S(c.p)).c_str());
  }
}

// ------------------------------------------------------------------------ URLs
struct Comp { bool has = false; S v; };
struct Url { bool ok = false; Comp scheme, auth, user, host, port, path, query, frag; };
static bool chars(const S &s, const char *extra, bool pct = true) {
  for (size_t i = 0; i < s.size(); i++) {
    if (unreserved(s[i]) || subdelim(s[i]) || (s[i] && strchr(extra, s[i]))) continue;
    if (pct && s[i] == '%' && i + 2 < s.size() && hexd(s[i + 1]) && hexd(s[i + 2])) { i += 2; continue; }
    return false;
  }
  return true;
}
// RFC 3986
static Url parse(const S &s) {
  Url u; size_t c = s.find(':');
  if (c == S::npos || c == 0 || !isalpha((unsigned char)s[0])) return u;
  for (size_t i = 0; i < c; i++) if (!isalnum((unsigned char)s[i]) && !(s[i] && strchr("+.-", s[i]))) return u;
  u.scheme = {true, s.substr(0, c)}; S r = s.substr(c + 1);
  size_t h = r.find('#'); if (h != S::npos) { u.frag = {true, r.substr(h + 1)}; r = r.substr(0, h); if (!chars(u.frag.v, "/?:@")) return u; }
  size_t q = r.find('?'); if (q != S::npos) { u.query = {true, r.substr(q + 1)}; r = r.substr(0, q); if (!chars(u.query.v, "/?:@")) return u; }
  if (r.compare(0, 2, "//") == 0) {
    size_t e = r.find('/', 2); S a = r.substr(2, e == S::npos ? S::npos : e - 2); r = e == S::npos ? S() : r.substr(e); u.auth = {true, a};
    size_t at = a.find('@'); if (at != S::npos) { u.user = {true, a.substr(0, at)}; a = a.substr(at + 1); if (!chars(u.user.v, ":")) return u; }
    if (!a.empty() && a[0] == '[') {
      size_t b = a.find(']'); if (b == S::npos) return u;
      S l = a.substr(1, b - 1); u.host = {true, a.substr(0, b + 1)}; a = a.substr(b + 1);
      if (!l.empty() && (l[0] == 'v' || l[0] == 'V')) { size_t d = l.find('.'); if (d == S::npos || d < 2) return u; for (size_t i = 1; i < d; i++) if (!hexd(l[i])) return u; if (d + 1 >= l.size() || !chars(l.substr(d + 1), ":", false)) return u; }
      else for (char x : l) if (!hexd(x) && x != ':') return u;
    } else { size_t p = a.find(':'); S hn = a.substr(0, p); u.host = {true, hn}; a = p == S::npos ? S() : a.substr(p); if (!chars(hn, "")) return u; }
    if (!a.empty()) { if (a[0] != ':') return u; u.port = {true, a.substr(1)}; for (char x : u.port.v) if (!isdigit((unsigned char)x)) return u; }
  }
  u.path = {true, r}; if (!chars(r, "/:@")) return u;
  u.ok = true; return u;
}
static S gen_chars(Gen &g, int max, const char *extra, bool pct = true) {
  S s; int n = g.size(max);
  for (int i = 0; i < n; i++) {
    int k = g.below(10); S ex = S("!$&'()*+,;=") + extra;
    if (k < 7) s += g.pick<char>({'a', 'b', 'z', 'A', 'Z', '0', '9', '-', '.', '_', '~'});
    else if (k < 9 || !pct) s += ex[g.below(ex.size())];
    else s += g.pick<S>({"%20", "%c3", "%C3%A5", "%2F"});
  }
  return s;
}
static S gen_url(Gen &g, bool pct = true) {
  S s = g.pick<S>({"http", "file", "a", "x+y-z.1", "Http", "mongodb+srv", "Ab", "json"}) + ":";
  if (g.chance(3, 4)) {
    s += "//"; bool user = g.chance(1, 4); if (user) s += "u" + gen_chars(g, 4, ":", pct) + "@";
    switch (g.below(6)) { case 0: s += "[" + g.pick<S>({"::1", "2001:db8::7", "v1.a:b", "v1.", "v.a", "vF0.a", "V2.~", "1", ":"}) + "]"; break; case 1: s += user ? "h" : ""; break; case 2: s += "192.168.0.39"; break; default: s += "ex" + gen_chars(g, 6, "", pct); }
    if (g.chance(1, 3)) s += ":" + g.pick<S>({"", "8", "27017"});
    if (g.chance(3, 4)) s += "/" + gen_chars(g, 12, "/:@", pct);
  } else s += g.flip() ? "p" + gen_chars(g, 10, "/:@", pct) : S();
  if (g.chance(1, 3)) s += "?" + gen_chars(g, 8, "/?:@", pct);
  if (g.chance(1, 3)) s += "#" + gen_chars(g, 8, "/?:@", pct);
  return s;
}
static void comp(const S &s, const char *base, const char *name, const Comp &w, const char *p, int n) {
  if (!w.has) { REQUIRE(!p && n == 0, "%s: has %s of length %d", show(s).c_str(), name, n); return; }
  REQUIRE(p && p >= base && p + n <= base + s.size() && n >= 0, "%s: %s is outside the string", show(s).c_str(), name);
  REQUIRE(S(p, n) == w.v, "%s: %s is %s, expected %s", show(s).c_str(), name, show(S(p, n)).c_str(), show(w.v).c_str());
}
PBT(D21, split, 20000, 300000, 128, "URLs from the RFC 3986 grammar and mutations of them, also as the beginning of longer text; non-trivial: a valid URL with at least an authority or a query") {
  S s = gen_url(g);
  if (g.chance(1, 2)) for (int i = g.range(1, 3); i > 0; i--) {
    size_t p = g.below(s.size() + 1);
    switch (g.below(3)) { case 0: s.insert(p, 1, g.pick<char>({':', '/', '@', '?', '#', '[', ']', '%', ' ', 'a', '7', '"', '\xc3', '|'})); break; case 1: if (p < s.size()) s.erase(p, 1); break; default: if (p < s.size()) s[p] = g.pick<char>({':', '/', '@', '?', '#', '%', 'G', '<', '.', '+'}); }
  }
  if (g.chance(1, 4)) s = s.substr(0, g.below(s.size() + 1));
  Url w = parse(s);
  // single letter schemes may be windows drives, addresses in brackets are not validated in detail
  bool drive = s.size() >= 2 && s[0] >= 'A' && s[0] <= 'Z' && s[1] == ':';
  if (w.ok && w.host.has && w.host.v == "[]") throw Discard{};
  if (w.ok && (w.auth.has || w.query.has)) g.nontrivial();
  g.log("%s: %s", show(s).c_str(), w.ok ? "valid" : "invalid"); g.label(w.ok ? "valid" : "invalid");
  S suffix = g.pick<S>({"", "a", "/x", "?q", "#f", "@h", ":1", " ", "%41", "]"}); S longer = s + suffix;
  bool full = w.ok && !drive;
  REQUIRE(isurl(s.c_str()) == full, "isurl(%s) is %d", show(s).c_str(), !full);
  REQUIRE(isurln(s.c_str(), -1) == full, "isurln(%s, -1) is %d", show(s).c_str(), !full);
  REQUIRE(isurln(longer.c_str(), s.size()) == full, "isurln(%s, %zu) is %d, the first part is %s", show(longer).c_str(), s.size(), !full, w.ok ? "valid" : "invalid");
  { Exact e(s); REQUIRE(isurln(e.p, s.size()) == full, "isurln of unterminated %s is %d", show(s).c_str(), !full); }
  UrlComponents c; memset(&c, 0x33, sizeof c);
  bool limited = g.flip(); const S &base = limited ? longer : s;
  int n = limited ? urlsplitn(base.c_str(), s.size(), &c) : urlsplit(base.c_str(), &c);
  if (s.empty()) { REQUIRE(n == 0, "urlsplit of nothing returns %d", n); return; }
  if (!w.ok) { REQUIRE(n < (int)s.size(), "urlsplit(%s) returns %d", show(s).c_str(), n); if (n > 0) REQUIRE(parse(s.substr(0, n)).ok, "urlsplit(%s) returns %d, this part is no URL", show(s).c_str(), n); return; }
  REQUIRE(n == (int)s.size(), "urlsplit(%s) returns %d, expected %zu", show(s).c_str(), n, s.size());
  const char *b = base.c_str();
  comp(s, b, "scheme", w.scheme, c.scheme, c.scheme_len); comp(s, b, "authority", w.auth, c.authority, c.authority_len);
  comp(s, b, "userinfo", w.user, c.userinfo, c.userinfo_len); comp(s, b, "host", w.host, c.host, c.host_len); comp(s, b, "port", w.port, c.port, c.port_len);
  comp(s, b, "path", w.path, c.path, c.path_len); comp(s, b, "query", w.query, c.query, c.query_len); comp(s, b, "fragment", w.frag, c.fragment, c.fragment_len);
}

PBT(D21, join, 8000, 100000, 128, "URL components of which the literal ones are valid characters: joining, cutting off at the buffer size, and splitting again; non-trivial: at least three components") {
  Url w; w.scheme = {true, g.pick<S>({"http", "file", "x+y-z.1", "json"})};
  bool auth = g.chance(3, 4); int nc = 2;
  if (auth) {
    w.host = {true, "h" + gen_chars(g, 6, "", false)}; S a = w.host.v; nc++;
    if (g.chance(1, 3)) { w.user = {true, "u" + gen_chars(g, 4, ":", false)}; a = w.user.v + "@" + a; nc++; }
    if (g.chance(1, 3)) { w.port = {true, fmt("%d", g.range(0, 65535))}; a += ":" + w.port.v; nc++; }
    w.auth = {true, a};
  }
  w.path = {true, auth ? (g.flip() ? "/p" + gen_chars(g, 10, "/:@", false) : S()) : "p" + gen_chars(g, 10, "/:@", false)};
  if (g.flip()) { w.query = {true, "q" + gen_chars(g, 8, "/?:@", false)}; nc++; }
  if (g.flip()) { w.frag = {true, "f" + gen_chars(g, 8, "/?:@", false)}; nc++; }
  if (nc >= 3) g.nontrivial();
  S raw = g.chance(1, 3) ? g.pick<S>({" ", "\"<>", "\xc3\xa5", "{}"}) : S(), enc; for (char c : raw) enc += fmt("%%%02X", (unsigned char)c);
  S want = w.scheme.v + ":" + (auth ? "//" + w.auth.v : S()) + w.path.v + (w.path.v.empty() ? S() : enc) + (w.query.has ? "?" + w.query.v + enc : S()) + (w.frag.has ? "#" + w.frag.v + enc : S());
  S path = w.path.v + (w.path.v.empty() ? S() : raw), query = w.query.v + raw, frag = w.frag.v + raw;
  g.log("%s", show(want).c_str());
  UrlComponents c; memset(&c, 0, sizeof c); S junk = "JUNK";
  S sch = w.scheme.v + junk, us = w.user.v + junk, ho = w.host.v + junk, po = w.port.v + junk, pa = path + junk, qu = query + junk, fr = frag + junk, au = w.auth.v + junk;
  bool byauth = auth && g.chance(1, 4);
  c.scheme = sch.c_str(); c.scheme_len = w.scheme.v.size(); c.path = pa.c_str(); c.path_len = path.size();
  if (auth && !byauth) { c.host = ho.c_str(); c.host_len = w.host.v.size(); if (w.user.has) c.userinfo = us.c_str(), c.userinfo_len = w.user.v.size(); if (w.port.has) c.port = po.c_str(), c.port_len = w.port.v.size(); }
  else if (auth) { c.authority = au.c_str(); c.authority_len = w.auth.v.size(); }
  if (w.query.has) c.query = qu.c_str(), c.query_len = query.size();
  if (w.frag.has) c.fragment = fr.c_str(), c.fragment_len = frag.size();
  long size = g.flip() ? (long)want.size() + 1 : (long)g.below(want.size() + 2); Buf b(size);
  int n = urljoin(b.p, size, &c);
  REQUIRE(n == (int)want.size(), "urljoin returns %d, expected %zu: %s", n, want.size(), show(want).c_str());
  if (size > (long)want.size()) REQUIRE(want == b.p, "urljoin gives %s, expected %s", show(S(b.p)).c_str(), want.c_str());
  else if (size > 0) REQUIRE(memchr(b.p, 0, size), "urljoin does not terminate a buffer of %ld bytes", size);
  UrlComponents d; REQUIRE(urlsplit(want.c_str(), &d) == (int)want.size(), "joined %s is no URL", want.c_str());
  Buf b2(want.size() + 1); if (raw.empty()) REQUIRE(urljoin(b2.p, want.size() + 1, &d) == (int)want.size() && want == b2.p, "joining the parts of %s gives %s", want.c_str(), show(S(b2.p)).c_str());
}

// ------------------------------------------------------- storage URLs and options
static S nohash(S s, const char *no) { S r; for (char c : s) if (c && !strchr(no, c)) r += c; return r; }
static bool eq0(const char *p, const Comp &w) { return w.has && !w.v.empty() ? p && w.v == p : !p || !*p; }
PBT(D21, storageurl, 12000, 150000, 128, "driver, location, options and fragment of arbitrary text without the separators, joined and split; non-trivial: driver and one more part besides the location") {
  Comp dr, lo, op, fr; lo.has = true;
  if (g.flip()) dr = {true, "d" + nohash(g.ident(6), ":/?#")};
  bool win = g.chance(1, 6);
  lo.v = nohash(g.text(20), "?#");
  if (g.chance(1, 3)) lo.v = g.pick<S>({"/a/b", "rel/x.json", "/", "example.com/db", "./a:b", "/tmp/x:y"});
  if (win) { dr.has = false; lo.v = S(1, g.pick<char>({'C', 'd', 'Z', 'a'})) + ":" + g.pick<S>({"\\", "/"}) + "x" + nohash(g.text(10), "?#"); }
  if (!dr.has && !win) { size_t k = lo.v.find_first_of(":/"); if (k != S::npos && lo.v[k] == ':') lo.v = "/" + lo.v; }
  if (g.flip()) op = {true, nohash(g.text(15), "#")};
  if (g.flip()) fr = {true, g.text(10)};
  if (g.chance(1, 5)) { Comp *x[] = {&dr, &lo, &op, &fr}; Comp &y = *x[g.below(4)]; if (y.has) while (y.v.size() < 150) y.v += "longtext"; }
  if (dr.has && (op.has || fr.has)) g.nontrivial();
  bool single = dr.has && lo.v.compare(0, 2, "//") != 0 && g.chance(1, 4);   // scheme:path
  S want = (dr.has ? dr.v + (single ? ":" : "://") : S()) + lo.v + (op.has ? "?" + op.v : S()) + (fr.has ? "#" + fr.v : S());
  g.log("%s", show(want).c_str());
  char *u = dlite_join_url(dr.has ? dr.v.c_str() : NULL, lo.v.c_str(), op.has ? op.v.c_str() : NULL, fr.has ? fr.v.c_str() : NULL);
  REQUIRE(u && (single || want == u), "dlite_join_url gives %s, expected %s", show(u).c_str(), show(want).c_str()); free(u);
  char *d = NULL, *l = NULL, *o = NULL, *f = NULL; char *m = strdup(want.c_str()); int mask = g.chance(1, 4) ? g.below(16) : 15;
  int r = win || g.chance(1, 4) ? dlite_split_url_winpath(m, mask & 1 ? &d : NULL, mask & 2 ? &l : NULL, mask & 4 ? &o : NULL, mask & 8 ? &f : NULL, win)
                                : dlite_split_url(m, mask & 1 ? &d : NULL, mask & 2 ? &l : NULL, mask & 4 ? &o : NULL, mask & 8 ? &f : NULL);
  bool ok = r == 0 && (!(mask & 1) || eq0(d, dr)) && (!(mask & 2) || eq0(l, lo)) && (!(mask & 4) || eq0(o, op)) && (!(mask & 8) || eq0(f, fr));
  S got = fmt("driver %s location %s options %s fragment %s", show(d).c_str(), show(l).c_str(), show(o).c_str(), show(f).c_str()); free(m);
  REQUIRE(ok, "splitting %s gives %s", show(want).c_str(), got.c_str());
}

static S encval(Gen &g, const S &v) {
  S r; for (char c : v) if (c == '%' || strchr(";&#", c) || g.chance(1, 3)) r += fmt(g.flip() ? "%%%02X" : "%%%02x", (unsigned char)c); else r += c;
  return r;
}
PBT(D21, options, 15000, 200000, 128, "option strings over a set of keys that are prefixes of each other, with encoded values, repeated, unknown and valueless keys and fragments; non-trivial: at least two options of which one is given twice or encoded") {
  std::vector<S> keys = {"a", "ab", "abc", "mode", "modes", "x-y", "b", "", "x"}; keys.erase(keys.begin() + 7);
  int nk = g.range(1, (int)keys.size()); keys.resize(nk);
  std::vector<DLiteOpt> opts; std::vector<Elem> val; std::vector<S> defs; defs.reserve(nk);
  for (int i = 0; i < nk; i++) { defs.push_back(g.flip() ? "def" + g.ident(3) : S("")); bool null = g.chance(1, 4); opts.push_back({'a' + i, keys[i].c_str(), null ? NULL : defs[i].c_str(), NULL}); val.push_back(null ? Elem::Null() : Elem(defs[i])); }
  opts.push_back({0, NULL, NULL, NULL});
  S s; bool strict = g.flip(); int err = 0, n = g.size(8), given = 0; bool enc = false; std::set<S> seen;
  for (int i = 0; i < n; i++) {
    if (i) s += g.pick<char>({';', '&'});
    int k = g.below(12);
    if (k == 0) { s += g.pick<S>({"unk", "aa", "abcd", "mod", "A"}) + "=" + encval(g, g.text(5)); if (strict && !err) err = dliteValueError; }
    else if (k == 1) { S key = g.flip() ? g.pick(keys) : S("zz"); if (g.chance(1, 3)) key = ""; if (i == n - 1 && key.empty()) key = "q"; s += key; if (!err) err = dliteValueError; }
    else { int j = g.below(nk); S v; for (char c : g.text(10)) if (c) v += c; S e = encval(g, v); if (g.chance(1, 6)) { e += g.pick<S>({"=", "=x", "+", "?"}); v = v + e.substr(e.size() - (e.back() == 'x' ? 2 : 1)); }
      if (e != v || !seen.insert(keys[j]).second) enc = true; given++; s += keys[j] + "=" + e; if (!err) val[j] = Elem(v); }
  }
  if (n && g.chance(1, 6)) s += g.pick<char>({';', '&'});
  if (g.chance(1, 4)) s += "#" + g.text(6);
  if (given >= 2 && enc) g.nontrivial();
  g.log("%s strict %d -> %d", show(s).c_str(), strict, err); g.label(err ? "refused" : "accepted");
  char *m = strdup(s.c_str()); dlite_errclr();
  int r = dlite_option_parse(m, opts.data(), strict ? dliteOptStrict : (DLiteOptFlag)0); int e = take_error();
  S bad; for (int j = 0; j < nk && bad.empty(); j++) { Elem v = opts[j].value ? Elem(S(opts[j].value)) : Elem::Null(); if (!(v == val[j])) bad = fmt("option %s is %s, expected %s", keys[j].c_str(), v.null ? "NULL" : show(v.b).c_str(), val[j].null ? "NULL" : show(val[j].b).c_str()); }
  free(m);
  REQUIRE((r != 0) == (err != 0) && (e != 0) == (err != 0), "parsing %s returns %d, error %d, expected %s", show(s).c_str(), r, e, err ? "an error" : "success");
  if (!err) REQUIRE(bad.empty(), "%s: %s", show(s).c_str(), bad.c_str());
}

PBT(D21, boolean, 4000, 40000, 128, "spellings of boolean values in all letter cases with blanks before and text after, and other text; non-trivial: a boolean value") {
  struct { const char *s; int v; } tab[] = {{"1", 1}, {"true", 1}, {".true.", 1}, {"yes", 1}, {"on", 1}, {"0", 0}, {"false", 0}, {".false.", 0}, {"no", 0}, {"off", 0}};
  S sp = g.pick<S>({"", " ", "\t\n ", "\v\f\r"}), w, tail; int want = -1; size_t end;
  if (g.chance(3, 4)) { auto &t = tab[g.below(10)]; w = t.s; want = t.v; for (char &c : w) if (g.flip()) c = toupper(c); tail = g.pick<S>({"", "", " ", ";x", "x"}); end = sp.size() + w.size(); g.nontrivial(); }
  else { w = g.pick<S>({"", "tru", ".tru", "maybe", "-", "2", "y", "f", ".f", "o"}); end = sp.size() + (w.empty() ? 0 : 1); if (sp.empty() && w.empty()) want = 0; }
  S s = sp + w + tail; char *e = NULL; g.log("%s", show(s).c_str());
  int r = strtob(s.c_str(), &e);
  REQUIRE(r == want, "strtob(%s) is %d, expected %d", show(s).c_str(), r, want);
  REQUIRE(e == s.c_str() + end, "strtob(%s) stops at %ld, expected %zu", show(s).c_str(), (long)(e - s.c_str()), end);
  REQUIRE(atob(s.c_str()) == want, "atob(%s)", show(s).c_str());
}

static void init() { dlite_err_set_stream(NULL); }
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
