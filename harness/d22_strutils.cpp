// flavours: asan
// D22: string utilities are exact inverses and respect their buffers
#include "cdlite.hpp"
extern "C" {
#include "utils/compat.h"
#include "utils/strutils.h"
#include "utils/strtob.h"
#include "utils/unicode.h"
#include "utils/clp2.h"
int globmatch(const char *pattern, const char *s);
}
#include "pbt.hpp"
using namespace pbt;
typedef std::string S;

// exactly sized buffer: any overrun is seen by ASan
struct Buf {
  char *p; size_t n;
  Buf(size_t n_) : n(n_) { p = (char *)malloc(n ? n : 1); memset(p, 0x5a, n ? n : 1); if (!n) { free(p); p = (char *)malloc(1); } }
  ~Buf() { free(p); }
};
// a string whose last byte is the last byte of its allocation (no terminator)
struct Exact {
  char *p; size_t n;
  Exact(const S &s) : n(s.size()) { p = (char *)malloc(n ? n : 1); memcpy(p, s.data(), n); if (!n) p[0] = 'x'; }
  ~Exact() { free(p); }
};
static S nonul(Gen &g, int max) { S s = g.bytes(g.size(max)); for (auto &c : s) if (!c) c = 1; return s; }
static S anytext(Gen &g, int max = 40) { return g.chance(1, 4) ? nonul(g, max) : g.text(max); }

static void hexesc(S &r, unsigned c) { r += fmt("\\u%04x", c); }
static S ref_quote(const S &s, int flags) {
  S r; if (!(flags & 2)) r += '"';
  for (unsigned char c : s) {
    if (flags & 4) { r += c; continue; }
    switch (c) {
    case '"': r += "\\\""; break; case '\\': r += "\\\\"; break;
    case '\b': r += "\\b"; break; case '\f': r += "\\f"; break; case '\n': r += "\\n"; break;
    case '\r': r += "\\r"; break; case '\t': r += "\\t"; break;
    default: if (c < 32) hexesc(r, c); else r += c;
    }
  }
  if (!(flags & 2)) r += '"';
  return r;
}

PBT(D22, quote, 60000, 3000000, 512, "quote random text with random flags, length limit and buffer size, then unquote; non-trivial: text with a character that needs escaping") {
  S s = anytext(g); int flags = g.below(8);
  bool limit = g.chance(1, 3); int n = limit ? g.range(0, (int)s.size() + 3) : -1;
  S eff = limit ? s.substr(0, std::min<size_t>(n, s.size())) : s;
  g.log("%s flags %d n %d", show(s).c_str(), flags, n);
  if (eff.find_first_of("\"\\\n\t\b\f\r\x01\x1f") != S::npos) g.nontrivial();
  S want = ref_quote(eff, flags);
  size_t bs = g.chance(1, 2) ? want.size() + 1 : g.below(want.size() + 3);
  Buf b(bs); int m;
  if (limit) { // nothing past n bytes may be read, unless the text ends before
    S src = (int)s.size() > n ? s.substr(0, n) : s + S(1, '\0'); Exact x(src);
    m = strnquote(bs ? b.p : NULL, bs, x.p, n, (StrquoteFlags)flags);
  } else m = flags ? strnquote(bs ? b.p : NULL, bs, s.c_str(), -1, (StrquoteFlags)flags) : strquote(bs ? b.p : NULL, bs, s.c_str());
  REQUIRE(m == (int)want.size(), "strnquote returns %d, expected %zu", m, want.size());
  if (bs) REQUIRE(memchr(b.p, 0, bs) && S(b.p) == want.substr(0, bs - 1), "strnquote writes %s, expected %s", show(S(b.p, strnlen(b.p, bs))).c_str(), show(want.substr(0, bs - 1)).c_str());
  // inverse
  if (flags & 4 && !(flags & 2) && eff.find('"') != S::npos) { g.label("not invertible"); return; }
  if (flags & 2 && !(flags & 1) && !eff.empty() && isspace((unsigned char)want[0])) { g.label("initial blanks"); return; }
  S tail = flags & 2 ? "" : g.pick<S>({"", " ", "\"", "x", ", 2"});
  S full = want + tail; int consumed = -1;
  bool lim2 = g.flip(); Exact x2(lim2 ? want : full + S(1, '\0'));
  size_t bs2 = g.chance(2, 3) ? eff.size() + 1 : g.below(eff.size() + 2);
  Buf b2(bs2);
  m = strnunquote(bs2 ? b2.p : NULL, bs2, x2.p, lim2 ? (int)want.size() : -1, &consumed, (StrquoteFlags)flags);
  REQUIRE(m == (int)eff.size(), "strnunquote(%s) returns %d, expected %zu", show(full).c_str(), m, eff.size());
  REQUIRE(consumed == (int)want.size(), "strnunquote(%s) consumes %d, expected %zu", show(full).c_str(), consumed, want.size());
  if (bs2) REQUIRE(memchr(b2.p, 0, bs2) && S(b2.p) == eff.substr(0, bs2 - 1), "unquoted is %s, expected %s", show(S(b2.p, strnlen(b2.p, bs2))).c_str(), show(eff).c_str());
  // the allocating variant, at a position of an existing or absent buffer
  S pre = g.flip() ? "" : g.chars("abc", g.range(0, 6)); char *d = NULL; size_t ds = 0;
  if (!pre.empty()) { ds = pre.size() + g.range(1, 12); d = (char *)malloc(ds); strcpy(d, pre.c_str()); }
  m = strnput_unquote(&d, &ds, pre.size(), x2.p, lim2 ? (int)want.size() : -1, &consumed, (StrquoteFlags)flags);
  REQUIRE(m == (int)eff.size() && consumed == (int)want.size() && S(d) == pre + eff, "strnput_unquote gives %d %d %s", m, consumed, show(d).c_str());
  free(d);
}

// reference for unquoting arbitrary text
static int ref_unq(const S &s, int flags, S &out, int &consumed) {
  size_t j = 0; out.clear();
  auto at = [&](size_t i) -> int { return i < s.size() ? (unsigned char)s[i] : 0; };
  if (!(flags & 1)) while (at(j) && isspace(at(j))) j++;
  if (!(flags & 2)) { if (at(j) != '"') return -1; j++; }
  while (j < s.size() && ((flags & 2) || s[j] != '"')) {
    if (!(flags & 4) && s[j] == '\\' && j + 1 < s.size()) {
      const char *l = "\"\\/bfnrt", *v = "\"\\/\b\f\n\r\t", *q;
      if (s[j + 1] != 'u' && (q = strchr(l, s[j + 1]))) { out += v[q - l]; j += 2; continue; }
      if (s[j + 1] == 'u') {
        auto hex4 = [&](size_t k, unsigned &c) { c = 0; for (int i = 0; i < 4; i++) { int ch = at(k + i); if (!isxdigit(ch)) return false; c = c * 16 + (isdigit(ch) ? ch - '0' : tolower(ch) - 'a' + 10); } return true; };
        unsigned c, c2;
        if (hex4(j + 2, c) && c) {
          if (c < 0xd800 || c > 0xdfff) { out += Gen::utf8(c); j += 6; continue; }
          if (c <= 0xdbff && at(j + 6) == '\\' && at(j + 7) == 'u' && hex4(j + 8, c2) && c2 >= 0xdc00 && c2 <= 0xdfff) {
            out += Gen::utf8(0x10000 + ((c - 0xd800) << 10) + (c2 - 0xdc00)); j += 12; continue; }
        }
      }
    }
    out += s[j++];
  }
  if (!(flags & 2)) { if (j >= s.size()) return -2; j++; }
  consumed = j; return out.size();
}
PBT(D22, unquote, 50000, 2500000, 512, "unquote arbitrary text made of blanks, quotes, escapes and other characters, against a reference; non-trivial: an escape sequence or an error") {
  S s; int n = g.range(0, 14);
  for (int i = 0; i < n; i++) s += g.pick<S>({"\"", "\"", "\\", "\\\"", "\\\\", "\\n", "\\u00e5", "\\u0041", "\\ud83d\\ude00", "\\ud83d", "\\u12", "\\udc00", "\\u0000", "\\/", "\\x", " ", "\t", "a", "bc", "\xc3\xa5", "\\u20AC"});
  int flags = g.below(8); S out; int wc = -1; int want = ref_unq(s, flags, out, wc);
  g.log("%s flags %d", show(s).c_str(), flags);
  if (want < 0 || s.find('\\') != S::npos) g.nontrivial();
  g.label(want < 0 ? fmt("error %d", want) : "ok");
  int c = -1; char *z = strdup(s.c_str());
  size_t bs = want < 0 ? g.range(1, 20) : g.below(out.size() + 3); Buf b(bs);
  int m = strunquote(bs ? b.p : NULL, bs, z, &c, (StrquoteFlags)flags); free(z);
  REQUIRE(m == want, "strunquote(%s, %d) = %d, expected %d", show(s).c_str(), flags, m, want);
  if (want >= 0) {
    REQUIRE(c == wc, "consumed %d, expected %d", c, wc);
    if (bs) REQUIRE(memchr(b.p, 0, bs) && S(b.p) == out.substr(0, bs - 1), "unquoted %s, expected %s", show(S(b.p, strnlen(b.p, bs))).c_str(), show(out).c_str());
  }
}

PBT(D22, hex, 20000, 800000, 512, "hex-encode random bytes into a random buffer, decode with random case and mutations; non-trivial: at least two bytes") {
  S d = g.bytes(g.size(60)); S want; for (unsigned char c : d) want += fmt("%02x", c);
  g.log("%s", want.c_str()); if (d.size() > 1) g.nontrivial();
  size_t hs = g.flip() ? want.size() + 1 : g.below(want.size() + 4); Buf h(hs);
  Exact x(d);
  int m = strhex_encode(h.p, hs, (unsigned char *)x.p, d.size());
  REQUIRE(m == (int)want.size(), "strhex_encode returns %d, expected %zu", m, want.size());
  if (hs) { size_t k = std::min(want.size(), (hs - 1) / 2 * 2); REQUIRE(memchr(h.p, 0, hs) && S(h.p) == want.substr(0, k), "strhex_encode to %zu bytes gives %s", hs, show(S(h.p, strnlen(h.p, hs))).c_str()); }
  S in = want; for (auto &c : in) if (g.chance(1, 4)) c = toupper(c);
  bool bad = false;
  if (g.chance(1, 3) && !in.empty()) { size_t at = g.below(in.size()); char c = g.pick<char>({'g', '/', ':', '@', 'G', '`', ' ', '-', (char)0xe5, 'a'}); in[at] = c; }
  if (g.chance(1, 8)) in += "1";
  for (char c : in) if (!isxdigit((unsigned char)c)) bad = true;
  size_t ds = g.flip() ? in.size() / 2 : g.below(in.size() / 2 + 3); Buf o(ds);
  bool lim = g.flip(); Exact y(lim ? in : in + S(1, '\0'));
  m = strhex_decode((unsigned char *)o.p, ds, y.p, lim ? (int)in.size() : -1);
  if (in.size() % 2) { REQUIRE(m == -1, "odd number of digits accepted"); return; }
  if (bad) { // only what is converted can be checked
    bool seen = false; for (size_t i = 0; i < std::min(in.size(), 2 * ds); i++) if (!isxdigit((unsigned char)in[i])) seen = true;
    if (seen) REQUIRE(m == -1, "invalid digit accepted in %s", show(in).c_str());
    return;
  }
  REQUIRE(m == (int)in.size() / 2, "strhex_decode returns %d", m);
  for (size_t i = 0; i < std::min(ds, in.size() / 2); i++) REQUIRE((unsigned char)o.p[i] == strtoul(in.substr(2 * i, 2).c_str(), 0, 16), "byte %zu is wrong", i);
}

// one character at a time
PBT(D22, strsetc, 20000, 1000000, 1024, "characters outside ASCII into buffers of a few bytes; non-trivial: there is no room for the whole character") {
  long size = g.range(-1, 6); int how = g.below(4), c; unsigned char first; int need;
  if (how == 0) { S u = Gen::utf8(g.pick(std::vector<uint32_t>{(uint32_t)g.range(0x80, 0x7ff), (uint32_t)g.range(0x800, 0xffff)})); c = 0; for (unsigned char b : u) c = (c << 8) | b; first = u[0]; need = u.size(); }   // multi-character constant
  else if (how == 1) { c = first = g.range(0, 127); need = 1; }
  else { first = g.range(128, 255); c = how == 2 ? (int)first : (int)(signed char)first; need = (first & 0xe0) == 0xc0 ? 2 : (first & 0xf0) == 0xe0 ? 3 : (first & 0xf8) == 0xf0 ? 4 : 1; }
  if (need >= size) g.nontrivial();
  char *buf = (char *)malloc(size > 0 ? size : 1); memset(buf, '#', size > 0 ? size : 1);
  int n = strsetc(buf, size, c); g.log("strsetc(buf, %ld, 0x%x) = %d", size, (unsigned)c, n);
  S got(buf, size > 0 ? size : 1); free(buf);
  REQUIRE(n == 1, "strsetc() returns %d", n);
  if (size <= 0) { REQUIRE(got[0] == '#', "something is written to a buffer of size %ld", size); return; }
  if (size == 1) { REQUIRE(got[0] == 0, "buffer of size 1 has %s", show(got).c_str()); return; }
  REQUIRE((unsigned char)got[0] == (need < size ? first : 0), "first byte of 0x%x in a buffer of size %ld is 0x%x", (unsigned)c, size, (unsigned char)got[0]);
  REQUIRE(got[1] == 0, "not terminated"); for (long i = 2; i < size; i++) REQUIRE(got[i] == '#', "byte %ld is written", i);
}

PBT(D22, utf8, 40000, 2000000, 1024, "encode random code points and decode them and truncated or damaged sequences; non-trivial: more than one byte") {
  long v; switch (g.below(4)) { case 0: v = g.range(0, 0x7ff); break; case 1: v = g.range(0, 0x10ffff); break; case 2: { int b = g.range(0, 31); v = (1L << b) + g.range(-2, 2); break; } default: v = (long)g.raw(0x7fffffff); }
  g.log("%ld", v);
  char o[8]; memset(o, 0x7f, sizeof o);
  int n = utf8encode(v, o);
  if (v < 0 || v > 0x7fffffff) { REQUIRE(n == 0, "invalid code point %ld encoded", v); return; }
  int want = v < 0x80 ? 1 : v < 0x800 ? 2 : v < 0x10000 ? 3 : v < 0x200000 ? 4 : v < 0x4000000 ? 5 : 6;
  REQUIRE(n == want && utf8encode(v, NULL) == want, "code point %lx takes %d bytes, expected %d", v, n, want);
  REQUIRE(o[n] == 0, "not terminated");
  if (v < 0x110000) REQUIRE(S(o, n) == Gen::utf8(v), "encoding of %lx", v);
  long w = -1; int m = utf8decode(o, &w);
  REQUIRE(m == n && w == v, "decoded %lx (%d bytes), expected %lx (%d)", w, m, v, n);
  REQUIRE(utf8decode(o, NULL) == n, "length without value");
  if (n > 1) {
    g.nontrivial();
    S t(o, n); size_t k = g.range(1, n - 1);
    if (g.flip()) t = t.substr(0, k); else t[k] = g.flip() ? 'a' : (char)0xc3;
    REQUIRE(utf8decode(t.c_str(), &w) == 0, "damaged sequence %s accepted", show(t).c_str());
    REQUIRE(utf8decode(t.c_str() + (k < t.size() && k > 1 ? 1 : 0), NULL) <= 6, "length");
  }
}

PBT(D22, strset, 40000, 2000000, 512, "strsets/strsetn of UTF-8 text into buffers of every size; non-trivial: truncated multi-byte text") {
  S s = g.text(24); int len = g.chance(1, 3) ? g.range(0, (int)s.size()) : -1;
  while (len > 0 && len < (int)s.size() && ((unsigned char)s[len] & 0xc0) == 0x80) len--;   // whole code points
  S eff = len < 0 ? s : s.substr(0, len);
  size_t bs = g.below(eff.size() + 3); Buf b(bs);
  g.log("%s len %d size %zu", show(s).c_str(), len, bs);
  int n = len < 0 && g.flip() ? strsets(b.p, bs, s.c_str()) : strsetn(b.p, bs, s.c_str(), len);
  REQUIRE(n == (int)eff.size(), "returns %d, expected %zu", n, eff.size());
  if (!bs) return;
  S want = eff;
  if (eff.size() > bs - 1) { size_t k = bs - 1; while (k > 0 && ((unsigned char)eff[k] & 0xc0) == 0x80) k--; want = eff.substr(0, k); if (k != bs - 1) g.nontrivial(); g.label(k != bs - 1 ? "cut inside a code point" : "cut"); }
  REQUIRE(memchr(b.p, 0, bs) && S(b.p) == want, "%s into %zu bytes gives %s, expected %s", show(eff).c_str(), bs, show(S(b.p, strnlen(b.p, bs))).c_str(), show(want).c_str());
}

PBT(D22, put, 30000, 1200000, 256, "sequences of strput/strnput/strnput_escape/asnpprintf at positions of one growing buffer, against a string; non-trivial: at least four operations with a reallocation") {
  char *d = NULL; size_t ds = 0; S model; int ops = g.range(1, 12); int grow = 0;
  for (int i = 0; i < ops; i++) {
    size_t pos = g.chance(3, 4) ? model.size() : g.below(model.size() + 1);
    S s = anytext(g, 30); int len = g.chance(1, 3) ? g.range(0, (int)s.size() + 2) : -1;
    S eff = len < 0 ? s : s.substr(0, std::min<size_t>(len, s.size()));
    size_t old = ds; int m;
    switch (g.below(5)) {
    case 0: m = strput(&d, &ds, pos, s.c_str()); eff = s; break;
    case 1: { Exact x(len < 0 || len > (int)s.size() ? s + S(1, '\0') : s.substr(0, len)); m = strnput(&d, &ds, pos, x.p, len); break; }
    case 2: {
      StrCategory cat = (StrCategory)g.below((int)strcatOther); S esc = g.pick<S>({"%", "\\x", "", "=="});
      m = strnput_escape(&d, &ds, pos, s.c_str(), len, cat, esc.c_str());
      S e; for (unsigned char c : eff) { if (strcategory((char)c) <= cat) e += c; else e += esc + fmt("%02X", c); }
      eff = e; g.label("escape"); break; }
    case 3: { int v = g.range(-1000, 1000); m = asnpprintf(&d, &ds, pos, "%s|%d", s.c_str(), v); eff = s + fmt("|%d", v); g.label("asnpprintf"); break; }
    default: m = g.flip() ? asnpprintf(&d, &ds, pos, "%s", s.c_str()) : strput(&d, &ds, pos, s.c_str()); eff = s; break;
    }
    g.log("op %d at %zu: %s", i, pos, show(eff).c_str());
    if (ds > old) grow++;
    model = model.substr(0, pos) + eff;
    REQUIRE(m == (int)eff.size(), "operation %d returns %d, expected %zu", i, m, eff.size());
    REQUIRE(d && ds >= model.size() + 1, "reported size %zu of the buffer is too small for %zu", ds, model.size());
    REQUIRE(S(d) == model, "buffer is %s, expected %s", show(d).c_str(), show(model).c_str());
    d[ds - 1] = d[ds - 1];      // the whole reported size is ours
  }
  if (ops >= 4 && grow) g.nontrivial();
  free(d);
  S s = anytext(g); char *a = aprintf("%s-%d", s.c_str(), (int)s.size()); REQUIRE(a && S(a) == s + fmt("-%d", (int)s.size()), "aprintf"); free(a);
  // without a size pointer
  char *q = NULL; int m = strnput(&q, NULL, 0, s.c_str(), -1); REQUIRE(m == (int)s.size() && S(q) == s, "strnput without size"); free(q);
  // asnprintf replaces
  char *r = NULL; size_t rs = 0; for (int i = 0; i < 3; i++) { S t = anytext(g, 60); m = asnprintf(&r, &rs, "<%s>", t.c_str()); REQUIRE(m == (int)t.size() + 2 && S(r) == "<" + t + ">" && rs > t.size() + 2, "asnprintf"); } free(r);
}

static int cat_ref(unsigned char c) {
  if (c == 0) return strcatNul; if (c >= 'A' && c <= 'Z') return strcatUpper; if (c >= 'a' && c <= 'z') return strcatLower; if (c >= '0' && c <= '9') return strcatDigit;
  if (strchr("-._~", c)) return strcatUnreserved; if (strchr("!$&'()*+,;=", c)) return strcatSubDelims; if (strchr(":/?#[]@", c)) return strcatGenDelims;
  if (c == '%') return strcatPercent; if (strchr("\"\\<>^{}|", c)) return strcatCExtra; if (strchr(" \f\n\r\t\v", c)) return strcatSpace; return strcatOther;
}
PBT(D22, category, 20000, 500000, 512, "character category spans of random text against the definition; non-trivial: span neither empty nor everything") {
  S s = anytext(g, 30); int cat = g.below(12); g.log("%s cat %d", show(s).c_str(), cat);
  for (unsigned char c : s) REQUIRE(strcategory((char)c) == cat_ref(c), "category of byte %02x is %d, expected %d", c, strcategory((char)c), cat_ref(c));
  REQUIRE(strcategory(0) == strcatNul, "category of NUL");
  auto span = [&](auto f) { size_t n = 0; while (n < s.size() && f(cat_ref(s[n]))) n++; return (int)n; };
  int a = span([&](int k) { return k == cat; }), b = span([&](int k) { return k != cat; }), c = span([&](int k) { return k <= cat; }), d = span([&](int k) { return k > cat; });
  if ((a && a < (int)s.size()) || (b && b < (int)s.size())) g.nontrivial();
  REQUIRE(strcatspn(s.c_str(), (StrCategory)cat) == a, "strcatspn"); REQUIRE(strcatcspn(s.c_str(), (StrCategory)cat) == b, "strcatcspn");
  REQUIRE(strcatjspn(s.c_str(), (StrCategory)cat) == c, "strcatjspn"); REQUIRE(strcatcjspn(s.c_str(), (StrCategory)cat) == d, "strcatcjspn");
}

PBT(D22, strlst, 12000, 400000, 128, "operation sequences on a string list against a vector; non-trivial: more than 32 elements or a removal") {
  char **l = NULL; size_t n = 0; std::vector<S> m; int ops = g.chance(1, 6) ? g.range(60, 140) : g.range(1, 40); bool rem = false;
  for (int i = 0; i < ops; i++) {
    int k = g.range(-(int)m.size() - 2, (int)m.size() + 2);
    switch (g.weighted({5, 4, 2, 2, 2})) {
    case 0: { S s = g.text(6); l = strlst_append(l, &n, s.c_str()); m.push_back(s); break; }
    case 1: { S s = g.text(6); l = strlst_insert(l, &n, s.c_str(), k); int j = k < 0 ? k + (int)m.size() : k; if (j < 0 || j > (int)m.size()) j = m.size(); m.insert(m.begin() + j, s); break; }
    case 2: { int j = k < 0 ? k + (int)m.size() : k; int r = strlst_remove(l, k); bool ok = j >= 0 && j < (int)m.size(); REQUIRE((r == 0) == ok, "remove %d of %zu returns %d", k, m.size(), r); if (ok) { m.erase(m.begin() + j); rem = true; } break; }
    case 3: { int j = k < 0 ? k + (int)m.size() : k; char *r = strlst_pop(l, k); bool ok = j >= 0 && j < (int)m.size(); REQUIRE((r != NULL) == ok, "pop %d of %zu", k, m.size()); if (ok) { REQUIRE(m[j] == r, "popped %s", r); m.erase(m.begin() + j); rem = true; free(r); } break; }
    default: { int j = k < 0 ? k + (int)m.size() : k; const char *r = strlst_get(l, k); bool ok = j >= 0 && j < (int)m.size(); REQUIRE((r != NULL) == ok, "get %d of %zu", k, m.size()); if (ok) REQUIRE(m[j] == r, "get %d is %s, expected %s", k, r, m[j].c_str()); }
    }
    REQUIRE(strlst_count(l) == m.size(), "count is %zu, expected %zu", strlst_count(l), m.size());
    for (size_t q = 0; q < m.size(); q++) REQUIRE(m[q] == l[q], "element %zu is %s, expected %s", q, l[q], m[q].c_str());
  }
  g.log("%d operations, %zu elements", ops, m.size());
  if (rem || m.size() > 32) g.nontrivial(); g.label(m.size() > 32 ? ">32 elements" : "<=32 elements");
  strlst_free(l);
}

// ---- semantic versions
struct Ver { std::vector<S> num, pre, build; S str() const { S s = num[0] + "." + num[1] + "." + num[2]; for (size_t i = 0; i < pre.size(); i++) s += (i ? "." : "-") + pre[i]; for (size_t i = 0; i < build.size(); i++) s += (i ? "." : "+") + build[i]; return s; } };
static S num(Gen &g) { return g.weighted({8, 2, 1}) == 0 ? fmt("%d", g.range(0, 12)) : g.flip() ? fmt("%d", g.range(0, 100000)) : "1" + g.chars("0123456789", g.range(8, 25)); }
static S ident(Gen &g, bool pre) { if (g.flip()) return num(g); S s = g.chars("abzAZ-019", g.range(1, 4)); bool alldig = s.find_first_not_of("0123456789") == S::npos; if (pre && alldig && s.size() > 1 && s[0] == '0') s += "x"; return s; }
static Ver genver(Gen &g) { Ver v; for (int i = 0; i < 3; i++) v.num.push_back(num(g)); if (g.flip()) { int k = g.range(1, 3); while (k--) v.pre.push_back(ident(g, true)); } if (g.chance(1, 4)) { int k = g.range(1, 2); while (k--) v.build.push_back(ident(g, false)); } return v; }
static bool isnum(const S &s) { return s.find_first_not_of("0123456789") == S::npos; }
static int cmpnum(const S &a, const S &b) { if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1; return a < b ? -1 : a > b; }
static int cmpver(const Ver &a, const Ver &b) {
  for (int i = 0; i < 3; i++) if (int c = cmpnum(a.num[i], b.num[i])) return c;
  if (a.pre.empty() != b.pre.empty()) return a.pre.empty() ? 1 : -1;
  for (size_t i = 0; i < std::max(a.pre.size(), b.pre.size()); i++) {
    if (i >= a.pre.size()) return -1; if (i >= b.pre.size()) return 1;
    const S &x = a.pre[i], &y = b.pre[i]; int c;
    if (isnum(x) && isnum(y)) c = cmpnum(x, y); else if (isnum(x) != isnum(y)) c = isnum(x) ? -1 : 1; else c = x < y ? -1 : x > y;
    if (c) return c;
  }
  return 0;
}
static bool valid(const S &s) {   // grammar of semver.org
  size_t p = 0; auto dig = [&](char c) { return c >= '0' && c <= '9'; };
  for (int i = 0; i < 3; i++) { if (i) { if (p >= s.size() || s[p] != '.') return false; p++; } size_t k = p; while (p < s.size() && dig(s[p])) p++; if (p == k || (p > k + 1 && s[k] == '0')) return false; }
  auto ids = [&](bool pre) { do { size_t k = ++p; while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '-')) p++; if (p == k) return false; S t = s.substr(k, p - k); if (pre && isnum(t) && t.size() > 1 && t[0] == '0') return false; } while (p < s.size() && s[p] == '.'); return true; };
  if (p < s.size() && s[p] == '-' && !ids(true)) return false;
  if (p < s.size() && s[p] == '+' && !ids(false)) return false;
  return p == s.size();
}
PBT(D22, semver_cmp, 40000, 2000000, 512, "pairs of related random semantic versions compared against the semver order; non-trivial: both are pre-releases of the same version or differ only in one identifier") {
  Ver a = genver(g), b = a;
  int k = g.range(0, 2);
  if (g.chance(1, 4)) b = genver(g); else for (int i = 0; i < k; i++) switch (g.below(5)) {
    case 0: b.num[g.below(3)] = num(g); break;
    case 1: b.pre.push_back(ident(g, true)); break;
    case 2: if (!b.pre.empty()) b.pre[g.below(b.pre.size())] = ident(g, true); break;
    case 3: if (!b.pre.empty()) b.pre.pop_back(); break;
    default: b.build.push_back(ident(g, false)); }
  if (g.flip()) std::swap(a, b);
  S x = a.str(), y = b.str(); g.log("%s ~ %s", x.c_str(), y.c_str());
  bool samenum = a.num == b.num;
  if (samenum && a.pre.empty() != b.pre.empty()) { g.label("release against pre-release (known finding, not compared)"); return; }
  if (samenum && !a.pre.empty()) g.nontrivial();
  int want = cmpver(a, b); g.label(want ? "different" : "equal");
  char *p = strdup(x.c_str()), *q = strdup(y.c_str());
  REQUIRE(strcmp_semver(p, q) == want, "strcmp_semver(%s, %s) = %d, expected %d", p, q, strcmp_semver(p, q), want);
  REQUIRE(strncmp_semver(p, q, std::max(x.size(), y.size()) + g.range(0, 5)) == want, "strncmp_semver(%s, %s) differs", p, q);
  free(p); free(q);
}
PBT_KNOWN(D22, semver_prerelease, "pre-release order") { return strcmp_semver("1.0.0-alpha", "1.0.0") != -1; }

PBT(D22, semver_chk, 40000, 2000000, 512, "valid and mutated semantic versions and prefixes judged by the grammar; non-trivial: rejected") {
  S s = genver(g).str(); int k = g.range(0, 2);
  for (int i = 0; i < k; i++) { size_t at = g.below(s.size() + 1); switch (g.below(3)) { case 0: if (at < s.size()) s.erase(at, 1); break; case 1: s.insert(at, 1, ".-+0 9av_~"[g.below(10)]); break; default: if (at < s.size()) s[at] = ".-+0 9av_~"[g.below(10)]; } }
  size_t n = g.flip() ? s.size() : g.below(s.size() + 4);
  g.log("%s n %zu", show(s).c_str(), n);
  bool v = valid(s); S t = s.substr(0, std::min(n, s.size())); bool vn = valid(t); if (!v) g.nontrivial(); g.label(v ? "valid" : "invalid");
  char *p = strdup(s.c_str()); int r = strchk_semver(p); REQUIRE(r == (v ? (int)s.size() : -1), "strchk_semver(%s) = %d", show(s).c_str(), r); free(p);
  Exact x(n <= s.size() ? t : s + S(1, '\0')); r = strnchk_semver(x.p, n);
  REQUIRE(r == (vn ? (int)t.size() : -1), "strnchk_semver(%s, %zu) = %d", show(s).c_str(), n, r);
}

PBT(D22, natoi, 15000, 300000, 512, "natoi on text with signs and blanks and a length limit; non-trivial: limit cuts the number") {
  int v = g.range(-99999999, 99999999); S s = S(g.range(0, 2), ' ') + (v >= 0 && g.chance(1, 4) ? "+" : "") + fmt("%d", v) + g.pick<S>({"", " ", "x", "."});
  int n = g.range(-1, (int)s.size() + 2); S t = n < 0 ? "" : s.substr(0, std::min<size_t>(n, s.size())); int want = atoi(t.c_str());
  g.log("%s n %d", show(s).c_str(), n); if (n < (int)s.size()) g.nontrivial();
  Exact x(n < 0 || n > (int)s.size() ? s + S(1, '\0') : t); REQUIRE(natoi(x.p, n) == want, "natoi(%s, %d) = %d, expected %d", show(s).c_str(), n, natoi(x.p, n), want);
}

PBT(D22, strtob, 15000, 300000, 512, "boolean words in random case with blanks, prefixes and suffixes; non-trivial: recognised") {
  static const std::vector<S> T = {"1", "true", ".true.", "yes", "on"}, F = {"0", "false", ".false.", "no", "off"};
  S s; int kind = g.below(4); if (kind == 0) s = g.pick(T); else if (kind == 1) s = g.pick(F); else if (kind == 2) s = g.pick<S>({"", "maybe", "tru", ".false", "-", "2", "y", "n", ".", "of"}); else s = g.text(6);
  for (auto &c : s) if (g.chance(1, 3)) c = toupper(c);
  S t = (s.empty() ? "" : S(g.range(0, 2), " \t\n"[g.below(3)])) + s + (s.empty() ? "" : g.pick<S>({"", "", " ", ",", "x", "1"}));
  S u = t; size_t b = u.find_first_not_of(" \t\n\v\f\r"); if (b == S::npos) b = u.size();
  int want = -1; size_t end = std::min(u.size(), b + 1); S low = u.substr(b); for (auto &c : low) c = tolower((unsigned char)c);
  for (auto &w : T) if (want < 0 && low.compare(0, w.size(), w) == 0) { want = 1; end = b + w.size(); }
  for (auto &w : F) if (want < 0 && low.compare(0, w.size(), w) == 0) { want = 0; end = b + w.size(); }
  if (t.empty()) { want = 0; end = 0; }
  g.log("%s", show(t).c_str()); if (want >= 0) g.nontrivial();
  char *p = strdup(t.c_str()), *e = NULL; int r = strtob(p, &e);
  REQUIRE(r == want, "strtob(%s) = %d, expected %d", show(t).c_str(), r, want); REQUIRE(e == p + end, "strtob(%s) consumes %ld, expected %zu", show(t).c_str(), (long)(e - p), end);
  REQUIRE(atob(p) == want, "atob"); free(p); REQUIRE(strtob(NULL, NULL) == 0, "strtob(NULL)");
}

// naive reference matcher; 0: no syntax error
static bool gm(const S &p, size_t i, const S &s, size_t j) {
  if (i == p.size()) return j == s.size();
  unsigned char c = p[i];
  if (c == '*') { for (size_t k = j; k <= s.size(); k++) if (gm(p, i + 1, s, k)) return true; return false; }
  if (j >= s.size()) return false;
  unsigned char ch = s[j];
  if (c == '?') return gm(p, i + 1, s, j + 1);
  if (c == '\\') return i + 1 < p.size() && p[i + 1] == s[j] && gm(p, i + 2, s, j + 1);
  if (c == '[') {
    size_t q = p.find(']', i + 2); if (q == S::npos) return false;
    size_t a = i + 1; bool neg = p[a] == '^'; if (neg) a++; bool in = false;
    while (a < q) { if (a + 2 < q && p[a + 1] == '-') { if ((unsigned char)p[a] <= ch && ch <= (unsigned char)p[a + 2]) in = true; a += 3; } else { if ((unsigned char)p[a] == ch) in = true; a++; } }
    return in != neg && gm(p, q + 1, s, j + 1);
  }
  return p[i] == s[j] && gm(p, i + 1, s, j + 1);
}
PBT(D22, glob, 40000, 2000000, 512, "glob patterns derived from strings, judged by a naive matcher; non-trivial: pattern with at least two special elements") {
  S s = g.flip() ? g.chars("ab/.-]c", g.size(10)) : g.text(10); S p; int sp = 0;
  size_t i = 0;
  while (i < s.size() || g.chance(1, 5)) {
    unsigned char c = i < s.size() ? s[i] : 'a';
    switch (g.weighted({6, 2, 2, 2, 1})) {
    case 0: if (i < s.size()) { if (strchr("*?[\\", c)) p += '\\'; p += c; i++; } break;
    case 1: p += '?'; i++; sp++; break;
    case 2: p += '*'; i += g.range(0, 3); sp++; break;
    case 3: { S cl; int k = g.range(1, 3); bool neg = g.chance(1, 3);
        for (int q = 0; q < k; q++) { unsigned char d = g.flip() ? c : (unsigned char)g.pick<char>({'a', 'z', 'm', 'A', (char)0xc3, (char)0xe5, '-', '^', '/'}); if (d == ']' && !cl.empty()) d = 'q'; if (g.chance(1, 3) && d != ']') { unsigned char lo = d > 3 ? d - g.range(0, 3) : d, hi = std::min(255, d + g.range(0, 3)); if (lo == ']' || hi == ']' || (cl.empty() && lo == '^')) cl += d == '^' && cl.empty() ? 'x' : d; else { cl += lo; cl += '-'; cl += hi; } } else cl += (cl.empty() && d == '^') ? 'x' : d; }
        if (neg && cl[0] == ']') cl[0] = 'y';
        p += "["; if (neg) p += "^"; p += cl + "]"; i++; sp++; break; }
    default: p += '\\'; p += (c ? c : 'a'); i++; sp++; }
    if (p.size() > 60) break;
  }
  if (g.chance(1, 4) && !p.empty()) { size_t at = g.below(p.size()); p[at] = "*?[]\\a-^"[g.below(8)]; }
  for (auto &c : p) if (!c) c = 'x'; for (auto &c : s) if (!c) c = 'x';
  g.log("%s ~ %s", show(p).c_str(), show(s).c_str()); if (sp >= 2) g.nontrivial();
  size_t o = 0; int nst = 0; for (char c : p) nst += c == '*'; if (nst > 6) { g.label("too many stars (skipped)"); return; } (void)o;
  // reverse ranges and '^]' classes after a mutation are not specified
  char *a = strdup(p.c_str()), *b = strdup(s.c_str()); int r = globmatch(a, b); free(a); free(b);
  if (p.find("[^]") != S::npos) { g.label("[^] (skipped)"); return; }
  bool want = gm(p, 0, s, 0); g.label(want ? "match" : "no match");
  REQUIRE((r == 0) == want, "globmatch(%s, %s) = %d, expected %s", show(p).c_str(), show(s).c_str(), r, want ? "match" : "no match");
}

PBT(D22, pow2, 10000, 200000, 1024, "clp2/flp2 around powers of two against the definition; non-trivial: above 2^16") {
  int b = g.range(0, 62); size_t x = ((size_t)1 << b) + (b > 1 ? g.range(-2, 2) : 0); if (g.chance(1, 3)) x = g.raw(((size_t)1 << 62)); if (!x) x = 1;
  size_t up = 1; while (up < x) up <<= 1; size_t dn = 1; while (dn <= x / 2) dn <<= 1;
  g.log("%zu", x); if (x > 65536) g.nontrivial();
  REQUIRE(clp2(x) == up, "clp2(%zu) = %zu, expected %zu", x, clp2(x), up); REQUIRE(flp2(x) == dn, "flp2(%zu) = %zu, expected %zu", x, flp2(x), dn);
}
PBT_MAIN
