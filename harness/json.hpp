// Strict JSON parser (RFC 8259) and printer with free choice of spelling
#pragma once
#include "pbt.hpp"
#include <map>
namespace js {
typedef std::string S;
struct V {
  char k = 'n';                        // n null, t true, f false, # number, s string, a array, o object
  S s; bool plain = false; std::vector<V> a; std::vector<std::pair<S, V>> o;
  const V *get(const S &key) const { for (auto &x : o) if (x.first == key) return &x.second; return NULL; }
  bool isnull() const { return k == 'n'; }
};
static inline V str(const S &s) { V v; v.k = 's'; v.s = s; return v; }
static inline V num(const S &s) { V v; v.k = '#'; v.s = s; return v; }
static inline V null() { return V(); }
static inline V arr(std::vector<V> a = {}) { V v; v.k = 'a'; v.a = a; return v; }
static inline V obj() { V v; v.k = 'o'; return v; }
static inline V boolean(bool b) { V v; v.k = b ? 't' : 'f'; return v; }

static bool dup_ok = false;   // accept duplicate keys inside values
struct Parser {
  const S &t; size_t p = 0; S err; int depth = 0;
  Parser(const S &text) : t(text) {}
  bool bad(const S &m) { if (err.empty()) err = m + pbt::fmt(" at %zu: %s", p, pbt::show(t.substr(p > 20 ? p - 20 : 0, 50)).c_str()); return false; }
  void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) p++; }
  static void utf8(S &s, unsigned c) {
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  }
  bool hex4(unsigned &c) {
    c = 0; for (int i = 0; i < 4; i++, p++) { if (p >= t.size() || !isxdigit((unsigned char)t[p])) return bad("bad \\u escape"); char x = t[p]; c = c * 16 + (x <= '9' ? x - '0' : (x | 32) - 'a' + 10); }
    return true;
  }
  bool string(S &out) {
    if (p >= t.size() || t[p] != '"') return bad("expected string");
    p++;
    for (;;) {
      if (p >= t.size()) return bad("unterminated string");
      unsigned char c = t[p];
      if (c == '"') { p++; return true; }
      if (c < 0x20) return bad("control character in string");
      if (c == '\\') {
        p++; if (p >= t.size()) return bad("unterminated escape");
        char e = t[p++];
        switch (e) {
        case '"': case '\\': case '/': out += e; break;
        case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break;
        case 'u': {
          unsigned c; if (!hex4(c)) return false;
          if (c >= 0xd800 && c < 0xdc00) {
            unsigned d; if (t.compare(p, 2, "\\u")) return bad("lone surrogate");
            p += 2; if (!hex4(d)) return false;
            if (d < 0xdc00 || d > 0xdfff) return bad("lone surrogate");
            c = 0x10000 + ((c - 0xd800) << 10) + (d - 0xdc00);
          } else if (c >= 0xdc00 && c < 0xe000) return bad("lone surrogate");
          utf8(out, c); break; }
        default: p--; return bad("unknown escape");
        }
      } else if (c < 0x80) { out += c; p++; }
      else {
        int n = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : 1;
        if (c < 0xc2 || c > 0xf4 || p + n >= t.size()) return bad("invalid UTF-8");
        for (int i = 1; i <= n; i++) if (((unsigned char)t[p + i] & 0xc0) != 0x80) return bad("invalid UTF-8");
        out += t.substr(p, n + 1); p += n + 1;
      }
    }
  }
  bool value(V &v) {
    if (++depth > 200) return bad("too deep");
    ws(); if (p >= t.size()) return bad("expected value");
    char c = t[p];
    if (c == '{') {
      v.k = 'o'; p++; ws();
      if (p < t.size() && t[p] == '}') p++;
      else for (;;) {
        S key; ws(); if (!string(key)) return false;
        if (v.get(key) && !(dup_ok && depth > 1)) return bad("duplicate key " + pbt::show(key));
        ws(); if (p >= t.size() || t[p] != ':') return bad("expected ':'");
        p++; V x; if (!value(x)) return false;
        v.o.push_back({key, x}); ws();
        if (p < t.size() && t[p] == ',') { p++; continue; }
        if (p < t.size() && t[p] == '}') { p++; break; }
        return bad("expected ',' or '}'");
      }
    } else if (c == '[') {
      v.k = 'a'; p++; ws();
      if (p < t.size() && t[p] == ']') p++;
      else for (;;) {
        V x; if (!value(x)) return false;
        v.a.push_back(x); ws();
        if (p < t.size() && t[p] == ',') { p++; continue; }
        if (p < t.size() && t[p] == ']') { p++; break; }
        return bad("expected ',' or ']'");
      }
    } else if (c == '"') { v.k = 's'; if (!string(v.s)) return false; }
    else if (!t.compare(p, 4, "null")) { v.k = 'n'; p += 4; }
    else if (!t.compare(p, 4, "true")) { v.k = 't'; p += 4; }
    else if (!t.compare(p, 5, "false")) { v.k = 'f'; p += 5; }
    else {
      size_t q = p; v.k = '#';
      auto dig = [&] { size_t s = q; while (q < t.size() && isdigit((unsigned char)t[q])) q++; return q > s; };
      if (q < t.size() && t[q] == '-') q++;
      if (q < t.size() && t[q] == '0') q++;
      else if (!dig()) return bad("expected value");
      if (q < t.size() && t[q] == '.') { q++; if (!dig()) return bad("bad number"); }
      if (q < t.size() && (t[q] == 'e' || t[q] == 'E')) { q++; if (q < t.size() && (t[q] == '+' || t[q] == '-')) q++; if (!dig()) return bad("bad number"); }
      v.s = t.substr(p, q - p); p = q;
    }
    depth--;
    return true;
  }
};
// parses exactly one document
static inline V parse(const S &text, const char *what) {
  Parser p(text); V v; bool ok = p.value(v); p.ws();
  if (ok && p.p != text.size()) { p.bad("extra text"); ok = false; }
  if (!ok) pbt::fail("%s: not valid JSON: %s", what, p.err.c_str());
  return v;
}

// Printer; if g is given, whitespace, escapes and the order of members vary
struct Printer {
  typedef pbt::Gen Gen; Gen *g; bool shuffle; S out;
  Printer(pbt::Gen *g_, bool shuffle_ = true) : g(g_), shuffle(shuffle_) {}
  void ws() { if (!g) return; if (g->chance(1, 4)) { int n = g->range(1, 3); for (int i = 0; i < n; i++) out += g->pick<char>({' ', '\n', '\t', '\r'}); } }
  void string(const S &s) {
    out += '"';
    size_t i = 0;
    while (i < s.size()) {
      unsigned char c = s[i]; int n = c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : c >= 0xc0 ? 2 : 1;
      if (i + n > s.size()) n = 1;
      unsigned u = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
      for (int k = 1; k < n; k++) u = u << 6 | (s[i + k] & 63);
      bool esc = c == '"' || c == '\\' || c < 0x20;
      const char *two = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '\b' ? "\\b" : c == '\f' ? "\\f" : c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : c == '/' ? "\\/" : NULL;
      int how = g ? g->below(8) : 0;    // 6: short escape, 7: \u escape
      if (two && (how == 6 || (esc && how != 7))) out += two;
      else if (esc || (how == 7 && !(n == 1 && c >= 0x80))) {
        const char *f = g && g->flip() ? "\\u%04X" : "\\u%04x";
        if (u >= 0x10000) { out += pbt::fmt(f, 0xd800 + ((u - 0x10000) >> 10)); out += pbt::fmt(f, 0xdc00 + ((u - 0x10000) & 0x3ff)); }
        else out += pbt::fmt(f, u);
      } else out += s.substr(i, n);
      i += n;
    }
    out += '"';
  }
  void value(const V &v, bool keeporder = false) {
    ws();
    switch (v.k) {
    case 'n': out += "null"; break; case 't': out += "true"; break; case 'f': out += "false"; break;
    case '#': out += v.s; break;
    case 's': { Gen *h = g; if (v.plain) g = NULL; string(v.s); g = h; break; }
    case 'a': { out += '['; bool first = true; for (auto &x : v.a) { if (!first) out += ','; first = false; value(x); } ws(); out += ']'; break; }
    default: {
      std::vector<size_t> ord; for (size_t i = 0; i < v.o.size(); i++) ord.push_back(i);
      if (g && shuffle && !keeporder) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[g->below(i)]);
      out += '{'; bool first = true;
      for (size_t i : ord) {
        if (!first) out += ',';
        first = false; ws(); string(v.o[i].first); ws(); out += ':';
        // the order of these carries meaning for metadata
        value(v.o[i].second, v.o[i].first == "dimensions" || v.o[i].first == "properties");
      }
      ws(); out += '}'; }
    }
    ws();
  }
};
static inline S print(const V &v, pbt::Gen *g = NULL) { Printer p(g); p.value(v); return p.out; }
}
