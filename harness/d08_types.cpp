// flavours: asan
// D08: type names and printed values round-trip
#include "dmodel.hpp"

static bool isword(char c) { return isalnum((unsigned char)c) || c == '_'; }

// Reference recogniser of type names (without metadata references)
static bool ref_type(const S &s, Ty &t) {
  size_t e = 0; while (e < s.size() && isword(s[e])) e++;
  S w = s.substr(0, e);
  static const std::map<S, Ty> names = {
    {"bool", {dliteBool, sizeof(bool)}}, {"int", {dliteInt, 8}}, {"integer", {dliteInt, 8}}, {"int8", {dliteInt, 1}}, {"int16", {dliteInt, 2}},
    {"int32", {dliteInt, 4}}, {"int64", {dliteInt, 8}}, {"uint", {dliteUInt, 8}}, {"uint8", {dliteUInt, 1}}, {"uint16", {dliteUInt, 2}},
    {"uint32", {dliteUInt, 4}}, {"uint64", {dliteUInt, 8}}, {"float", {dliteFloat, 8}}, {"single", {dliteFloat, 4}}, {"double", {dliteFloat, 8}},
    {"float32", {dliteFloat, 4}}, {"float64", {dliteFloat, 8}}, {"longdouble", {dliteFloat, sizeof(long double)}},
    {"string", {dliteStringPtr, sizeof(char *)}}, {"str", {dliteStringPtr, sizeof(char *)}},
    {"ref", {dliteRef, sizeof(DLiteRef)}}, {"dimension", {dliteDimension, sizeof(DLiteDimension)}}, {"property", {dliteProperty, sizeof(DLiteProperty)}},
    {"relation", {dliteRelation, sizeof(DLiteRelation)}}};
  auto it = names.find(w);
  if (it != names.end()) { t = it->second; return true; }
  size_t a = 0; while (a < w.size() && isalpha((unsigned char)w[a])) a++;
  S al = w.substr(0, a), num = w.substr(a);
  if (num.empty() || num.find_first_not_of("0123456789") != S::npos) return false;
  size_t nz = num.find_first_not_of('0'); S d = nz == S::npos ? "0" : num.substr(nz);
  if (d.size() > 9) return false;  // see the generator
  size_t v = strtoul(d.c_str(), NULL, 10);
  if (al == "blob") { t = {dliteBlob, v}; return true; }
  if (al == "string" || al == "str") { t = {dliteFixString, v + 1}; return true; }
  return false;
}

PBT(D08, typename_parse, 60000, 3000000, 1024, "parse names near type names against a reference recogniser; non-trivial: differs from every plain type name") {
  static const std::vector<S> base = {"bool", "int", "integer", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float", "single", "double",
    "float32", "float64", "string", "str", "ref", "dimension", "property", "relation", "blob", "fixstring", "blob3", "string10", "int128", "float16", "longdouble", "float128", "char", "uint24", "long"};
  S s;
  switch (g.below(6)) {
  case 0: s = g.pick(base); break;
  case 1: s = g.pick(base) + fmt("%d", g.range(0, 99999)); break;
  case 2: { s = g.pick(base); int k = g.range(0, (int)s.size()); s = s.substr(0, k); break; }
  case 3: { s = g.pick(base); s.insert(g.range(0, (int)s.size()), 1, "abz_019 ,-[*"[g.below(12)]); break; }
  case 4: s = g.pick(base) + g.pick<S>({" ", "[3]", ",", "*", "_t", "x", "_", "64", ".5", "\n", "0", "-1", " x"}); break;
  default: s = g.flip() ? g.ident() : g.text(10);
  }
  if (s.find("://") != S::npos) throw Discard{};
  { size_t i = 0, j; while (i < s.size() && isalpha((unsigned char)s[i])) i++; j = i; while (j < s.size() && isdigit((unsigned char)s[j])) j++; if (j - i > 9) { s = s.substr(0, i + 9); } }
  g.log("%s", show(s).c_str());
  if (std::find(base.begin(), base.end(), s) == base.end()) g.nontrivial();
  Ty want{dliteBlob, 0}; bool ok = ref_type(s, want);
  if (ok && want.t == dliteFloat && want.n > 8) throw Discard{};   // finding longdouble
  DLiteType dt = dliteBlob; size_t sz = 0;
  int r = dlite_type_set_dtype_and_size(s.c_str(), &dt, &sz); dlite_errclr();
  REQUIRE((r == 0) == ok, "type name %s: %s", show(s).c_str(), ok ? "refused" : "accepted");
  REQUIRE(dlite_is_type(s.c_str()) == ok, "dlite_is_type(%s) is wrong", show(s).c_str()); dlite_errclr();
  g.label(ok ? "a type" : "not a type");
  if (!ok) return;
  REQUIRE(dt == want.t && sz == want.n, "type name %s gives %s size %zu", show(s).c_str(), dlite_type_get_dtypename(dt), sz);
  // name -> type -> name -> type
  size_t bs = g.chance(3, 4) ? 40 : g.range(1, 12); char *b = (char *)malloc(bs); memset(b, 'Z', bs);
  REQUIRE(dlite_type_set_typename(dt, sz, b, bs) == 0, "no name for %s", show(s).c_str());
  REQUIRE(S(b) == tyname(want).substr(0, bs - 1), "name of %s is %s", show(s).c_str(), b);
  if (bs == 40) {
    DLiteType dt2; size_t sz2;
    REQUIRE(dlite_type_set_dtype_and_size(b, &dt2, &sz2) == 0 && dt2 == dt && sz2 == sz, "%s does not parse back", b);
    REQUIRE(dlite_type_get_dtype(dlite_type_get_dtypename(dt)) == dt, "dtype name does not parse back");
  }
  free(b);
  size_t al = dlite_type_get_alignment(dt, sz), off = g.below(100), pad = dlite_type_padding_at(dt, sz, off);
  static const std::map<int, size_t> AL = {{dliteBlob, 1}, {dliteFixString, 1}};
  size_t wal = AL.count(dt) ? 1 : dt == dliteInt || dt == dliteUInt || dt == dliteFloat || dt == dliteBool ? sz : sizeof(void *);
  REQUIRE(al == wal, "alignment of %s is %zu", s.c_str(), al);
  REQUIRE(pad < al && (off + pad) % al == 0, "padding %zu at offset %zu for %s", pad, off, s.c_str());
}

PBT(D08, metaref_type, 10000, 300000, 1024, "metadata URIs and UUIDs are reference types and nothing else that looks like a URI is; non-trivial: all") {
  S s; bool ok;
  switch (g.below(4)) {
  case 0: s = g.pick<S>({"http://", "https://", "ftp://"}) + "onto-ns.com/" + g.ident() + fmt("/%d.%d/", g.range(0, 9), g.range(0, 99)) + g.ident(); ok = true; break;
  case 1: { char u[40]; dlite_get_uuid(u, g.ident().c_str()); s = u; if (g.flip()) for (auto &c : s) c = toupper(c); ok = true; break; }
  case 2: s = g.pick<S>({"http:/", "http", "htt://", "//", "urn:"}) + "onto-ns.com/" + g.ident() + "/0.1/" + g.ident(); ok = false; break;
  default: { char u[40]; dlite_get_uuid(u, g.ident().c_str()); s = u; int k = g.range(0, 35); if (g.flip()) s.erase(k, 1); else s[k] = 'g'; ok = false;
      if (s.find('-') == S::npos) ok = false; }
  }
  g.log("%s", show(s).c_str()); g.nontrivial();
  DLiteType dt = dliteBlob; size_t sz = 0; int r = dlite_type_set_dtype_and_size(s.c_str(), &dt, &sz); dlite_errclr();
  REQUIRE((r == 0) == ok, "type %s: %s", show(s).c_str(), ok ? "refused" : "accepted");
  if (ok) REQUIRE(dt == dliteRef && sz == sizeof(DLiteRef), "type of %s is %d", s.c_str(), dt);
}

// Flags for which printing followed by scanning is meant to be the identity
static const DLiteTypeFlag ROUND[] = {dliteFlagDefault, dliteFlagRaw, dliteFlagQuoted};

PBT(D08, print_scan, 40000, 2000000, 256, "print a random value of a random type into buffers of any size, scan the text; non-trivial: other than a plain integer") {
  Ty t = gen_type(g, TY_REL | TY_META); if (t.t == dliteRef) throw Discard{};
  Elem e = gen_elem(g, t, g.chance(3, 4)); DLiteTypeFlag fl = ROUND[g.below(3)];
  bool str = t.t == dliteStringPtr || t.t == dliteFixString;
  if (t.t == dliteBlob && fl != dliteFlagQuoted) fl = dliteFlagQuoted;   // blobs are printed with quotes, which only this flag scans
  if (t.t == dliteStringPtr && e.null) throw Discard{};   // a missing string is printed as null, which only the property level reads back
  int width = g.pick<int>({0, 0, -1, 12, 30}), prec = t.t == dliteFloat ? -3 : g.pick<int>({-2, -1, -3});
  if (t.t != dliteFloat && t.t != dliteInt && t.t != dliteUInt && t.t != dliteBool) width = 0;
  g.log("%s %s flags %d width %d prec %d", tyname(t).c_str(), elemstr(e, t).c_str(), fl, width, prec);
  g.label(dlite_type_get_dtypename(t.t));
  if (!(t.t == dliteInt && t.n >= 4)) g.nontrivial();
  Mem m(t); m.put(0, e);
  // full length, with no buffer at all
  int n = dlite_type_print(NULL, 0, m.p, t.t, t.n, width, prec, fl);
  REQUIRE(n >= 0, "printing fails");
  std::vector<char> full(n + 1);
  { char *b = (char *)malloc(n + 1); int n2 = dlite_type_print(b, n + 1, m.p, t.t, t.n, width, prec, fl);
    REQUIRE(n2 == n && strlen(b) == (size_t)n, "print returns %d, then %d, text has %zu bytes", n, n2, strlen(b)); memcpy(full.data(), b, n + 1); free(b); }
  S text(full.data());
  // too small buffer
  { size_t bs = g.below(n + 1); char *b = (char *)malloc(bs + 1); memset(b, 'Z', bs + 1);
    int n3 = dlite_type_print(b, bs, m.p, t.t, t.n, width, prec, fl);
    REQUIRE(n3 == n, "print to a buffer of %zu bytes returns %d, expected %d", bs, n3, n);
    REQUIRE(b[bs] == 'Z', "print writes outside the buffer");
    if (bs) REQUIRE(memchr(b, 0, bs) && text.compare(0, strlen(b), b) == 0, "text in too small buffer is not a prefix: %s", show(S(b, strnlen(b, bs))).c_str());
    free(b); }
  // aprint at position
  { size_t cap = 0, pos = 0; char *b = NULL; S pre;
    if (g.flip()) { pre = g.chars("xyz", g.range(0, 5)); pos = pre.size(); cap = pos + g.range(1, 10); b = (char *)malloc(cap); memset(b, 0, cap); memcpy(b, pre.data(), pos); }
    int n4 = dlite_type_aprint(&b, &cap, pos, m.p, t.t, t.n, width, prec, fl);
    REQUIRE(n4 == n && S(b) == pre + text, "aprint gives %d %s", n4, show(b).c_str()); free(b); }
  // scan the text, followed by anything or by the end of the allocation
  bool raw = str && (fl == dliteFlagRaw || fl == dliteFlagDefault);
  bool limit = g.flip(); bool str_ = t.t == dliteDimension || t.t == dliteProperty || t.t == dliteRelation;   // a whole JSON text
  S tail = limit || raw ? "" : str_ ? g.pick<S>({"", " ", "\n"}) : g.pick<S>({"", " ", ",", "]", "}", "\n"});
  S src = text + tail; if (!limit) src += '\0';
  char *b = (char *)malloc(src.size() ? src.size() : 1); memcpy(b, src.data(), src.size());
  Mem d(t); if (g.flip()) d.put(0, gen_elem(g, t));
  int k = dlite_type_scan(b, limit ? (int)text.size() : -1, d.p, t.t, t.n, fl);
  Elem got = get_elem(d.p, t);
  S gs = elemstr(got, t); free(b);
  REQUIRE(k >= 0, "%s does not scan (%d): %s", show(text).c_str(), k, dlite_errmsg());
  REQUIRE(k == n, "%s: %d bytes consumed of %d", show(text).c_str(), k, n);
  if (t.t == dliteProperty) { e.f[3] = e.f[3].null || e.f[3].b.empty() ? Elem::Null() : e.f[3]; }
  REQUIRE(same(got, e, t), "%s scans as %s", show(text).c_str(), gs.c_str());
}

PBT(D08, print_format, 20000, 600000, 512, "numbers are printed exactly as C prints them with the same width and precision, and texts are cut at the precision; non-trivial: width or precision given") {
  Ty t = gen_type(g, 0);
  if (t.t != dliteInt && t.t != dliteUInt && t.t != dliteFloat && t.t != dliteFixString && t.t != dliteStringPtr && t.t != dliteBlob) throw Discard{};
  if (t.t == dliteFloat && t.n > 8) throw Discard{};
  Elem e = gen_elem(g, t); if (e.null) throw Discard{};
  int width = g.pick<int>({0, 0, 1, 7, 25}), prec = g.pick<int>({-2, 0, 1, 3, 17});
  if (t.t == dliteBlob) width = 0, prec = -2;
  if (t.t == dliteFixString || t.t == dliteStringPtr) width = 0;
  if (width || prec != -2) g.nontrivial();
  Mem m(t); m.put(0, e); char b[4096], want[4096];
  g.log("%s %s width %d prec %d", tyname(t).c_str(), elemstr(e, t).c_str(), width, prec); g.label(dlite_type_get_dtypename(t.t));
  int n = dlite_type_print(b, sizeof b, m.p, t.t, t.n, width, prec, dliteFlagRaw);
  if (n >= (int)sizeof b) throw Discard{};
  REQUIRE(n >= 0, "printing fails");
  if (t.t == dliteInt) {
    long long v = t.n == 1 ? *(int8_t *)m.p : t.n == 2 ? *(int16_t *)m.p : t.n == 4 ? *(int32_t *)m.p : *(int64_t *)m.p;
    snprintf(want, sizeof want, "%*.*lld", width, prec, v);
  } else if (t.t == dliteUInt) {
    unsigned long long v = t.n == 1 ? *(uint8_t *)m.p : t.n == 2 ? *(uint16_t *)m.p : t.n == 4 ? *(uint32_t *)m.p : *(uint64_t *)m.p;
    snprintf(want, sizeof want, "%*.*llu", width, prec, v);
  } else if (t.t == dliteFloat) {
    snprintf(want, sizeof want, "%*.*g", width, prec, t.n == 4 ? (double)*(float *)m.p : *(double *)m.p);
  } else if (t.t == dliteBlob) {
    size_t k = 0; for (size_t i = 0; i < t.n; i++) k += snprintf(want + k, sizeof want - k, "%02x", ((unsigned char *)m.p)[i]);
    // leading blanks are not part of the value
    S src = g.pick<S>({"", " ", "\t "}) + S(want); Mem d(t);
    int r = dlite_type_scan(src.c_str(), -1, d.p, t.t, t.n, dliteFlagRaw);
    REQUIRE(r == (int)src.size() && memcmp(d.p, m.p, t.n) == 0, "%s scans as %d", show(src).c_str(), r);
    // a text which is one digit short is no value
    src = S(want, k - 1); r = dlite_type_scan(src.c_str(), -1, d.p, t.t, t.n, dliteFlagRaw); dlite_errclr();
    REQUIRE(r < 0, "%s is accepted", show(src).c_str());
  } else {
    S v = t.t == dliteFixString ? S((char *)m.p, strnlen((char *)m.p, t.n)) : S(*(char **)m.p);
    if (prec > 0 && (int)v.size() > prec) v = v.substr(0, prec);
    if (v.size() >= sizeof want) throw Discard{};
    strcpy(want, v.c_str());
  }
  REQUIRE(!strcmp(b, want) && n == (int)strlen(b), "printed as %s (%d), expected %s", show(b).c_str(), n, show(want).c_str());
}

extern "C" const char *dlite_type_get_native_typename(DLiteType dtype, size_t size);
PBT(D08, declarations, 6000, 200000, 512, "C and Fortran declarations of variables of any type against what the type is; non-trivial: more than one level of pointers or a type with a size") {
  Ty t = gen_type(g, TY_REL | TY_META | TY_REF); S name = g.ident(12); size_t nref = g.range(0, 6); if (g.chance(1, 10)) nref = g.range(7, 31);
  if (nref > 1 || t.t == dliteBlob || t.t == dliteFixString) g.nontrivial();
  g.log("%s %s %zu", tyname(t).c_str(), name.c_str(), nref); g.label(dlite_type_get_dtypename(t.t));
  S stars(nref, '*'), want, native, f, iso; unsigned long bits = 8 * (unsigned long)t.n;
  const char *ct = NULL;
  if (t.t == dliteInt || t.t == dliteUInt) { ct = t.n == 1 ? "char" : t.n == 2 ? "short" : t.n == 4 ? "int" : "long"; }
  if (t.t == dliteFloat) ct = t.n == 4 ? "float" : t.n == 8 ? "double" : NULL;
  switch (t.t) {
  case dliteBlob: case dliteFixString: want = S(t.t == dliteBlob ? "uint8_t " : "char ") + (nref ? "(" + stars + name + ")" : name) + fmt("[%lu]", (unsigned long)t.n); break;
  case dliteBool: want = "bool " + stars + name; f = "logical"; iso = "logical(c_bool)"; break;
  case dliteInt: want = fmt("int%lu_t ", bits) + stars + name; native = S(ct) + " " + stars + name; f = fmt("integer(%lu)", (unsigned long)t.n); iso = fmt("integer(c_%s)", ct); break;
  case dliteUInt: want = fmt("uint%lu_t ", bits) + stars + name; native = S("unsigned ") + ct + " " + stars + name; f = fmt("integer(%lu)", (unsigned long)t.n); break;
  case dliteFloat: want = fmt("float%lu_t ", bits) + stars + name; if (ct) { native = S(ct) + " " + stars + name; iso = fmt("real(c_%s)", ct); } f = fmt("real(%lu)", (unsigned long)t.n); break;
  case dliteStringPtr: want = "char *" + stars + name; f = "character(*)"; iso = "character(kind=c_char)"; break;
  case dliteRef: want = "DLiteInstance *" + stars + name; f = "type(DLiteInstance)"; iso = "type(c_ptr)"; break;
  case dliteDimension: want = "DLiteDimension " + stars + name; f = "type(DLiteDimension)"; iso = "type(c_ptr)"; break;
  case dliteProperty: want = "DLiteProperty " + stars + name; f = "type(DLiteProperty)"; iso = "type(c_ptr)"; break;
  case dliteRelation: want = "DLiteRelation " + stars + name; f = "type(DLiteRelation)"; iso = "type(c_ptr)"; break;
  default: throw Discard{};
  }
  if (t.t == dliteFixString) f = fmt("character(len=%lu)", (unsigned long)t.n - 1), iso = "character(kind=c_char)";
  if (native.empty()) native = want;
  for (int nat = 0; nat < 2; nat++) {
    const S &w = nat ? native : want; if (nat && t.t == dliteFloat && !ct) continue;
    size_t bs = g.chance(2, 3) ? w.size() + 1 + g.below(20) : 1 + g.below(w.size());
    char *b = (char *)malloc(bs); memset(b, '#', bs);
    int m = dlite_type_set_cdecl(t.t, t.n, name.c_str(), nref, b, bs, nat);
    REQUIRE(m == (int)w.size() && S(b) == w.substr(0, bs - 1), "declared as %s (%d) in %zu bytes, expected %s", show(b).c_str(), m, bs, show(w).c_str());
    free(b);
  }
  char b[80];
  if (f.size()) { REQUIRE(!dlite_type_set_ftype(t.t, t.n, b, sizeof b) && f == b, "Fortran type %s, expected %s", b, f.c_str()); }
  if (iso.size()) { REQUIRE(!dlite_type_set_isoctype(t.t, t.n, b, sizeof b) && iso == b, "interoperable Fortran type %s, expected %s", b, iso.c_str()); }
  const char *nn = dlite_type_get_native_typename(t.t, t.n);
  if (ct) REQUIRE(nn && S(nn) == (t.t == dliteUInt ? S("unsigned ") + ct : S(ct)), "native type %s", nn ? nn : "NULL");
  else if (t.t != dliteFloat) REQUIRE(!nn, "native type %s", nn);
  // too many levels of pointers and sizes that cannot be are refused
  REQUIRE(dlite_type_set_cdecl(t.t, t.n, name.c_str(), 32 + g.below(5), b, sizeof b, 0) < 0, "32 levels of pointers accepted"); dlite_errclr();
  if (t.t == dliteBool || t.t == dliteStringPtr || t.t == dliteRef || t.t == dliteDimension || t.t == dliteProperty || t.t == dliteRelation) { REQUIRE(dlite_type_set_cdecl(t.t, t.n + 1 + g.below(8), name.c_str(), 0, b, sizeof b, 0) < 0, "wrong size accepted"); dlite_errclr(); }
}

PBT(D08, scan_any, 30000, 1500000, 256, "scan mutated or random text of any type with an exact length limit: stays inside, leaves a valid value; non-trivial: scanning fails or the text is mutated") {
  Ty t = gen_type(g, TY_REL | TY_META); if (t.t == dliteRef) throw Discard{};
  S text;
  if (g.chance(3, 4)) {
    Elem e = gen_elem(g, t); Mem m(t); m.put(0, e); char *b = NULL; size_t n = 0;
    dlite_type_aprint(&b, &n, 0, m.p, t.t, t.n, 0, -2, dliteFlagQuoted); text = b ? b : ""; free(b);
    int k = g.range(0, 4);
    for (int i = 0; i < k; i++) {
      size_t p = g.range(0, (int)text.size());
      switch (g.below(4)) {
      case 0: text = text.substr(0, p); break;
      case 1: text.insert(p, 1, "\"\\,{}[]:0x- nt"[g.below(14)]); break;
      case 2: if (p < text.size()) text.erase(p, 1); break;
      default: if (p < text.size()) text[p] = (char)g.range(1, 255);
      }
    }
  } else text = g.text(20);
  DLiteTypeFlag fl = (DLiteTypeFlag)g.below(8);
  bool limit = g.chance(2, 3);
  g.log("%s %s flags %d limit %d", tyname(t).c_str(), show(text).c_str(), fl, limit);
  S src = text; if (!limit) src += '\0';
  char *b = (char *)malloc(src.size() ? src.size() : 1); memcpy(b, src.data(), src.size());
  Mem d(t); if (g.flip()) d.put(0, gen_elem(g, t));
  int k = dlite_type_scan(b, limit ? (int)text.size() : -1, d.p, t.t, t.n, fl);
  dlite_errclr(); g.nontrivial();
  g.label(k < 0 ? "refused" : "accepted");
  REQUIRE(k <= (int)text.size(), "%d bytes consumed of %zu", k, text.size());
  if (k >= 0 && (t.t == dliteInt || t.t == dliteUInt || t.t == dliteFloat || t.t == dliteBool)) {
    // the value depends on the consumed text only
    Mem d2(t); S used = text.substr(0, k); int k2 = dlite_type_scan(used.c_str(), -1, d2.p, t.t, t.n, fl);
    REQUIRE(k2 == k && same(d2.get(0), d.get(0), t), "%s read alone gives %s, with what follows %s", show(used).c_str(), elemstr(d2.get(0), t).c_str(), elemstr(d.get(0), t).c_str());
  }
  free(b);
}

PBT_KNOWN(D08, longdouble, "type name \"longdouble\" is accepted, but its own name (float128) is not and its values can neither be printed, scanned nor converted") {
  DLiteType dt; size_t sz; long double v = 1.5L; (void)g;
  if (dlite_type_set_dtype_and_size("longdouble", &dt, &sz)) { dlite_errclr(); return false; }
  char b[64]; int bad = dlite_type_print(b, sizeof b, &v, dt, sz, 0, -2, dliteFlagDefault) < 0; dlite_errclr();
  DLiteType dt2; size_t sz2; char nm[32]; dlite_type_set_typename(dt, sz, nm, sizeof nm);
  bad |= dlite_type_set_dtype_and_size(nm, &dt2, &sz2) != 0; dlite_errclr();
  return bad;
}
static void init() { dlite_err_set_stream(NULL); }
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
