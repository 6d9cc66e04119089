// flavours: asan
// D01: identifiers, their normalised form and their UUIDs
#include "dmodel.hpp"
#include "refhash.hpp"
extern "C" {
#include "dlite-behavior.h"
#include "utils/urlsplit.h"
}
static const S NS = "http://onto-ns.com/data";
struct Exact { char *p; Exact(const S &s) { p = (char *)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); } ~Exact() { free(p); } };
static S lower(S s) { for (char &c : s) c = tolower((unsigned char)c); return s; }
static S gen_uuid(Gen &g, bool mixed = true) {
  static const char *low = "0123456789abcdef", *up = "0123456789ABCDEF"; int how = mixed ? g.below(3) : 0; S s;
  for (int i = 0; i < 36; i++) if (i == 8 || i == 13 || i == 18 || i == 23) s += '-'; else { int d = g.below(16); s += how == 0 ? low[d] : how == 1 ? up[d] : g.flip() ? low[d] : up[d]; }
  return s;
}
static bool is_uuid(const S &s) {
  if (s.size() != 36) return false;
  for (int i = 0; i < 36; i++) if (i == 8 || i == 13 || i == 18 || i == 23 ? s[i] != '-' : !isxdigit((unsigned char)s[i])) return false;
  return true;
}
static bool ends_uuid(const S &s) { return s.size() >= 36 && is_uuid(s.substr(s.size() - 36)); }
static S uchars(Gen &g, int n) { S s; int k = g.size(n); for (int i = 0; i < k; i++) s += g.pick<char>({'a', 'b', 'Z', '0', '9', '-', '.', '_', '~', '!', '=', '+'}); return s; }
static S gen_uri(Gen &g) {
  S s = g.pick<S>({"http://onto-ns.com/meta/0.1/", "http://a/", "https://ex.org/", "ftp://h:21/", "file:/", "http://onto-ns.com/data/", "x+y://u@h/p/", "s:/"});
  int n = g.size(4); for (int i = 0; i < n; i++) s += "s" + uchars(g, g.chance(1, 12) ? 300 : 10) + (g.chance(1, 8) ? "//" : "/");
  return s;
}
enum Kind { RANDOM, UUID, URIUUID, URI, NAME };
static S gen_id(Gen &g, Kind &k) {
  S s;
  switch (g.below(12)) {
  case 0: case 1: k = UUID; return gen_uuid(g);
  case 2: case 3: k = URIUUID; return gen_uri(g) + (g.chance(1, 3) ? "f#" : "") + gen_uuid(g);
  case 4: case 5: case 6: k = URI; s = gen_uri(g) + "e" + uchars(g, 8); if (g.chance(1, 6)) s += "#f" + uchars(g, 5); if (g.chance(1, 5)) { S u = gen_uuid(g); u[g.below(36)] = 'g'; s += u; } return s;
  case 7: k = NAME; s = gen_uuid(g); if (g.flip()) s.erase(g.below(36), 1); else s[g.below(36)] = g.pick<char>({'g', '/', '-', '0' - 1, 'x'}); if (is_uuid(s)) k = UUID; return s;
  case 8: k = NAME; s = "n" + uchars(g, 8); if (g.chance(1, 3)) s += gen_uuid(g).substr(0, g.range(20, 35)) + "z"; return s;
  case 9: { k = NAME; int n = g.pick<int>({225, 228, 229, 230, 231, 232, 233, 234, 255, 256, 257, 400, 2000}) + g.range(-3, 3); s = "l" + uchars(g, 20); while ((int)s.size() < n) s += (char)('a' + s.size() % 26); return s; }
  case 10: k = NAME; s = g.text(20); for (char &c : s) if (c == ':' || c == 0) c = '.'; if (s.empty()) k = RANDOM; return s;
  default: k = NAME; return g.pick<S>({"a", "/", "aa6060", "C:/dir/file", "a b", "//x", "1:x", "http", "./http://x", ".:x"});
  }
}
static S want_uuid(Kind k, const S &id, bool nsid) {
  switch (k) {
  case UUID: return lower(id);
  case URIUUID: return lower(id.substr(id.size() - 36));
  case URI: return refhash::uuid(5, refhash::NS_DNS, id);
  default: return refhash::uuid(5, refhash::NS_DNS, nsid ? NS + "/" + id : id);
  }
}
static bool urlchars(const S &s) { for (char c : s) if (!(isalnum((unsigned char)c) && !(c & 0x80)) && !strchr("-._~!$&'()*+,;=/:@", c)) return false; return true; }
static const char *KN[] = {"empty", "uuid", "uri/uuid", "uri", "name"};

PBT(D01, resolve, 20000, 300000, 128, "names, URIs, UUIDs and strings nearly of these forms of all lengths, also as the beginning of longer text, with both settings of namespacedID; non-trivial: anything but a plain lower-case UUID") {
  Kind k; S id = gen_id(g, k); bool nsid = g.flip();
  if (k == NAME && isurl(id.c_str())) throw Discard{};
  REQUIRE(dlite_behavior_set("namespacedID", nsid) == 0, "cannot set namespacedID");
  if (!(k == UUID && lower(id) == id)) g.nontrivial();
  g.log("%s %s namespacedID %d", KN[k], show(id).c_str(), nsid); g.label(KN[k]);
  char buf[37]; memset(buf, 'x', 37);
  if (k == RANDOM || g.chance(1, 40)) {
    std::set<S> seen;
    for (int i = 0; i < 6; i++) {
      DLiteIdType t = i == 0 ? dlite_get_uuid(buf, NULL) : i == 1 ? dlite_get_uuid(buf, "") : i == 2 ? dlite_get_uuidn(buf, "abc", 0) : i == 3 ? dlite_get_uuidn(buf, NULL, 5) : dlite_get_uuid(buf, NULL);
      REQUIRE(t == dliteIdRandom && is_uuid(buf) && buf[14] == '4' && strchr("89ab", buf[19]) && lower(buf) == buf, "the missing identifier gives %s, type %d", buf, t);
      REQUIRE(seen.insert(buf).second, "%s came twice", buf);
    }
    REQUIRE(dlite_idtype("") == dliteIdRandom && dlite_idtype(NULL) == dliteIdRandom && dlite_idtypen("abc", 0) == dliteIdRandom, "type of the missing identifier");
    char nb[8] = "xxxxxxx"; REQUIRE(dlite_normalise_id(nb, 8, g.flip() ? NULL : "", NULL) == 0 && nb[0] == 0, "normalising the missing identifier");
    if (k == RANDOM) return;
  }
  S want = want_uuid(k, id, nsid); DLiteIdType wt = k == UUID || k == URIUUID ? dliteIdCopy : dliteIdHash;
  DLiteIdType t = dlite_get_uuid(buf, id.c_str());
  REQUIRE(t == wt && want == buf, "%s %s resolves to %s (type %d), expected %s (type %d)", KN[k], show(id).c_str(), buf, t, want.c_str(), wt);
  // the length-limited variants
  S suffix = g.pick<S>({"", "a", "/", "0", "#x", " ", "-", ":", "?q", "/" + gen_uuid(g, false), gen_uuid(g, false)}), lng = id + suffix;
  memset(buf, 'x', 37); t = dlite_get_uuidn(buf, lng.c_str(), id.size());
  REQUIRE(t == wt && want == buf, "the first %zu characters of %s resolve to %s (type %d), expected %s", id.size(), show(lng).c_str(), buf, t, want.c_str());
  { Exact e(id); memset(buf, 'x', 37); t = dlite_get_uuidn(buf, e.p, id.size()); REQUIRE(t == wt && want == buf, "unterminated %s resolves to %s", show(id).c_str(), buf); }
  { memset(buf, 'x', 37); t = _dlite_get_uuidn(buf, lng.c_str(), id.size(), !nsid); S w2 = want_uuid(k, id, !nsid); REQUIRE(t == wt && w2 == buf, "%s resolves to %s with namespacedID %d, expected %s", show(id).c_str(), buf, !nsid, w2.c_str()); }
  REQUIRE(!!dlite_isuuid(lng.c_str()) == (lng.size() >= 36 && is_uuid(lng.substr(0, 36))), "dlite_isuuid(%s)", show(lng).c_str());
  // a final slash or hash is recorded as a finding
  bool trailing = strchr("/#", id.back());
  if (!trailing) {
    REQUIRE(dlite_idtype(id.c_str()) == wt, "%s %s has type %d, expected %d", KN[k], show(id).c_str(), dlite_idtype(id.c_str()), wt);
    REQUIRE(dlite_idtypen(lng.c_str(), id.size()) == wt, "the first %zu characters of %s have type %d, expected %d", id.size(), show(lng).c_str(), dlite_idtypen(lng.c_str(), id.size()), wt);
  }
  // normal form
  S ns = g.flip() ? S() : g.pick<S>({"http://ex.org/n", "http://ex.org/n/", "http://ex.org/n#", "http://onto-ns.com/meta/0.1/E"});
  S norm = k == URI || k == URIUUID ? id : ns.empty() ? NS + "/" + id : ns + (strchr("/#", ns.back()) ? "" : "/") + id;
  for (int lim = 0; lim < 2; lim++) {
    size_t size = g.flip() ? norm.size() + 1 : g.below(norm.size() + 3); char *nb = (char *)malloc(size ? size : 1); memset(nb, 'y', size);
    int n = lim ? dlite_normalise_idn(nb, size, lng.c_str(), id.size(), ns.empty() ? NULL : ns.c_str()) : dlite_normalise_id(nb, size, id.c_str(), ns.empty() ? NULL : ns.c_str());
    S got = size ? S(nb, strnlen(nb, size)) : S(); free(nb);
    REQUIRE(n == (int)norm.size(), "normalising %s returns %d, expected %zu", show(id).c_str(), n, norm.size());
    if (size) REQUIRE(got == norm.substr(0, size - 1), "normalising %s into %zu bytes gives %s, expected %s", show(id).c_str(), size, show(got).c_str(), show(norm).c_str());
  }
  if (ns.empty() && (k != NAME || (urlchars(id) && !ends_uuid(id) && nsid))) {
    memset(buf, 'x', 37); dlite_get_uuid(buf, norm.c_str());
    REQUIRE(want == buf, "%s resolves to %s but its normalised form %s to %s", show(id).c_str(), want.c_str(), show(norm).c_str(), buf);
    std::vector<char> nb(norm.size() + 50); int n = dlite_normalise_id(nb.data(), nb.size(), norm.c_str(), NULL);
    REQUIRE(n == (int)norm.size() && norm == nb.data(), "normalising %s twice gives %s", show(id).c_str(), show(S(nb.data())).c_str());
    g.label("normalised form resolved");
  }
  // an identifier as the name of an instance
  if (g.chance(1, 20) && k != RANDOM) {
    MetaM m = gen_meta(g); m.meta = create_meta(m); REQUIRE(m.meta, "metadata");
    std::vector<long> dims(m.dims.size(), 1); DLiteInstance *inst = create_inst(m, dims, id.c_str());
    REQUIRE(inst, "cannot create instance with id %s", show(id).c_str());
    S u = inst->uuid; Elem uri = ostr(inst->uri); bool has = dlite_instance_has(id.c_str(), 0) == inst, hasn = k == NAME && !(nsid && urlchars(id) && !ends_uuid(id)) ? true : dlite_instance_has(norm.c_str(), 0) == inst || !ns.empty();
    dlite_instance_decref(inst); dlite_meta_decref(m.meta);
    REQUIRE(u == want, "instance %s has uuid %s, expected %s", show(id).c_str(), u.c_str(), want.c_str());
    REQUIRE(has && hasn, "instance %s is not found by its %s", show(id).c_str(), has ? "normalised id" : "id");
    g.label("instance created");
  }
}

PBT(D01, metauri, 8000, 100000, 128, "namespaces, versions and names joined and split again, and arbitrary text split; non-trivial: a namespace containing slashes") {
  S ns = g.flip() ? S("http://onto-ns.com/meta") : g.text(20), ver = g.text(8), name = g.text(12), t;
  for (char c : ver) if (c != '/') t += c; ver = t; t.clear(); for (char c : name) if (c != '/') t += c; name = t;
  if (g.chance(1, 6)) { S *x[] = {&ver, &name}; x[g.below(2)]->clear(); }
  if (ns.empty()) ns = "n";
  if (ns.find('/') != S::npos) g.nontrivial();
  S want = ns + "/" + ver + "/" + name; g.log("%s", show(want).c_str());
  char *u = dlite_join_meta_uri(name.c_str(), ver.c_str(), ns.c_str());
  S gu = u ? u : "NULL"; free(u); REQUIRE(gu == want, "joining %s %s %s gives %s", show(ns).c_str(), show(ver).c_str(), show(name).c_str(), show(gu).c_str());
  char *a = (char *)"-", *b = a, *c = a; int mask = g.chance(1, 3) ? g.below(8) : 7;
  int r = dlite_split_meta_uri(want.c_str(), mask & 1 ? &a : NULL, mask & 2 ? &b : NULL, mask & 4 ? &c : NULL);
  REQUIRE(r == 0, "splitting %s fails", show(want).c_str());
  S ga = a, gb = b, gc = c; if (mask & 1) free(a); if (mask & 2) free(b); if (mask & 4) free(c);
  REQUIRE(ga == (mask & 1 ? name : "-") && gb == (mask & 2 ? ver : "-") && gc == (mask & 4 ? ns : "-"), "splitting %s gives name %s, version %s, namespace %s", show(want).c_str(), show(ga).c_str(), show(gb).c_str(), show(gc).c_str());
  // text without two slashes is refused
  S bad = g.text(20); size_t n = std::count(bad.begin(), bad.end(), '/');
  if (n < 2) { a = b = c = NULL; char *e = strdup(bad.c_str()); r = dlite_split_meta_uri(e, &a, &b, &c); free(e); int er = take_error(); REQUIRE(r != 0 && er && !a && !b && !c, "splitting %s succeeds", show(bad).c_str()); }
  REQUIRE(!dlite_join_meta_uri(NULL, "1", "n") && !dlite_join_meta_uri("a", NULL, "n") && !dlite_join_meta_uri("a", "1", NULL), "joining without a part");
  dlite_errclr();
}

// an optional final slash or hash is documented to be stripped off, but only the type of an identifier takes this into account
PBT_KNOWN(D01, trailing, "final slash or hash of an identifier is not stripped before it is resolved") {
  char a[37], b[37]; dlite_get_uuid(a, "http://onto-ns.com/meta/0.1/E"); dlite_get_uuid(b, "http://onto-ns.com/meta/0.1/E#");
  return strcmp(a, b) != 0;
}

static void init() { dlite_err_set_stream(NULL); if (!refhash::selftest()) abort(); }
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
