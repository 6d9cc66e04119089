// flavours: asan
// D24: digests and name-based UUIDs against independent implementations of the standards
#include "dmodel.hpp"
#include "refhash.hpp"
extern "C" {
#include "utils/sha3.h"
#include "utils/sha1.h"
#include "utils/md5.h"
#include "utils/uuid.h"
#include "utils/uuid4.h"
int uuid_create_random(uuid_s *uuid);
int uuid_compare(uuid_s *u1, uuid_s *u2);
void uuid_as_string(uuid_s *uuid, char s[37]);
int uuid_from_string(uuid_s *uuid, const char *s, size_t len);
int isuuid(const char *s);
}

static S gen_msg(Gen &g, size_t block) {
  size_t n;
  switch (g.below(4)) {
  case 0: n = g.size(40); break;
  case 1: n = block * g.range(0, 4) + g.range(0, 18); n = n > 9 ? n - 9 : n; break;
  case 2: n = g.below(3 * block); break;
  default: n = g.chance(1, 10) ? g.below(20000) : g.below(700);
  }
  S m = g.flip() ? g.bytes(std::min<size_t>(n, 300)) : S();
  unsigned seed = g.u64v(); int kind = g.below(3);
  while (m.size() < n) { seed = seed * 1103515245u + 12345; m += (char)(kind == 0 ? seed >> 16 : kind == 1 ? 0 : 0xff); }
  m.resize(n); return m;
}
// a split of n into parts, some of them empty
static std::vector<size_t> gen_split(Gen &g, size_t n, size_t block) {
  std::vector<size_t> v;
  size_t left = n; int kind = g.below(4), guard = 0;
  while (left && guard++ < 400) {
    size_t k; switch (kind) { case 0: k = left; break; case 1: k = g.below(12); break; case 2: k = g.pick<size_t>({block, block - 1, block + 1, 1, 0, 8, 7}); break; default: k = g.below(left + 1); }
    if (k > left) k = left;
    v.push_back(k); left -= k;
  }
  if (left) v.push_back(left);
  return v;
}
struct Exact { char *p; Exact(const S &s, size_t off, size_t n) { p = (char *)malloc(n ? n : 1); memcpy(p, s.data() + off, n); } ~Exact() { free(p); } };

PBT(D24, sha3, 4000, 60000, 32, "messages around the block boundaries of each variant, split into updates of many sizes; non-trivial: at least two updates") {
  int bits = g.pick<int>({256, 384, 512}); bool kec = g.chance(1, 3); size_t rate = 200 - bits / 4;
  S m = gen_msg(g, rate); auto v = gen_split(g, m.size(), rate);
  g.log("%s-%d of %zu bytes in %zu parts", kec ? "Keccak" : "SHA3", bits, m.size(), v.size());
  if (v.size() > 1) g.nontrivial();
  S want = refhash::sha3(m, bits, kec);
  sha3_context c; memset(&c, 0x5a, sizeof c);
  if (g.flip()) REQUIRE(sha3_Init(&c, bits) == SHA3_RETURN_OK, "init"); else if (bits == 256) sha3_Init256(&c); else if (bits == 384) sha3_Init384(&c); else sha3_Init512(&c);
  if (kec) REQUIRE(sha3_SetFlags(&c, SHA3_FLAGS_KECCAK) == SHA3_FLAGS_KECCAK, "flags");
  size_t o = 0; for (size_t k : v) { Exact e(m, o, k); sha3_Update(&c, e.p, k); o += k; }
  S got((const char *)sha3_Finalize(&c), bits / 8);
  REQUIRE(got == want, "%s-%d of %zu bytes in %zu updates is %s, expected %s", kec ? "Keccak" : "SHA3", bits, m.size(), v.size(), refhash::hex(got).c_str(), refhash::hex(want).c_str());
  unsigned n = g.flip() ? bits / 8 : g.range(0, 80); size_t w = std::min<size_t>(n, bits / 8);
  Exact in(m, 0, m.size()); char *out = (char *)malloc(w ? w : 1);
  sha3_return_t r = sha3_HashBuffer(bits, kec ? SHA3_FLAGS_KECCAK : SHA3_FLAGS_NONE, in.p, m.size(), out, n);
  S one(out, w); free(out);
  REQUIRE(r == SHA3_RETURN_OK && one == want.substr(0, w), "sha3_HashBuffer differs");
  int bad = g.range(-5, 1030); if (bad != 256 && bad != 384 && bad != 512) REQUIRE(sha3_Init(&c, bad) == SHA3_RETURN_BAD_PARAMS, "digest size %d is accepted", bad);
}

PBT(D24, sha1md5, 6000, 80000, 64, "messages around the 64 byte boundaries, split into updates of many sizes; non-trivial: at least two updates") {
  S m = gen_msg(g, 64); auto v = gen_split(g, m.size(), 64);
  g.log("%zu bytes in %zu parts", m.size(), v.size());
  if (v.size() > 1) g.nontrivial();
  SHA1_CTX s; MD5_CTX d; SHA1Init(&s); MD5Init(&d);
  size_t o = 0; for (size_t k : v) { Exact e(m, o, k); SHA1Update(&s, (unsigned char *)e.p, k); MD5Update(&d, e.p, k); o += k; }
  unsigned char hs[20], hd[16]; SHA1Final(hs, &s); MD5Final(hd, &d);
  S a((char *)hs, 20), b((char *)hd, 16);
  REQUIRE(a == refhash::sha1(m), "SHA-1 of %zu bytes in %zu updates is %s, expected %s", m.size(), v.size(), refhash::hex(a).c_str(), refhash::hex(refhash::sha1(m)).c_str());
  REQUIRE(b == refhash::md5(m), "MD5 of %zu bytes in %zu updates is %s, expected %s", m.size(), v.size(), refhash::hex(b).c_str(), refhash::hex(refhash::md5(m)).c_str());
  char out[21]; Exact e(m, 0, m.size()); SHA1(out, e.p, m.size());
  REQUIRE(S(out, 20) == a && out[20] == 0, "SHA1() differs from its parts");
}

static S ubytes(const uuid_s &u) {
  S r; for (int i = 3; i >= 0; i--) r += (char)(u.time_low >> (8 * i));
  r += (char)(u.time_mid >> 8); r += (char)u.time_mid; r += (char)(u.time_hi_and_version >> 8); r += (char)u.time_hi_and_version;
  r += (char)u.clock_seq_hi_and_reserved; r += (char)u.clock_seq_low; r.append((const char *)u.node, 6); return r;
}
static uuid_s frombytes(const S &b) {
  auto B = [&](int i) { return (uint32_t)(uint8_t)b[i]; }; uuid_s u;
  u.time_low = B(0) << 24 | B(1) << 16 | B(2) << 8 | B(3); u.time_mid = B(4) << 8 | B(5); u.time_hi_and_version = B(6) << 8 | B(7);
  u.clock_seq_hi_and_reserved = B(8); u.clock_seq_low = B(9); memcpy(u.node, b.data() + 10, 6); return u;
}
static S dashed(const S &b) { S x = refhash::hex(b); return x.substr(0, 8) + "-" + x.substr(8, 4) + "-" + x.substr(12, 4) + "-" + x.substr(16, 4) + "-" + x.substr(20); }

PBT(D24, nameuuid, 5000, 60000, 64, "names of all lengths in the four standard and in random namespaces, and text forms of UUIDs with single faults; non-trivial: a name of at least one byte") {
  S nsb; uuid_s ns;
  switch (g.below(5)) {
  case 0: ns = NameSpace_DNS; nsb = refhash::NS_DNS; break; case 1: ns = NameSpace_URL; nsb = refhash::NS_URL; break;
  case 2: ns = NameSpace_OID; nsb = refhash::NS_OID; break; case 3: ns = NameSpace_X500; nsb = refhash::NS_X500; break;
  default: nsb = g.bytes(16); nsb.resize(16); ns = frombytes(nsb); }
  REQUIRE(ubytes(ns) == nsb, "namespace constant is %s", refhash::hex(ubytes(ns)).c_str());
  S m = gen_msg(g, 64); if (m.size()) g.nontrivial(); g.log("namespace %s, name of %zu bytes", refhash::hex(nsb).c_str(), m.size());
  Exact e(m, 0, m.size()); uuid_s u; char buf[37];
  for (int v = 3; v <= 5; v += 2) {
    memset(&u, 0x77, sizeof u);
    if (v == 3) uuid_create_md5_from_name(&u, ns, e.p, m.size()); else uuid_create_sha1_from_name(&u, ns, e.p, m.size());
    uuid_as_string(&u, buf);
    REQUIRE(refhash::uuid(v, nsb, m) == buf, "version %d UUID is %s, expected %s", v, buf, refhash::uuid(v, nsb, m).c_str());
  }
  // text form
  S b = g.bytes(16); b.resize(16); u = frombytes(b); uuid_as_string(&u, buf); S txt = dashed(b);
  REQUIRE(txt == buf, "UUID %s is written as %s", txt.c_str(), buf);
  for (char &c : txt) if (g.chance(1, 4)) c = toupper(c);
  uuid_s r; memset(&r, 0, sizeof r);
  REQUIRE(uuid_from_string(&r, txt.c_str(), 36) == 0 && ubytes(r) == b, "reading %s gives %s", txt.c_str(), dashed(ubytes(r)).c_str());
  REQUIRE(isuuid(txt.c_str()), "isuuid(%s)", txt.c_str());
  S b2 = g.flip() ? b : g.bytes(16); b2.resize(16); if (g.flip()) b2[g.below(16)] ^= 1 << g.below(8);
  uuid_s u2 = frombytes(b2); int c = uuid_compare(&u, &u2); int w = memcmp(b.data(), b2.data(), 16);
  REQUIRE((c < 0) == (w < 0) && (c > 0) == (w > 0), "comparing %s with %s gives %d", dashed(b).c_str(), dashed(b2).c_str(), c);
  S bad = txt; size_t i = g.below(36); char ch = g.pick<char>({'-', 'g', 'G', ' ', '/', ':', '@', '`', '0', 'a', 'F', '\xc3', '\0'}); bad[i] = ch;
  bool dash = i == 8 || i == 13 || i == 18 || i == 23, valid = dash ? ch == '-' : (isxdigit((unsigned char)ch) != 0);
  REQUIRE((uuid_from_string(NULL, bad.c_str(), 36) == 0) == valid, "uuid_from_string of %s", show(bad).c_str());
  Exact eb(bad, 0, 36);
  REQUIRE(!!isuuid(eb.p) == valid, "isuuid of %s", show(bad).c_str());
  S sh = txt.substr(0, g.below(36)); REQUIRE(uuid_from_string(NULL, sh.c_str(), sh.size()) != 0, "uuid_from_string accepts %s", sh.c_str());
}

PBT(D24, random, 200, 2000, 16, "runs of random UUIDs; every run is non-trivial") {
  int n = g.range(50, 400); std::set<S> seen; g.nontrivial(); int hexseen[16] = {0}, var[16] = {0};
  for (int i = 0; i < n; i++) {
    char buf[UUID4_LEN]; memset(buf, 1, sizeof buf);
    if (g.flip()) REQUIRE(uuid4_generate(buf) == UUID4_ESUCCESS, "uuid4_generate");
    else { uuid_s u; REQUIRE(uuid_create_random(&u) == 0, "uuid_create_random"); uuid_as_string(&u, buf); }
    REQUIRE(strlen(buf) == 36 && isuuid(buf), "not a UUID: %s", buf);
    for (char *p = buf; *p; p++) REQUIRE(!isupper(*p), "%s has upper case", buf);
    REQUIRE(buf[14] == '4' && strchr("89ab", buf[19]), "%s is not a version 4 UUID", buf);
    REQUIRE(seen.insert(buf).second, "%s came twice", buf);
    hexseen[strtol(S(1, buf[0]).c_str(), NULL, 16)]++; var[strtol(S(1, buf[35]).c_str(), NULL, 16)]++;
  }
  if (n > 300) for (int i = 0; i < 16; i++) REQUIRE(hexseen[i] && var[i], "digit %x never occurs in %d random UUIDs", i, n);
}

static void init() { dlite_err_set_stream(NULL); if (!refhash::selftest()) { fprintf(stderr, "reference digests are wrong\n"); abort(); } }
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
