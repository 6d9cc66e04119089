// Reference SHA-1, MD5, SHA-3/Keccak and name-based UUIDs, from the standards
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <cmath>
namespace refhash {
typedef std::string S;
static inline uint32_t rol(uint32_t x, int n) { return n ? (x << n) | (x >> (32 - n)) : x; }
static inline S pad(const S &m, bool big) {
  S p = m; p += '\x80'; while (p.size() % 64 != 56) p += '\0';
  uint64_t n = (uint64_t)m.size() * 8;
  for (int i = 0; i < 8; i++) p += (char)(n >> (big ? 56 - 8 * i : 8 * i));
  return p;
}
// FIPS 180-4
static inline S sha1(const S &m) {
  uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  S p = pad(m, true);
  for (size_t o = 0; o < p.size(); o += 64) {
    uint32_t w[80];
    for (int t = 0; t < 16; t++) { w[t] = 0; for (int k = 0; k < 4; k++) w[t] = w[t] << 8 | (uint8_t)p[o + 4 * t + k]; }
    for (int t = 16; t < 80; t++) w[t] = rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int t = 0; t < 80; t++) {
      uint32_t f, k;
      if (t < 20) f = (b & c) ^ (~b & d), k = 0x5a827999; else if (t < 40) f = b ^ c ^ d, k = 0x6ed9eba1;
      else if (t < 60) f = (b & c) ^ (b & d) ^ (c & d), k = 0x8f1bbcdc; else f = b ^ c ^ d, k = 0xca62c1d6;
      uint32_t x = rol(a, 5) + f + e + k + w[t]; e = d; d = c; c = rol(b, 30); b = a; a = x;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
  }
  S r; for (uint32_t x : h) for (int i = 3; i >= 0; i--) r += (char)(x >> (8 * i));
  return r;
}
// RFC 1321
static inline S md5(const S &m) {
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  static const int s[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
  S p = pad(m, false);
  for (size_t o = 0; o < p.size(); o += 64) {
    uint32_t x[16], a = h[0], b = h[1], c = h[2], d = h[3];
    for (int t = 0; t < 16; t++) { x[t] = 0; for (int k = 3; k >= 0; k--) x[t] = x[t] << 8 | (uint8_t)p[o + 4 * t + k]; }
    for (int i = 0; i < 64; i++) {
      uint32_t f; int g, r = i / 16;
      if (r == 0) f = (b & c) | (~b & d), g = i; else if (r == 1) f = (d & b) | (~d & c), g = (5 * i + 1) % 16;
      else if (r == 2) f = b ^ c ^ d, g = (3 * i + 5) % 16; else f = c ^ (b | ~d), g = (7 * i) % 16;
      uint32_t k = (uint32_t)(int64_t)floor(fabs(sin((double)(i + 1))) * 4294967296.0);
      uint32_t n = b + rol(a + f + k + x[g], s[r][i % 4]); a = d; d = c; c = b; b = n;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  S r; for (uint32_t x : h) for (int i = 0; i < 4; i++) r += (char)(x >> (8 * i));
  return r;
}
// FIPS 202, written on the coordinates of the state
static inline void keccak(uint64_t A[5][5]) {
  auto R = [](uint64_t x, int n) { n %= 64; return n ? (x << n) | (x >> (64 - n)) : x; };
  uint8_t lfsr = 1;
  for (int round = 0; round < 24; round++) {
    uint64_t C[5], B[5][5];
    for (int x = 0; x < 5; x++) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
    for (int x = 0; x < 5; x++) { uint64_t d = C[(x + 4) % 5] ^ R(C[(x + 1) % 5], 1); for (int y = 0; y < 5; y++) A[x][y] ^= d; }
    int x = 1, y = 0; B[0][0] = A[0][0];
    for (int t = 0; t < 24; t++) {
      int X = y, Y = (2 * x + 3 * y) % 5; B[X][Y] = R(A[x][y], (t + 1) * (t + 2) / 2); x = X; y = Y;
    }
    for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) A[a][b] = B[a][b] ^ (~B[(a + 1) % 5][b] & B[(a + 2) % 5][b]);
    for (int j = 0; j < 7; j++) {
      if (lfsr & 1) A[0][0] ^= 1ULL << ((1 << j) - 1);
      lfsr = (uint8_t)((lfsr << 1) ^ ((lfsr & 0x80) ? 0x71 : 0));
    }
  }
}
static inline S sha3(const S &m, int bits, bool kec = false) {
  size_t rate = 200 - 2 * bits / 8; S p = m; p += kec ? '\x01' : '\x06'; while (p.size() % rate) p += '\0'; p[p.size() - 1] |= '\x80';
  uint64_t A[5][5]; memset(A, 0, sizeof A);
  for (size_t o = 0; o < p.size(); o += rate) {
    for (size_t i = 0; i < rate; i++) A[(i / 8) % 5][i / 8 / 5] ^= (uint64_t)(uint8_t)p[o + i] << (8 * (i % 8));
    keccak(A);
  }
  S r; for (int i = 0; i < bits / 8; i++) r += (char)(A[(i / 8) % 5][i / 8 / 5] >> (8 * (i % 8)));
  return r;
}
static inline S hex(const S &b) { S r; char t[3]; for (unsigned char c : b) { snprintf(t, 3, "%02x", c); r += t; } return r; }
static inline S unhex(const S &h) { S r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), NULL, 16); return r; }
// RFC 4122 name-based UUID; ns: 16 bytes
static inline S uuid(int v, const S &ns, const S &name) {
  S h = (v == 3 ? md5(ns + name) : sha1(ns + name)).substr(0, 16);
  h[6] = (char)((h[6] & 0x0f) | (v << 4)); h[8] = (char)((h[8] & 0x3f) | 0x80);
  S x = hex(h); return x.substr(0, 8) + "-" + x.substr(8, 4) + "-" + x.substr(12, 4) + "-" + x.substr(16, 4) + "-" + x.substr(20);
}
static const S NS_DNS = unhex("6ba7b8109dad11d180b400c04fd430c8"), NS_URL = unhex("6ba7b8119dad11d180b400c04fd430c8"),
               NS_OID = unhex("6ba7b8129dad11d180b400c04fd430c8"), NS_X500 = unhex("6ba7b8149dad11d180b400c04fd430c8");
// published vectors
static inline bool selftest() {
  return hex(sha1("abc")) == "a9993e364706816aba3e25717850c26c9cd0d89d" && hex(md5("message digest")) == "f96b697d7cb7938d525a2f31aaf161d0" &&
         hex(sha3("abc", 256)) == "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532" &&
         hex(sha3("", 512)) == "a69f73cca23a9ac5c8b567dc185a756e97c982164fe25859e0d1dcc1475c80a615b2123af1f5f94c11e3e9402c3ac558f500199d95b6d3e301758586281dcd26" &&
         hex(sha3("", 384)) == "0c63a75b845e4f7d01107d852e4c2485c51a50aaaa94fc61995e71bbee983a2ac3713831264adb47fb6bd1e058d5f004" &&
         hex(sha3("", 256, true)) == "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470" &&
         uuid(3, NS_DNS, "www.widgets.com") == "3d813cbb-47fb-32ba-91df-831e1593ac29" && uuid(5, NS_DNS, "python.org") == "886313e1-3b8a-5372-9b90-0c9aee199e5d";
}
} // namespace refhash
