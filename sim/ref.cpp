#include "ref.h"
#include <secp256k1.h>
#include <cstring>
#include <cstdlib>
#include <algorithm>

namespace ref {
typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
static inline u8 at(const Bytes &b, size_t i) { return (u8)b[i]; }
static inline u32 rol(u32 x, int n) { return (x << n) | (x >> (32 - n)); }
static inline u32 ror(u32 x, int n) { return (x >> n) | (x << (32 - n)); }
static inline u64 ror64(u64 x, int n) { return (x >> n) | (x << (64 - n)); }

static Bytes pad(const Bytes &m, size_t block, size_t lenbytes, bool big, u64 before) {
  Bytes p = m;
  p.push_back((char)0x80);
  while (p.size() % block != block - lenbytes) p.push_back(0);
  unsigned __int128 bits = ((unsigned __int128)before + m.size()) * 8;
  for (size_t i = 0; i < lenbytes; i++) {
    size_t sh = big ? (lenbytes - 1 - i) * 8 : i * 8;
    p.push_back(sh < 128 ? (char)(u8)(bits >> sh) : 0);
  }
  return p;
}

// ---- constants derived from their definition (fractional parts of roots) ----
static bool is_prime(unsigned n) {
  for (unsigned d = 2; d * d <= n; d++)
    if (n % d == 0) return false;
  return n >= 2;
}
typedef unsigned __int128 u128;
// floor(root * 2^64) mod 2^64 for square (k=2) and cube (k=3) roots of p
static u64 frac_root(unsigned p, int k) {
  // binary search r with r^k <= p * 2^(64k), r < 2^70: use long multiplication
  auto le = [&](u128 r) {
    // compare r^k with p<<(64k) using 5x64-bit limbs
    u64 a[6] = {(u64)r, (u64)(r >> 64), 0, 0, 0, 0};
    u64 acc[6] = {1, 0, 0, 0, 0, 0};
    for (int t = 0; t < k; t++) {
      u64 res[6] = {0, 0, 0, 0, 0, 0};
      for (int i = 0; i < 6; i++) {
        u128 c = 0;
        for (int j = 0; i + j < 6; j++) {
          c += (u128)acc[i] * a[j] + res[i + j];
          res[i + j] = (u64)c;
          c >>= 64;
        }
      }
      memcpy(acc, res, sizeof acc);
    }
    u64 rhs[6] = {0, 0, 0, 0, 0, 0};
    rhs[k] = p;
    for (int i = 5; i >= 0; i--)
      if (acc[i] != rhs[i]) return acc[i] < rhs[i];
    return true;
  };
  u128 lo = 0, hi = (u128)1 << 70;
  while (hi - lo > 1) {
    u128 mid = lo + (hi - lo) / 2;
    if (le(mid)) lo = mid; else hi = mid;
  }
  return (u64)lo;
}
struct K2 {
  u32 k256[64], h256[8];
  u64 k512[80], h512[8];
  K2() {
    unsigned p = 2;
    for (int i = 0; i < 80; p++) {
      if (!is_prime(p)) continue;
      u64 c = frac_root(p, 3);
      k512[i] = c;
      if (i < 64) k256[i] = (u32)(c >> 32);
      if (i < 8) {
        u64 s = frac_root(p, 2);
        h512[i] = s;
        h256[i] = (u32)(s >> 32);
      }
      i++;
    }
  }
};
static const K2 &K() { static K2 k; return k; }

static void sha256_blocks(u32 *h, const Bytes &p) {
  for (size_t o = 0; o < p.size(); o += 64) {
    u32 w[64];
    for (int i = 0; i < 16; i++)
      w[i] = at(p, o + 4 * i) << 24 | at(p, o + 4 * i + 1) << 16 | at(p, o + 4 * i + 2) << 8 | at(p, o + 4 * i + 3);
    for (int i = 16; i < 64; i++) {
      u32 a = w[i - 15], b = w[i - 2];
      w[i] = w[i - 16] + (ror(a, 7) ^ ror(a, 18) ^ (a >> 3)) + w[i - 7] + (ror(b, 17) ^ ror(b, 19) ^ (b >> 10));
    }
    u32 v[8];
    memcpy(v, h, 32);
    for (int i = 0; i < 64; i++) {
      u32 e = v[4], a = v[0];
      u32 t1 = v[7] + (ror(e, 6) ^ ror(e, 11) ^ ror(e, 25)) + ((e & v[5]) ^ (~e & v[6])) + K().k256[i] + w[i];
      u32 t2 = (ror(a, 2) ^ ror(a, 13) ^ ror(a, 22)) + ((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
      for (int j = 7; j > 0; j--) v[j] = v[j - 1];
      v[4] += t1;
      v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += v[i];
  }
}
Bytes sha256(const Bytes &m, const Mid *mid) {
  u32 h[8];
  memcpy(h, K().h256, 32);
  if (mid) memcpy(h, mid->state.data(), sizeof h);
  sha256_blocks(h, pad(m, 64, 8, true, mid ? mid->done : 0));
  Bytes r;
  for (int i = 0; i < 8; i++)
    for (int s = 24; s >= 0; s -= 8) r.push_back((char)(h[i] >> s));
  return r;
}
void sha256_more(Mid &mid, const Bytes &blocks) {
  u32 h[8];
  memcpy(h, K().h256, 32);
  if (mid.done) memcpy(h, mid.state.data(), sizeof h);
  sha256_blocks(h, blocks);
  mid.done += blocks.size();
  mid.state = Bytes((char *)h, sizeof h);
}
Bytes sha256(const Bytes &m) { return sha256(m, nullptr); }
static void sha512_blocks(u64 *h, const Bytes &p) {
  for (size_t o = 0; o < p.size(); o += 128) {
    u64 w[80];
    for (int i = 0; i < 16; i++) {
      w[i] = 0;
      for (int j = 0; j < 8; j++) w[i] = w[i] << 8 | at(p, o + 8 * i + j);
    }
    for (int i = 16; i < 80; i++) {
      u64 a = w[i - 15], b = w[i - 2];
      w[i] = w[i - 16] + (ror64(a, 1) ^ ror64(a, 8) ^ (a >> 7)) + w[i - 7] + (ror64(b, 19) ^ ror64(b, 61) ^ (b >> 6));
    }
    u64 v[8];
    memcpy(v, h, 64);
    for (int i = 0; i < 80; i++) {
      u64 e = v[4], a = v[0];
      u64 t1 = v[7] + (ror64(e, 14) ^ ror64(e, 18) ^ ror64(e, 41)) + ((e & v[5]) ^ (~e & v[6])) + K().k512[i] + w[i];
      u64 t2 = (ror64(a, 28) ^ ror64(a, 34) ^ ror64(a, 39)) + ((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
      for (int j = 7; j > 0; j--) v[j] = v[j - 1];
      v[4] += t1;
      v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += v[i];
  }
}
Bytes sha512(const Bytes &m, const Mid *mid) {
  u64 h[8];
  memcpy(h, K().h512, 64);
  if (mid) memcpy(h, mid->state.data(), sizeof h);
  sha512_blocks(h, pad(m, 128, 16, true, mid ? mid->done : 0));
  Bytes r;
  for (int i = 0; i < 8; i++)
    for (int s = 56; s >= 0; s -= 8) r.push_back((char)(h[i] >> s));
  return r;
}
void sha512_more(Mid &mid, const Bytes &blocks) {
  u64 h[8];
  memcpy(h, K().h512, 64);
  if (mid.done) memcpy(h, mid.state.data(), sizeof h);
  sha512_blocks(h, blocks);
  mid.done += blocks.size();
  mid.state = Bytes((char *)h, sizeof h);
}
Bytes sha512(const Bytes &m) { return sha512(m, nullptr); }
static void sha1_blocks(u32 *h, const Bytes &p) {
  for (size_t o = 0; o < p.size(); o += 64) {
    u32 w[80];
    for (int i = 0; i < 16; i++)
      w[i] = at(p, o + 4 * i) << 24 | at(p, o + 4 * i + 1) << 16 | at(p, o + 4 * i + 2) << 8 | at(p, o + 4 * i + 3);
    for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; i++) {
      u32 f, k;
      if (i < 20) f = (b & c) | (~b & d), k = 0x5A827999;
      else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1;
      else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC;
      else f = b ^ c ^ d, k = 0xCA62C1D6;
      u32 t = rol(a, 5) + f + e + k + w[i];
      e = d; d = c; c = rol(b, 30); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
  }
}
Bytes sha1(const Bytes &m, const Mid *mid) {
  u32 h[5];
  static const u32 iv[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  memcpy(h, iv, 20);
  if (mid) memcpy(h, mid->state.data(), sizeof h);
  sha1_blocks(h, pad(m, 64, 8, true, mid ? mid->done : 0));
  Bytes r;
  for (int i = 0; i < 5; i++)
    for (int s = 24; s >= 0; s -= 8) r.push_back((char)(h[i] >> s));
  return r;
}
void sha1_more(Mid &mid, const Bytes &blocks) {
  u32 h[5];
  static const u32 iv[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  memcpy(h, iv, 20);
  if (mid.done) memcpy(h, mid.state.data(), sizeof h);
  sha1_blocks(h, blocks);
  mid.done += blocks.size();
  mid.state = Bytes((char *)h, sizeof h);
}
Bytes sha1(const Bytes &m) { return sha1(m, nullptr); }
static void rmd160_blocks(u32 *h, const Bytes &p) {
  static const u8 rl[80] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
    3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
  static const u8 rr[80] = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
    15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
  static const u8 sl[80] = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
    11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
  static const u8 sr[80] = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
    9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
  static const u32 kl[5] = {0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E};
  static const u32 kr[5] = {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0};
  auto f = [](int j, u32 x, u32 y, u32 z) -> u32 {
    switch (j / 16) {
      case 0: return x ^ y ^ z;
      case 1: return (x & y) | (~x & z);
      case 2: return (x | ~y) ^ z;
      case 3: return (x & z) | (y & ~z);
      default: return x ^ (y | ~z);
    }
  };
  for (size_t o = 0; o < p.size(); o += 64) {
    u32 w[16];
    for (int i = 0; i < 16; i++)
      w[i] = at(p, o + 4 * i) | at(p, o + 4 * i + 1) << 8 | at(p, o + 4 * i + 2) << 16 | at(p, o + 4 * i + 3) << 24;
    u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], A = a, B = b, C = c, D = d, E = e;
    for (int j = 0; j < 80; j++) {
      u32 t = rol(a + f(j, b, c, d) + w[rl[j]] + kl[j / 16], sl[j]) + e;
      a = e; e = d; d = rol(c, 10); c = b; b = t;
      t = rol(A + f(79 - j, B, C, D) + w[rr[j]] + kr[j / 16], sr[j]) + E;
      A = E; E = D; D = rol(C, 10); C = B; B = t;
    }
    u32 t = h[1] + c + D;
    h[1] = h[2] + d + E; h[2] = h[3] + e + A; h[3] = h[4] + a + B; h[4] = h[0] + b + C; h[0] = t;
  }
}
Bytes rmd160(const Bytes &m, const Mid *mid) {
  u32 h[5];
  static const u32 iv[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  memcpy(h, iv, 20);
  if (mid) memcpy(h, mid->state.data(), sizeof h);
  rmd160_blocks(h, pad(m, 64, 8, false, mid ? mid->done : 0));
  Bytes r;
  for (int i = 0; i < 5; i++)
    for (int s = 0; s < 32; s += 8) r.push_back((char)(h[i] >> s));
  return r;
}
void rmd160_more(Mid &mid, const Bytes &blocks) {
  u32 h[5];
  static const u32 iv[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  memcpy(h, iv, 20);
  if (mid.done) memcpy(h, mid.state.data(), sizeof h);
  rmd160_blocks(h, blocks);
  mid.done += blocks.size();
  mid.state = Bytes((char *)h, sizeof h);
}
Bytes rmd160(const Bytes &m) { return rmd160(m, nullptr); }
static Bytes hmac(Bytes (*h)(const Bytes &), size_t block, const Bytes &key, const Bytes &msg) {
  Bytes k = key.size() > block ? h(key) : key;
  k.resize(block, 0);
  Bytes i = k, o = k;
  for (auto &c : i) c ^= 0x36;
  for (auto &c : o) c ^= 0x5c;
  return h(o + h(i + msg));
}
Bytes hmac256(const Bytes &k, const Bytes &m) { return hmac(sha256, 64, k, m); }
Bytes hmac512(const Bytes &k, const Bytes &m) { return hmac(sha512, 128, k, m); }
static Bytes be32(u32 v) { Bytes r; for (int s = 24; s >= 0; s -= 8) r.push_back((char)(v >> s)); return r; }
static Bytes le32(u32 v) { Bytes r; for (int s = 0; s < 32; s += 8) r.push_back((char)(v >> s)); return r; }
Bytes bip32hash(const Bytes &cc, u32 child, u8 header, const Bytes &d32) {
  return hmac512(cc, Bytes(1, (char)header) + d32 + be32(child));
}

// ---------------------------------------------------------------- text codecs
Bytes hex(const Bytes &b, bool upper) {
  const char *d = upper ? "0123456789ABCDEF" : "0123456789abcdef";
  Bytes r;
  for (char c : b) { r.push_back(d[(u8)c >> 4]); r.push_back(d[(u8)c & 15]); }
  return r;
}
static int hexval(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
bool unhex(const std::string &s, Bytes &o) {
  o.clear();
  if (s.size() % 2) return false;
  for (size_t i = 0; i < s.size(); i += 2) {
    int a = hexval(s[i]), b = hexval(s[i + 1]);
    if (a < 0 || b < 0) return false;
    o.push_back((char)(a << 4 | b));
  }
  return true;
}
static Partial bits_dec(const std::string &s, int bits, int blockchars, int blockbytes, int (*val)(char),
                        size_t used_chars) {
  Partial p;
  unsigned acc = 0, n = 0;
  size_t good = 0;
  for (char c : s) {
    int v = val(c);
    if (v < 0) { p.clean = false; break; }
    good++;
    acc = (acc << bits | (unsigned)v) & 0xFFFF;
    n += bits;
    if (n >= 8) { n -= 8; p.bytes.push_back((char)(acc >> n)); }
  }
  p.min_n = good / blockchars * blockbytes;
  p.bad_used = !p.clean && good < used_chars;
  return p;
}
Partial hexdec(const std::string &s) { return bits_dec(s, 4, 2, 1, hexval, s.size() / 2 * 2); }
static const char *B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char *B64U = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
Bytes b64enc(const Bytes &b, bool url) {
  const char *t = url ? B64U : B64;
  Bytes r;
  for (size_t i = 0; i < b.size(); i += 3) {
    u32 v = 0;
    int n = (int)std::min<size_t>(3, b.size() - i);
    for (int j = 0; j < 3; j++) v = v << 8 | (j < n ? at(b, i + j) : 0);
    for (int j = 0; j <= n; j++) r.push_back(t[v >> (18 - 6 * j) & 63]);
    if (!url) for (int j = n; j < 3; j++) r.push_back('=');
  }
  return r;
}
static int idx(const char *t, char c) { if (!c) return -1; const char *p = strchr(t, c); return p ? (int)(p - t) : -1; }
static int v64(char c) { return idx(B64, c); }
static int v64u(char c) { return idx(B64U, c); }
static std::string b64strip(const std::string &s) {
  std::string t = s;
  for (int i = 0; i < 2 && !t.empty() && t.back() == '='; i++) t.pop_back();
  return t;
}
size_t b64declen(const std::string &s, bool url) {
  size_t n = (url ? s : b64strip(s)).size();
  return n / 4 * 3 + (n % 4 == 2 ? 1 : n % 4 == 3 ? 2 : 0);
}
Partial b64dec(const std::string &s, bool url) {
  std::string t = url ? s : b64strip(s);
  size_t used = t.size() % 4 == 1 ? t.size() - 1 : t.size();
  return bits_dec(t, 6, 4, 3, url ? v64u : v64, used);
}
static const char *B32 = "abcdefghijklmnopqrstuvwxyz234567";
static int v32(char c) { return idx(B32, c >= 'A' && c <= 'Z' ? c + 32 : c); }
static int v5(char c) { return (u8)c < 32 ? (u8)c : -1; }
Bytes b32raw(const Bytes &b) {
  Bytes r;
  unsigned acc = 0, n = 0;
  for (char c : b) {
    acc = (acc << 8 | (u8)c) & 0xFFFF;
    n += 8;
    while (n >= 5) { n -= 5; r.push_back((char)(acc >> n & 31)); }
  }
  if (n) r.push_back((char)(acc << (5 - n) & 31));
  return r;
}
Bytes b32enc(const Bytes &b) {
  Bytes r = b32raw(b);
  for (auto &c : r) c = B32[(u8)c];
  while (r.size() % 8) r.push_back('=');
  return r;
}
static size_t b32used(size_t n) { size_t t = n % 8; return (t == 1 || t == 3 || t == 6) ? n - t : n; }
static size_t b32len(size_t n) { static const int tb[8] = {0, 0, 1, 0, 2, 3, 0, 4}; return n / 8 * 5 + tb[n % 8]; }
size_t b32declen(const std::string &s) { size_t p = s.find('='); return b32len(p == std::string::npos ? s.size() : p); }
Partial b32dec(const std::string &s) {
  size_t p = s.find('=');
  std::string t = p == std::string::npos ? s : s.substr(0, p);
  return bits_dec(t.substr(0, b32used(t.size())), 5, 8, 5, v32, b32used(t.size()));
}
Partial b32rawdec(const Bytes &s) { return bits_dec(s.substr(0, b32used(s.size())), 5, 8, 5, v5, b32used(s.size())); }

static const char *B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
Bytes b58enc(const Bytes &b) {
  std::vector<u32> d;  // little endian base 58
  size_t z = 0;
  while (z < b.size() && b[z] == 0) z++;
  for (size_t i = z; i < b.size(); i++) {
    u32 c = at(b, i);
    for (auto &x : d) { c += x * 256; x = c % 58; c /= 58; }
    while (c) { d.push_back(c % 58); c /= 58; }
  }
  Bytes r(z, '1');
  for (size_t i = d.size(); i-- > 0;) r.push_back(B58[d[i]]);
  return r;
}
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
bool b58dec(const std::string &s, Bytes &o) {
  o.clear();
  size_t a = 0, e = s.size();
  while (a < e && sp(s[a])) a++;
  while (e > a && sp(s[e - 1])) e--;
  size_t z = 0;
  while (a + z < e && s[a + z] == '1') z++;
  std::vector<u32> d;
  for (size_t i = a + z; i < e; i++) {
    int v = idx(B58, s[i]);
    if (v < 0) return false;
    u32 c = (u32)v;
    for (auto &x : d) { c += x * 58; x = c & 255; c >>= 8; }
    while (c) { d.push_back(c & 255); c >>= 8; }
  }
  o.assign(z, 0);
  for (size_t i = d.size(); i-- > 0;) o.push_back((char)d[i]);
  return true;
}
Bytes b58check(const Bytes &p) { return b58enc(p + hash256(p).substr(0, 4)); }
bool b58checkdec(const std::string &s, Bytes &o) {
  Bytes d;
  if (!b58dec(s, d) || d.size() < 4) return false;
  o = d.substr(0, d.size() - 4);
  return hash256(o).substr(0, 4) == d.substr(d.size() - 4);
}

Bytes varint(u64 v) {
  // bijective base-128, most significant first
  Bytes r(1, (char)(v & 127));
  while (v > 127) {
    v = (v >> 7) - 1;
    r.insert(r.begin(), (char)(0x80 | (v & 127)));
  }
  return r;
}
size_t varintdec(const Bytes &b, u64 &out) {
  u128 v = 0;
  for (size_t i = 0; i < b.size(); i++) {
    v = v * 128 + (at(b, i) & 127);
    if (v > ~(u64)0) return 0;
    if (!(at(b, i) & 128)) { out = (u64)v; return i + 1; }
    v += 1;
  }
  return 0;
}
Bytes zigzag(int64_t v) {
  if (v == INT64_MIN) return varint(1);
  u64 m = v < 0 ? (u64)(-v) : (u64)v;
  return varint(m * 2 + (v < 0));
}
size_t zigzagdec(const Bytes &b, int64_t &out) {
  u64 u;
  size_t n = varintdec(b, u);
  if (!n) return 0;
  if (u == 1) out = INT64_MIN;
  else out = (u & 1) ? -(int64_t)(u >> 1) : (int64_t)(u >> 1);
  return n;
}
std::string hexdump(const Bytes &b, bool upper) {
  std::string r;
  for (size_t i = 0; i < b.size(); i++) {
    if (i) {
      if (i % 4 == 0) r += ' ';
      if (i % 8 == 0) r += ' ';
      if (i % 16 == 0) r += ' ';
      if (i % 32 == 0) r += '\n';
    }
    r += hex(b.substr(i, 1), upper);
  }
  return r + "\n";
}

// ------------------------------------------------------------------- bech32
static const char *BC = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
static u32 polymod(const Bytes &v) {
  static const u32 G[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
  u32 c = 1;
  for (char x : v) {
    u32 t = c >> 25;
    c = (c & 0x1ffffff) << 5 ^ (u8)x;
    for (int i = 0; i < 5; i++) if (t >> i & 1) c ^= G[i];
  }
  return c;
}
static Bytes expand(const Bytes &hrp) {
  Bytes r;
  for (char c : hrp) r.push_back((char)((u8)c >> 5));
  r.push_back(0);
  for (char c : hrp) r.push_back((char)((u8)c & 31));
  return r;
}
std::string bech32enc(const Bytes &hrp, const Bytes &sym) {
  u32 m = polymod(expand(hrp) + sym + Bytes(6, 0)) ^ 1;
  std::string r = hrp + "1";
  for (char c : sym) r += BC[(u8)c & 31];
  for (int i = 0; i < 6; i++) r += BC[m >> 5 * (5 - i) & 31];
  return r;
}
bool bech32dec(const std::string &s, Bytes &hrp, Bytes &sym) {
  if (s.size() > 90) return false;
  bool lo = false, up = false;
  std::string t;
  for (char c : s) {
    if ((u8)c < 33 || (u8)c > 126) return false;
    if (c >= 'a' && c <= 'z') lo = true;
    if (c >= 'A' && c <= 'Z') { up = true; c += 32; }
    t += c;
  }
  if (lo && up) return false;
  size_t p = t.rfind('1');
  if (p == std::string::npos || p == 0 || p + 7 > t.size()) return false;
  hrp = t.substr(0, p);
  sym.clear();
  for (size_t i = p + 1; i < t.size(); i++) {
    int v = idx(BC, t[i]);
    if (v < 0) return false;
    sym.push_back((char)v);
  }
  if (polymod(expand(hrp) + sym) != 1) return false;
  sym.resize(sym.size() - 6);
  return true;
}

// ------------------------------------------------------------------ networks
const Net &mainnet() {
  static Net n{Bytes("\x00", 1), "\x05", "\x80", "\x04\x88\xB2\x1E", "\x04\x88\xAD\xE4", "bc"};
  return n;
}
const Net &testnet() {
  static Net n{"\x6f", "\xc4", "\xef", "\x04\x35\x87\xCF", "\x04\x35\x83\x94", "tb"};
  return n;
}
const Net &regnet() {
  static Net n{"\x6f", "\xc4", "\xef", "\x04\x35\x87\xCF", "\x04\x35\x83\x94", "bcrt"};
  return n;
}
std::string addr(Kind k, const Bytes &p, const Net &n) {
  switch (k) {
    case PK: return b58check(n.pk + p);
    case SCRIPT: return b58check(n.sc + p);
    case WKEY:
    case WSCRIPT: return bech32enc(n.hrp, Bytes(1, 0) + b32raw(p));
    case WUNK: return bech32enc(n.hrp, p.substr(0, 1) + b32raw(p.substr(1)));
    default: return "";
  }
}
Kind addrdec(const std::string &s, const Net &n, Bytes &p) {
  Bytes d;
  if (b58checkdec(s, d) && !d.empty()) {
    if (d.substr(0, n.pk.size()) == n.pk) { p = d.substr(n.pk.size()); return PK; }
    if (d.substr(0, n.sc.size()) == n.sc) { p = d.substr(n.sc.size()); return SCRIPT; }
  }
  Bytes hrp, sym;
  if (!bech32dec(s, hrp, sym) || hrp != n.hrp || sym.empty()) return BAD;
  u8 v = at(sym, 0);
  Bytes body = sym.substr(1);
  Partial q = b32rawdec(body);
  if (v > 16 || b32raw(q.bytes) != body) return BAD;
  if (v == 0) {
    p = q.bytes;
    return p.size() == 20 ? WKEY : p.size() == 32 ? WSCRIPT : BAD;
  }
  if (q.bytes.size() < 2 || q.bytes.size() > 40) return BAD;
  p = Bytes(1, (char)v) + q.bytes;
  return WUNK;
}

// --------------------------------------------------------------------- curve
static secp256k1_context *C;
void curve_init() {
  if (!C) C = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
}
#define U(x) ((const u8 *)(x).data())
bool key_valid(const Bytes &k) { return k.size() == 32 && secp256k1_ec_seckey_verify(C, U(k)); }
Bytes pub64(const Bytes &k) {
  secp256k1_pubkey p;
  if (!secp256k1_ec_pubkey_create(C, &p, U(k))) return "";
  return Bytes((char *)&p, 64);
}
static secp256k1_pubkey P(const Bytes &p64) { secp256k1_pubkey p; memcpy(&p, p64.data(), 64); return p; }
static secp256k1_ecdsa_signature S(const Bytes &s) { secp256k1_ecdsa_signature g; memcpy(&g, s.data(), 64); return g; }
Bytes pub_ser(const Bytes &p64, bool comp) {
  secp256k1_pubkey p = P(p64);
  u8 o[65];
  size_t n = comp ? 33 : 65;
  secp256k1_ec_pubkey_serialize(C, o, &n, &p, comp ? SECP256K1_EC_COMPRESSED : SECP256K1_EC_UNCOMPRESSED);
  return Bytes((char *)o, n);
}
bool pub_parse(const Bytes &e, Bytes &p64) {
  secp256k1_pubkey p;
  if (!secp256k1_ec_pubkey_parse(C, &p, U(e), e.size())) return false;
  p64.assign((char *)&p, 64);
  return true;
}
Bytes sig_compact(const Bytes &s) {
  auto g = S(s);
  u8 o[64];
  secp256k1_ecdsa_signature_serialize_compact(C, o, &g);
  return Bytes((char *)o, 64);
}
Bytes sig_from_compact(const Bytes &c) {
  secp256k1_ecdsa_signature g;
  if (!secp256k1_ecdsa_signature_parse_compact(C, &g, U(c))) memset(&g, 0, 64);
  return Bytes((char *)&g, 64);
}
Bytes sign(const Bytes &k, const Bytes &h) {
  secp256k1_ecdsa_signature g;
  u8 extra[32] = {0};
  for (u32 ctr = 0;; ctr++) {
    for (int i = 0; i < 4; i++) extra[i] = (u8)(ctr >> 8 * i);
    secp256k1_ecdsa_sign(C, &g, U(h), U(k), secp256k1_nonce_function_rfc6979, ctr ? extra : NULL);
    u8 o[64];
    secp256k1_ecdsa_signature_serialize_compact(C, o, &g);
    if (o[0] < 0x80) break;
  }
  return Bytes((char *)&g, 64);
}
static Bytes der_int(const Bytes &b) {
  size_t i = 0;
  while (i + 1 < b.size() && b[i] == 0) i++;
  Bytes v = b.substr(i);
  if ((u8)v[0] & 0x80) v.insert(v.begin(), 0);
  return Bytes("\x02", 1) + (char)v.size() + v;
}
Bytes sig_der(const Bytes &s) {
  Bytes c = sig_compact(s);
  Bytes body = der_int(c.substr(0, 32)) + der_int(c.substr(32));
  return Bytes("\x30", 1) + (char)body.size() + body;
}
// Lax DER: tags are required, the sequence length is ignored, integers may have
// long-form lengths and padding; a value that does not fit gives an invalid
// (all-zero) signature but parses.
bool sig_lax(const Bytes &d, Bytes &s64) {
  size_t pos = 0;
  s64 = sig_from_compact(Bytes(64, 0));
  auto left = [&] { return d.size() - pos; };
  if (left() < 2 || at(d, 0) != 0x30) return false;
  u8 l = at(d, 1);
  pos = 2;
  if (l & 0x80) {
    if ((size_t)(l & 0x7f) > left()) return false;
    pos += l & 0x7f;
  }
  Bytes v[2];
  for (int k = 0; k < 2; k++) {
    if (left() < 1 || at(d, pos) != 2) return false;
    pos++;
    if (left() < 1) return false;
    u64 n = at(d, pos++);
    if (n & 0x80) {
      size_t lb = n & 0x7f;
      if (lb > left()) return false;
      while (lb && at(d, pos) == 0) pos++, lb--;
      if (lb >= 4) return false;
      n = 0;
      while (lb) n = n << 8 | at(d, pos++), lb--;
    }
    if (n > left()) return false;
    v[k] = d.substr(pos, n);
    pos += n;
  }
  bool over = false;
  for (auto &x : v) {
    size_t z = 0;
    while (z < x.size() && x[z] == 0) z++;
    x = x.substr(z);
    if (x.size() > 32) over = true;
    else x = Bytes(32 - x.size(), 0) + x;
  }
  if (!over) s64 = sig_from_compact(v[0] + v[1]);
  return true;
}
bool verify(const Bytes &p64, const Bytes &h, const Bytes &s64) {
  auto p = P(p64);
  auto s = S(s64), n = s;
  secp256k1_ecdsa_signature_normalize(C, &n, &s);
  return secp256k1_ecdsa_verify(C, &n, U(h), &p);
}
bool tweak_key(const Bytes &k, const Bytes &t, Bytes &out) {
  out = k;
  return secp256k1_ec_seckey_tweak_add(C, (u8 *)&out[0], U(t));
}
static Bytes H(const char *s) { Bytes b; unhex(s, b); return b; }
Bytes key_der(const Bytes &k, bool comp) {
  // SEC1 ECPrivateKey: SEQUENCE { 1, OCTET STRING key, [0] parameters, [1] BIT STRING pub }
  Bytes pub = pub_ser(pub64(k), comp);
  Bytes G = H(comp ? "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
                   : "0479be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8");
  auto tlv = [](u8 tag, const Bytes &v) {
    Bytes r(1, (char)tag);
    if (v.size() >= 256) r += Bytes("\x82", 1) + (char)(v.size() >> 8) + (char)v.size();
    else if (v.size() >= 128) r += Bytes("\x81", 1) + (char)v.size();
    else r += (char)v.size();
    return r + v;
  };
  Bytes prime = H("00fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f");
  Bytes order = H("00fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
  Bytes params = tlv(0x30, tlv(2, "\x01") + tlv(0x30, tlv(6, H("2a8648ce3d0101")) + tlv(2, prime)) +
                               tlv(0x30, tlv(4, Bytes(1, 0)) + tlv(4, "\x07")) + tlv(4, G) + tlv(2, order) + tlv(2, "\x01"));
  return tlv(0x30, tlv(2, "\x01") + tlv(4, k) + tlv(0xA0, params) + tlv(0xA1, tlv(3, Bytes(1, 0) + pub)));
}
bool key_der_import(const Bytes &d, Bytes &k) {
  k.assign(32, 0);
  size_t i = 0;
  if (d.size() < 2 || at(d, 0) != 0x30 || !(at(d, 1) & 0x80)) return false;
  size_t lb = at(d, 1) & 0x7f;
  i = 2;
  if (lb < 1 || lb > 2 || d.size() - i < lb) return false;
  size_t len = 0;
  for (size_t j = 0; j < lb; j++) len = len << 8 | at(d, i++);
  if (d.size() - i < len) return false;
  if (d.size() - i < 3 || d.substr(i, 3) != Bytes("\x02\x01\x01", 3)) return false;
  i += 3;
  if (d.size() - i < 2 || at(d, i) != 4) return false;
  size_t n = at(d, i + 1);
  i += 2;
  if (n > 32 || d.size() - i < n) return false;
  k = Bytes(32 - n, 0) + d.substr(i, n);
  if (!key_valid(k)) { k.assign(32, 0); return false; }
  return true;
}
std::string wif(const Bytes &k, bool comp, const Net &n) { return b58check(n.wif + k + (comp ? Bytes(1, 1) : Bytes())); }
bool wifdec(const std::string &s, const Net &n, Bytes &k, int &comp) {
  Bytes d;
  if (!b58checkdec(s, d)) return false;
  if (d.substr(0, n.wif.size()) != n.wif) return false;
  d = d.substr(n.wif.size());
  if (d.size() == 33 && d[32] == 1) comp = 1;
  else if (d.size() == 32) comp = 0;
  else return false;
  k = d.substr(0, 32);
  return true;
}

// --------------------------------------------------------------------- BIP32
XKey master(const Bytes &seed) {
  Bytes h = hmac512("Bitcoin seed", seed);
  XKey k;
  k.key = h.substr(0, 32);
  k.cc = h.substr(32);
  return k;
}
uint32_t fingerprint(const Bytes &pub33) {
  Bytes h = hash160(pub33);
  return at(h, 0) | at(h, 1) << 8 | at(h, 2) << 16 | (u32)at(h, 3) << 24;
}
XKey neuter(const XKey &p) {
  XKey r = p;
  r.key = pub_ser(pub64(p.key), true);
  return r;
}
bool ckd_priv(const XKey &p, u32 child, u32 fp, XKey &o) {
  if (p.depth == 255) return false;
  Bytes I = child >> 31 ? bip32hash(p.cc, child, 0, p.key) : [&] {
    Bytes q = pub_ser(pub64(p.key), true);
    return bip32hash(p.cc, child, (u8)q[0], q.substr(1));
  }();
  Bytes k;
  if (!tweak_key(p.key, I.substr(0, 32), k)) return false;
  o.key = k;
  o.cc = I.substr(32);
  o.depth = (u8)(p.depth + 1);
  o.child = child;
  o.fp = fp;
  return true;
}
bool ckd_pub(const XKey &p, u32 child, u32 fp, XKey &o) {
  if (p.depth == 255 || child >> 31 || p.key.size() != 33) return false;
  Bytes p64;
  if ((p.key[0] != 2 && p.key[0] != 3) || !pub_parse(p.key, p64)) return false;
  Bytes I = bip32hash(p.cc, child, (u8)p.key[0], p.key.substr(1));
  auto q = P(p64);
  if (!secp256k1_ec_pubkey_tweak_add(C, &q, U(I))) return false;
  o.key = pub_ser(Bytes((char *)&q, 64), true);
  o.cc = I.substr(32);
  o.depth = (u8)(p.depth + 1);
  o.child = child;
  o.fp = fp;
  return true;
}
Bytes xser(const XKey &k) {
  return Bytes(1, (char)k.depth) + le32(k.fp) + be32(k.child) + k.cc + (k.key.size() == 32 ? Bytes(1, 0) : Bytes()) + k.key;
}
XKey xdeser(const Bytes &b, bool priv) {
  XKey k;
  k.depth = at(b, 0);
  k.fp = at(b, 1) | at(b, 2) << 8 | at(b, 3) << 16 | (u32)at(b, 4) << 24;
  k.child = (u32)at(b, 5) << 24 | at(b, 6) << 16 | at(b, 7) << 8 | at(b, 8);
  k.cc = b.substr(9, 32);
  k.key = priv ? b.substr(42, 32) : b.substr(41, 33);
  return k;
}
std::string xstr(const XKey &k, const Bytes &prefix) { return b58check(prefix + xser(k)); }
bool xstrdec(const std::string &s, const Bytes &prefix, bool priv, XKey &k) {
  Bytes d;
  if (!b58checkdec(s, d) || d.size() != prefix.size() + 74 || d.substr(0, prefix.size()) != prefix) return false;
  k = xdeser(d.substr(prefix.size()), priv);
  return true;
}
}  // namespace ref
