// The reference models against published and independently computed values.
#include "ref.h"
#include <cstdio>
namespace ref {
static Bytes L(size_t o, size_t n) {
  Bytes b(n, 0);
  for (size_t i = 0; i < n; i++) b[i] = (char)((i + o) * 7 + 3);
  return b;
}
static Bytes H(const char *s) { Bytes b; unhex(s, b); return b; }
bool selftest(std::string &why) {
#define T(c) do { if (!(c)) { why += #c "; "; } } while (0)
  Bytes a, b, c, d;
  for (size_t l = 0; l <= 300; l++) { a += sha1(L(0, l)); b += sha256(L(0, l)); c += sha512(L(0, l)); d += rmd160(L(0, l)); }
  T(hex(sha256(a)) == "67888d6b2a15b4bc43c5788ce28aaa0a241369a940ef796d976aac3bbd00740e");
  T(hex(sha256(b)) == "7d917fbd2cf49ddff9ad0a8706bba32d204e92e71d2e369c5a03d6af29278c9f");
  T(hex(sha256(c)) == "60aaa3762fae9f89010087979a48af59703cbdd193aa92fd1ffe54f969edc0e7");
  T(hex(sha256(d)) == "a20f03d8dd1cb42e189380d21d5c2b9fca0d901d94edc3f0e3abce79a8eb6c4e");
  T(hex(hmac256(L(0, 20), L(0, 300))) == "0ae76c149e329d7d3ecb815ca80a4a2c3feabba485e2fe3ff9d5945dbe338e37");
  T(hex(hmac512(L(0, 20), L(0, 300))) == "d5183fa207cd0c22589fa83910f274ef75ea9321560e5388f375e5a159da8584f9a95e3c65506474ab0e30365cde1bf1f4f509b463fa39f19add677bc3256120");
  T(hex(hmac256(L(0, 200), L(0, 300))) == "d70ba7462370c99ae2c4451594f7451299fce31693e57d86d35820b8a44b40d3");
  T(hex(hmac512(L(0, 200), L(0, 300))) == "e3c5f095a89795d6409294f7faa3db44c9803f6c6acc80b54f7e3b5e115f3e23dd0a63f7ff2e690cd84e89679db7aef4aafc0cd68c5e26e913f2c4ab31e3ad25");
  a = b = c = d = "";
  for (size_t i = 0; i < 40; i++)
    for (size_t l = 0; l < 70; l++) {
      Bytes x = L(i, l), y;
      a += b64enc(x, false); b += b64enc(x, true); c += b32enc(x); d += b58enc(x);
      Partial p = b64dec(b64enc(x, false), false), q = b32dec(b32enc(x));
      if (!p.clean || p.bytes != x || !q.clean || q.bytes != x || !b58dec(b58enc(x), y) || y != x) { why += "round trip; "; return false; }
    }
  d += b58enc(Bytes(5, 0) + L(0, 9));
  T(hex(sha256(a)) == "96db26221bad6b3249ff80ac54ad07b565ec751fea126be9f43382caac2a8cff");
  T(hex(sha256(b)) == "72c8aa59dc7dc72ab2b82fc2fe2f0925e9aed5d1140661f9d5d2fbd9f679ce08");
  T(hex(sha256(c)) == "e4ca904a62ac629bc689fe62bd26175d814ae07c451e3b5dde6c014182fb59dd");
  T(hex(sha256(d)) == "3ba28b836b9ce89f3e9307a4a7fbb29bd22b06cbd9e15f9145e5ab360a2c186d");
  // BIP 32, test vector 1
  XKey m = master(H("000102030405060708090a0b0c0d0e0f")), k, k2, n;
  Bytes xp = mainnet().xprv, xu = mainnet().xpub;
  T(xstr(m, xp) == "xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi");
  T(xstr(neuter(m), xu) == "xpub661MyMwAqRbcFtXgS5sYJABqqG9YLmC4Q1Rdap9gSE8NqtwybGhePY2gZ29ESFjqJoCu1Rupje8YtGqsefD265TMg7usUDFdp6W1EGMcet8");
  T(ckd_priv(m, 0x80000000u, fingerprint(neuter(m).key), k));
  T(xstr(k, xp) == "xprv9uHRZZhk6KAJC1avXpDAp4MDc3sQKNxDiPvvkX8Br5ngLNv1TxvUxt4cV1rGL5hj6KCesnDYUhd7oWgT11eZG7XnxHrnYeSvkzY7d2bhkJ7");
  T(ckd_priv(k, 1, fingerprint(neuter(k).key), k2));
  T(xstr(k2, xp) == "xprv9wTYmMFdV23N2TdNG573QoEsfRrWKQgWeibmLntzniatZvR9BmLnvSxqu53Kw1UmYPxLgboyZQaXwTCg8MSY3H2EU4pWcQDnRnrVA1xe8fs");
  T(ckd_pub(neuter(k), 1, fingerprint(neuter(k).key), n));
  T(xstr(n, xu) == "xpub6ASuArnXKPbfEwhqN6e3mwBcDTgzisQN1wXN9BJcM47sSikHjJf3UFHKkNAWbWMiGj7Wf5uMash7SyYq527Hqck2AxYysAA7xmALppuCkwQ");
  // key 1: addresses, WIF, BIP 173 example
  Bytes one(32, 0);
  one[31] = 1;
  Bytes pub = pub_ser(pub64(one), true), h = hash160(pub);
  T(hex(pub) == "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798");
  T(hex(h) == "751e76e8199196d454941c45d1b3a323f1433bd6");
  T(addr(PK, h, mainnet()) == "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH");
  T(addr(WKEY, h, mainnet()) == "bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4");
  T(addr(WKEY, h, testnet()) == "tb1qw508d6qejxtdg4y5r3zarvary0c5xw7kxpjzsx");
  T(wif(one, true, mainnet()) == "KwDiBf89QgGbjEhKnhXJuH7LrciVrZi3qYjgd9M7rFU73sVHnoWn");
  T(wif(one, false, mainnet()) == "5HpHagT65TZzG1PH3CSu63k8DbpvD8s5ip4nEB3kEsreAnchuDf");
  T(addrdec("BC1QW508D6QEJXTDG4Y5R3ZARVARY0C5XW7KV8F3T4", mainnet(), a) == WKEY && a == h);
  T(addrdec("bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t5", mainnet(), a) == BAD);
  T(addrdec("1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMJ", mainnet(), a) == BAD);
  Bytes s = sign(one, sha256("Satoshi Nakamoto"));
  T(verify(pub64(one), sha256("Satoshi Nakamoto"), s));
  T((unsigned char)sig_compact(s)[0] < 0x80 && (unsigned char)sig_compact(s)[32] < 0x80);
  unsigned long long vals[] = {0, 1, 127, 128, 16511, 16512, 65535, 1ull << 32, ~0ull};
  for (auto v : vals) { uint64_t o; T(varintdec(varint(v), o) == varint(v).size() && o == v); }
  T(hex(varint(128)) == "8000" && hex(varint(16511)) == "ff7f" && hex(varint(65535)) == "82fe7f" && hex(varint(1ull << 32)) == "8efefeff00");
  for (long long v : {0ll, 1ll, -1ll, 63ll, -64ll, 9223372036854775807ll, -9223372036854775807ll - 1}) { int64_t o; T(zigzagdec(zigzag(v), o) == zigzag(v).size() && o == v); }
  return why.empty();
}
}  // namespace ref
