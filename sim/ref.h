// Independent reference models (oracles). Nothing here calls the library under
// test; curve arithmetic comes from libsecp256k1, which is a trusted dependency.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
using Bytes = std::string;

namespace ref {
struct Mid {  // a hash after `done` bytes, a multiple of its block
  Bytes state;
  uint64_t done = 0;
};
Bytes sha1(const Bytes &, const Mid *);
Bytes sha256(const Bytes &, const Mid *);
Bytes sha512(const Bytes &, const Mid *);
Bytes rmd160(const Bytes &, const Mid *);
void sha1_more(Mid &, const Bytes &blocks);
void sha256_more(Mid &, const Bytes &blocks);
void sha512_more(Mid &, const Bytes &blocks);
void rmd160_more(Mid &, const Bytes &blocks);
Bytes sha1(const Bytes &);
Bytes sha256(const Bytes &);
Bytes sha512(const Bytes &);
Bytes rmd160(const Bytes &);
Bytes hmac256(const Bytes &key, const Bytes &msg);
Bytes hmac512(const Bytes &key, const Bytes &msg);
inline Bytes hash160(const Bytes &m) { return rmd160(sha256(m)); }
inline Bytes hash256(const Bytes &m) { return sha256(sha256(m)); }
Bytes bip32hash(const Bytes &cc, uint32_t child, uint8_t header, const Bytes &d32);

Bytes hex(const Bytes &, bool upper = false);
bool unhex(const std::string &, Bytes &);  // strict
// Result of decoding a possibly malformed text: `bytes` is the ideal decoding of
// everything before the first malformed place, `min_n` the least number of bytes
// a decoder that works block by block must return, `clean` whether all of it is
// well formed.
struct Partial {
  Bytes bytes;
  size_t min_n = 0;
  bool clean = true;
  bool bad_used = false;  // a malformed character lies in the part that carries output
};
Partial hexdec(const std::string &);
Bytes b64enc(const Bytes &, bool url);
Partial b64dec(const std::string &, bool url);
size_t b64declen(const std::string &, bool url);
Bytes b32enc(const Bytes &);
Partial b32dec(const std::string &);
size_t b32declen(const std::string &);
Bytes b32raw(const Bytes &);          // 5-bit symbols
Partial b32rawdec(const Bytes &);
Bytes b58enc(const Bytes &);
bool b58dec(const std::string &, Bytes &);  // trims white space; false: malformed
Bytes b58check(const Bytes &payload);
bool b58checkdec(const std::string &, Bytes &);
Bytes varint(uint64_t);
// consumed length, 0: incomplete or does not fit
size_t varintdec(const Bytes &, uint64_t &);
Bytes zigzag(int64_t);
size_t zigzagdec(const Bytes &, int64_t &);
std::string hexdump(const Bytes &, bool upper);

std::string bech32enc(const Bytes &hrp, const Bytes &sym);
bool bech32dec(const std::string &, Bytes &hrp, Bytes &sym);

struct Net {
  Bytes pk, sc, wif, xpub, xprv, hrp;
};
const Net &mainnet();
const Net &testnet();
const Net &regnet();
enum Kind { BAD, PK, SCRIPT, WKEY, WSCRIPT, WUNK };
std::string addr(Kind, const Bytes &payload, const Net &);  // WUNK: payload = version byte + program
Kind addrdec(const std::string &, const Net &, Bytes &payload);

void curve_init();
bool key_valid(const Bytes &k);
Bytes pub64(const Bytes &key);                 // library-internal 64-byte form
Bytes pub_ser(const Bytes &p64, bool comp);
bool pub_parse(const Bytes &enc, Bytes &p64);
Bytes sign(const Bytes &key, const Bytes &h);  // 64-byte internal form, low R, low S
Bytes sig_compact(const Bytes &s64);
Bytes sig_from_compact(const Bytes &c64);
Bytes sig_der(const Bytes &s64);
bool sig_lax(const Bytes &der, Bytes &s64);
bool verify(const Bytes &p64, const Bytes &h, const Bytes &s64);
bool tweak_key(const Bytes &k, const Bytes &t, Bytes &out);
Bytes key_der(const Bytes &k, bool comp);
bool key_der_import(const Bytes &der, Bytes &k);
std::string wif(const Bytes &k, bool comp, const Net &);
bool wifdec(const std::string &, const Net &, Bytes &k, int &comp);

struct XKey {
  uint8_t depth = 0;
  uint32_t fp = 0, child = 0;
  Bytes cc, key;  // key: 32 private or 33 public
};
XKey master(const Bytes &seed);
bool ckd_priv(const XKey &p, uint32_t child, uint32_t fp, XKey &out);
bool ckd_pub(const XKey &p, uint32_t child, uint32_t fp, XKey &out);
XKey neuter(const XKey &p);
uint32_t fingerprint(const Bytes &pub33);
Bytes xser(const XKey &);  // 74 bytes
XKey xdeser(const Bytes &, bool priv);
std::string xstr(const XKey &, const Bytes &prefix);
bool xstrdec(const std::string &, const Bytes &prefix, bool priv, XKey &);
bool selftest(std::string &why);
}  // namespace ref
