#include "api.h"
#include <cerrno>
#include <algorithm>
#include <cstdlib>
#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/compress_integer.h>
#include "inl.h"

namespace {
struct J {
  Item it;
  Call c;
  static Item sub() {
    Item i = *cur->item;
    i.seed = hmix(i.seed, ++cur->ord["api"]);
    return i;
  }
  J() : it(sub()), c(it) {}
  ~J() { c.verify(); }
  const chain_parameters *cp(const Network &w) { return (const chain_parameters *)w.cp; }
};
template <class F> void call(F f) {
  errno = 0;
  lib(f);
}
template <class T> void put_ext(T *k, const ref::XKey &x) {
  memset(k, 0x5e, sizeof *k);
  k->ext.depth = x.depth;
  k->ext.fingerprint = x.fp;
  k->ext.child = x.child;
  memcpy(k->ext.chain_code, x.cc.data(), 32);
}
template <class T> ref::XKey get_ext(const T *k) {
  ref::XKey x;
  x.depth = k->ext.depth;
  x.fp = k->ext.fingerprint;
  x.child = k->ext.child;
  x.cc = got(k->ext.chain_code, 32);
  return x;
}
// structures in heap blocks of exactly their size
template <class T> struct Obj {
  T *p;
  Obj() : p((T *)malloc(sizeof(T))) { memcpy(p, stale(sizeof(T)).data(), sizeof(T)); W->scratch.push_back(p); }
  ~Obj() {
    auto i = std::find(W->scratch.begin(), W->scratch.end(), (void *)p);
    if (i != W->scratch.end()) W->scratch.erase(i);
    free(p);
  }
};
typedef Obj<fingera_ex_key> Prv;
typedef Obj<fingera_ex_pubkey> Pub;
void put(Prv &o, const ref::XKey &x) { put_ext(o.p, x); memcpy(o.p->key, x.key.data(), 32); }
void put(Pub &o, const ref::XKey &x) { put_ext(o.p, x); memcpy(o.p->c_pubkey, x.key.data(), 33); }
ref::XKey get(Prv &o) { auto x = get_ext(o.p); x.key = got(o.p->key, 32); return x; }
ref::XKey get(Pub &o) { auto x = get_ext(o.p); x.key = got(o.p->c_pubkey, 33); return x; }
}  // namespace

namespace api {
Bytes addr_enc(ref::Kind k, const Bytes &pay, const Network &w) {
  J j;
  const u8 *i = j.c.in(pay, "payload");
  size_t cap = 400, n = 0;
  u8 *o = j.c.out(cap);
  auto p = j.cp(w);
  switch (k) {
    case ref::PK: call([&] { n = fingera_to_address_pubkey(i, pay.size(), (char *)o, cap, p); }); break;
    case ref::SCRIPT: call([&] { n = fingera_to_address_script(i, pay.size(), (char *)o, cap, p); }); break;
    case ref::WKEY: call([&] { n = fingera_to_address_witnessv0_keyhash(i, pay.size(), (char *)o, cap, p); }); break;
    case ref::WSCRIPT: call([&] { n = fingera_to_address_witnessv0_scripthash(i, pay.size(), (char *)o, cap, p); }); break;
    default: call([&] { n = fingera_to_address_witness_unknown(i, pay.size(), (char *)o, cap, p); });
  }
  if (n > cap) fail("wrong-result", "address encoder returns more than its buffer");
  return got(o, n);
}
ref::Kind addr_dec(const Bytes &t, const Network &w, Bytes &pay) {
  J j;
  const u8 *i = j.c.in(t, "text");
  size_t cap = fingera_from_base58_check_length(t.size()) + (j.c.r.below(3) ? 0 : 50), os = cap;
  u8 *o = j.c.out(cap);
  fingera_btc_address k;
  call([&] { k = fingera_btc_address_decode((const char *)i, t.size(), o, &os, j.cp(w)); });
  if (k == BTC_BAD_ADDRESS) return ref::BAD;
  if (os > cap) fail("wrong-result", "address decoder returns more than its buffer");
  pay = got(o, os);
  return (ref::Kind)k;
}
Bytes wif_enc(const Bytes &k, bool comp, const Network &w) {
  J j;
  const u8 *i = j.c.in(k, "key");
  u8 *o = j.c.out(fingera_key_string_max_length());
  size_t n;
  call([&] { n = fingera_btc_key_to_string(i, (char *)o, comp, j.cp(w)); });
  return got(o, std::min(n, (size_t)fingera_key_string_max_length()));
}
bool wif_dec(const Bytes &t, const Network &w, Bytes &k, int &comp) {
  J j;
  const u8 *i = j.c.in(t, "text");
  u8 *o = j.c.out(32);
  int ok, ic = 77;
  call([&] { ok = fingera_btc_key_from_string((const char *)i, t.size(), o, &ic, j.cp(w)); });
  k = got(o, 32);
  comp = ic;
  return ok;
}
Bytes x_enc(const ref::XKey &x, bool priv, const Network &w) {
  J j;
  size_t cap = fingera_exkey_string_max_length(), n;
  u8 *o = j.c.out(cap);
  if (priv) { Prv k; put(k, x); call([&] { n = fingera_exkey_to_string(k.p, (char *)o, j.cp(w)); }); }
  else { Pub k; put(k, x); call([&] { n = fingera_expubkey_to_string(k.p, (char *)o, j.cp(w)); }); }
  return got(o, std::min(n, cap));
}
bool x_dec(const Bytes &t, bool priv, const Network &w, ref::XKey &x) {
  J j;
  const u8 *i = j.c.in(t, "text");
  int ok;
  if (priv) { Prv k; call([&] { ok = fingera_exkey_from_string((const char *)i, t.size(), k.p, j.cp(w)); }); x = get(k); }
  else { Pub k; call([&] { ok = fingera_expubkey_from_string((const char *)i, t.size(), k.p, j.cp(w)); }); x = get(k); }
  return ok;
}
Bytes x74_enc(const ref::XKey &x, bool priv) {
  J j;
  u8 *o = j.c.out(74);
  if (priv) { Prv k; put(k, x); call([&] { fingera_exkey_encode(k.p, o); }); }
  else { Pub k; put(k, x); call([&] { fingera_expubkey_encode(k.p, o); }); }
  return got(o, 74);
}
ref::XKey x74_dec(const Bytes &raw, bool priv) {
  J j;
  const u8 *i = j.c.in(raw, "bytes");
  if (priv) { Prv k; call([&] { fingera_exkey_decode(i, k.p); }); return get(k); }
  Pub k;
  call([&] { fingera_expubkey_decode(i, k.p); });
  return get(k);
}
Bytes der_enc(const Bytes &key, bool comp) {
  J j;
  const u8 *i = j.c.in(key, "key");
  size_t n = comp ? BTC_COMPRESSED_PRIVATE_KEY_SIZE : BTC_PRIVATE_KEY_SIZE;
  u8 *o = j.c.out(n);
  int ok;
  call([&] { ok = fingera_btc_key_encode(i, o, n); });
  return ok ? got(o, n) : Bytes();
}
bool der_dec(const Bytes &der, Bytes &key) {
  J j;
  const u8 *i = j.c.in(der, "DER key");
  u8 *o = j.c.out(32);
  int ok;
  call([&] { ok = fingera_btc_key_decode(i, der.size(), o); });
  key = got(o, 32);
  return ok;
}
Bytes get_pub(const Bytes &key) {
  J j;
  const u8 *i = j.c.in(key, "key");
  u8 *o = j.c.out(64);
  call([&] { fingera_btc_key_get_pub(i, o); });
  return got(o, 64);
}
Bytes pub_enc(const Bytes &p64, bool comp) {
  J j;
  const u8 *i = j.c.in(p64, "public key");
  size_t n = comp ? 33 : 65;
  u8 *o = j.c.out(n);
  int ok;
  call([&] { ok = fingera_btc_pubkey_encode(i, o, n); });
  return ok ? got(o, n) : Bytes();
}
bool pub_dec(const Bytes &enc, Bytes &p64) {
  J j;
  const u8 *i = j.c.in(enc, "encoded key");
  u8 *o = j.c.out(64);
  int ok;
  call([&] { ok = fingera_btc_pubkey_decode(i, enc.size(), o); });
  p64 = got(o, 64);
  return ok;
}
Bytes sign(const Bytes &key, const Bytes &hash) {
  J j;
  const u8 *i = j.c.in(key, "key"), *h = j.c.in(hash, "hash");
  u8 *o = j.c.out(64);
  call([&] { fingera_btc_key_sign(i, h, o); });
  return got(o, 64);
}
Bytes sig_enc(const Bytes &s64) {
  J j;
  const u8 *i = j.c.in(s64, "signature");
  u8 *o = j.c.out(BTC_SIGNATURE_SIZE);
  size_t n;
  call([&] { n = fingera_btc_signature_encode(i, o); });
  return got(o, std::min<size_t>(n, BTC_SIGNATURE_SIZE));
}
bool sig_dec(const Bytes &der, Bytes &s64) {
  J j;
  const u8 *i = j.c.in(der, "DER signature");
  u8 *o = j.c.out(64);
  int ok;
  call([&] { ok = fingera_btc_signature_decode(i, der.size(), o); });
  s64 = got(o, 64);
  return ok;
}
bool verify(const Bytes &p64, const Bytes &hash, const Bytes &s64) {
  J j;
  const u8 *p = j.c.in(p64, "public key"), *h = j.c.in(hash, "hash"), *s = j.c.in(s64, "signature");
  int ok;
  call([&] { ok = fingera_btc_key_verify(p, h, s); });
  return ok;
}
ref::XKey master(const Bytes &seed) {
  J j;
  const u8 *i = j.c.in(seed, "seed");
  Prv k;
  call([&] { fingera_exkey_init(k.p, i, seed.size()); });
  return get(k);
}
bool ckd_priv(const ref::XKey &x, u32 child, u32 fp, ref::XKey &o) {
  J j;
  Prv a, b;
  put(a, x);
  int ok;
  auto to = j.c.r.below(3) ? b.p : a.p;  // in place too
  call([&] { ok = fingera_exkey_derive(a.p, to, child, fp); });
  o = to == b.p ? get(b) : get(a);
  return ok;
}
bool ckd_pub(const ref::XKey &x, u32 child, u32 fp, ref::XKey &o) {
  J j;
  Pub a, b;
  put(a, x);
  int ok;
  auto to = j.c.r.below(3) ? b.p : a.p;
  call([&] { ok = fingera_expubkey_derive(a.p, to, child, fp); });
  o = to == b.p ? get(b) : get(a);
  return ok;
}
ref::XKey neuter(const ref::XKey &x) {
  J j;
  Prv a;
  Pub b;
  put(a, x);
  call([&] { fingera_exkey_get_pub(a.p, b.p); });
  return get(b);
}
u32 fingerprint(const Bytes &p33) {
  J j;
  const u8 *i = j.c.in(p33, "encoded key");
  u32 f;
  call([&] { f = fingera_btc_pubkey_fingerprint(i); });
  return f;
}
Bytes key_new() {
  J j;
  u8 *o = j.c.out(32);
  call([&] { fingera_btc_key_new(o); });
  return got(o, 32);
}
Bytes int_enc(bool sgn, u64 v) {
  J j;
  u8 *o = j.c.out(10);
  size_t n;
  call([&] { n = sgn ? fingera_encode_zigzag((int64_t)v, o) : fingera_encode_varint(v, o); });
  if (n > 10) fail("wrong-result", "integer encoder returns more than 10 bytes");
  return got(o, n);
}
size_t int_dec(bool sgn, const Bytes &b, u64 &v) {
  J j;
  const u8 *i = j.c.in(b, "bytes");
  size_t n;
  if (sgn) {
    int64_t s = (int64_t)v;
    call([&] { n = fingera_decode_zigzag(i, b.size(), &s); });
    v = (u64)s;
  } else {
    uint64_t s = v;
    call([&] { n = fingera_decode_varint(i, b.size(), &s); });
    v = s;
  }
  return n;
}
bool derive_pub(const Bytes &p33, const Bytes &cc, u32 child, Bytes &o33, Bytes &occ) {
  J j;
  const u8 *i = j.c.in(p33, "encoded key"), *k = j.c.in(cc, "chain code");
  u8 *o = j.c.out(33), *oc = j.c.out(32);
  int ok;
  call([&] { ok = fingera_btc_pubkey_derive(i, k, o, oc, child); });
  o33 = got(o, 33);
  occ = got(oc, 32);
  return ok;
}
bool derive_priv(const Bytes &key, const Bytes &cc, u32 child, Bytes &ok_, Bytes &occ) {
  J j;
  const u8 *i = j.c.in(key, "key"), *k = j.c.in(cc, "chain code");
  u8 *o = j.c.out(32), *oc = j.c.out(32);
  int ok;
  call([&] { ok = fingera_btc_key_derive(i, k, o, oc, child); });
  ok_ = got(o, 32);
  occ = got(oc, 32);
  return ok;
}
}  // namespace api
