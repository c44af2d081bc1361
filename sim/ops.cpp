#include "ops.h"
#include "huge.h"
#include <cerrno>
#include <cstdlib>
#include <algorithm>
#include <sys/mman.h>
#include <unistd.h>
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/bech32.h>
#include <fingera_libc/btc/chain_parameters.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/cleanse.h>
#include <fingera_libc/compress_integer.h>
#include <fingera_libc/hash/ripemd160.h>
#include <fingera_libc/hash/sha1.h>
#include <fingera_libc/hash/sha2.h>
#include <fingera_libc/hex.h>
#include <fingera_libc/random.h>
#include "inl.h"

// ------------------------------------------------------------------ buffers
Bytes got(const void *p, size_t n) { return Bytes((const char *)p, n); }
static u8 *keep(size_t n) {
  u8 *p = (u8 *)malloc(n ? n : 1);
  W->scratch.push_back(p);
  return p;
}
// in some runs the buffers of a thread lie at the same place in every call
const size_t SLOTS = 16384;
static u8 *place(int lane, size_t n) {
  if (!W->slotted) return keep(n);
  auto &s = W->slots[lane];
  if (!s.mem) s.mem = keep(SLOTS);
  size_t m = (n + 32) & ~(size_t)15;
  if (s.used + m > SLOTS) return keep(n);
  u8 *p = s.mem + s.used;
  s.used += m;
  s.live++;
  return p;
}
static void drop(void *p) {
  for (auto &s : W->slots)
    if (s.second.mem && (u8 *)p >= s.second.mem && (u8 *)p < s.second.mem + SLOTS) {
      if (--s.second.live == 0) s.second.used = 0;
      return;
    }
  for (size_t i = W->scratch.size(); i-- > 0;)
    if (W->scratch[i] == p) {
      W->scratch[i] = W->scratch.back();
      W->scratch.pop_back();
      break;
    }
  free(p);
}
Call::~Call() {
  for (auto &b : blocks) drop(b.mem);
}
static const char ADV[] = "1qA=z2 a0\n7bc1/";
u8 *Call::in(const Bytes &b, const char *what) {
  bool embed = r.below(4) == 0;
  size_t off = r.below(3) == 0 ? 0 : r.below(17), tail = embed ? 1 + r.below(40) : 0;
  if (W->slotted) off = W->family & 7;
  if (b.size() + off + tail == 0) off = 1;
  Block k{place(it.lane, off + b.size() + tail), off + b.size() + tail, off, b.size(), "", true, what};
  int mode = (int)r.below(4);
  for (size_t i = 0; i < k.total; i++)
    k.mem[i] = mode == 0 ? (u8)ADV[r.below(15)] : mode == 1 ? 0 : mode == 2 && !b.empty() ? (u8)b[i % b.size()] : (u8)r.next();
  memcpy(k.mem + off, b.data(), b.size());
  k.orig = got(k.mem, k.total);
  blocks.push_back(k);
  return k.mem + off;
}
u8 *Call::out(size_t n, const char *what) {
  bool embed = r.below(6) == 0;
  size_t off = r.below(2) ? r.below(17) : 0, tail = embed ? 64 : 0;
  if (W->slotted) off = (W->family >> 3) & 7;
  if (n + off + tail == 0) off = 1;
  Block k{place(it.lane, off + n + tail), off + n + tail, off, n, "", false, what};
  memcpy(k.mem, stale(k.total).data(), k.total);
  k.orig = got(k.mem, k.total);
  blocks.push_back(k);
  return k.mem + off;
}
u8 *Call::inout(const Bytes &b) {
  u8 *p = out(b.size(), "in/out");
  memcpy(p, b.data(), b.size());
  return p;
}
void Call::verify() {
  for (auto &b : blocks) {
    for (size_t i = 0; i < b.total; i++) {
      if (!b.input && i >= b.off && i < b.off + b.n) continue;
      if (b.mem[i] != (u8)b.orig[i])
        fail("stray-write", b.input && i >= b.off && i < b.off + b.n ? it.kind + ": the call changed its " + b.what
                                                                     : it.kind + ": the call wrote outside of its " + b.what);
    }
  }
}
void Call::secret(const Bytes &b) {
  if (W->hygiene) cur->secrets.push_back(b);
}
Bytes rand_payload(Rng &r, size_t n) {
  Bytes b = r.bytes(n);
  switch (r.below(8)) {
    case 0: for (size_t i = 0; i < n; i++) b[i] = 0; break;
    case 1: for (size_t i = 0; i < n; i++) b[i] = (char)0xff; break;
    case 2: { size_t z = r.below(n + 1); for (size_t i = 0; i < z; i++) b[i] = 0; break; }
    case 3: { size_t z = r.below(n + 1); for (size_t i = z; i < n; i++) b[i] = 0; break; }
    case 4: for (auto &c : b) c = (char)r.range(32, 126); break;
    default: break;
  }
  return b;
}
// In runs with a family of arguments, calls get the same values again, or values
// that differ in one place.
static Bytes relative(Rng &r, size_t n, u64 which) {
  Bytes b = Rng(hmix(W->family, which)).bytes(n);
  if (n && r.below(3) == 0) b[r.below(n)] ^= (char)(1 << r.below(8));
  return b;
}
Bytes Call::data(long n) {
  if (n > 0 && W->family && !W->hygiene && r.below(3)) return relative(r, (size_t)n, 10 + r.below(2));
  return rand_payload(r, n < 0 ? 0 : (size_t)n);
}
Bytes Call::b32() {
  if (W->family && !W->hygiene && r.below(3)) return relative(r, 32, 20 + r.below(2));
  return r.bytes(32);
}
u32 Call::child() {
  switch (r.below(W->family ? 6 : 4)) {
    case 0: return (u32)r.below(3) | (r.below(2) ? 0x80000000u : 0);
    case 1: return (r.below(2) ? 0x80000000u : 0xffffffffu) - (u32)r.below(3);
    case 2: case 3: return (u32)r.next();
    default: return (u32)hmix(W->family, r.below(2));
  }
}
Bytes Call::key() {
  for (;;) {
    Bytes k;
    if (W->family && !W->hygiene && r.below(3)) {
      k = relative(r, 32, r.below(2));
      if (ref::key_valid(k)) return k;
    }
    switch (W->hygiene ? 7 : r.below(8)) {
      case 0: k = Bytes(32, 0); k[31] = (char)(1 + r.below(3)); break;
      case 1: {
        ref::unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", k);
        k[31] = (char)(0x41 - 1 - r.below(3));
        break;
      }
      case 2: { k = r.bytes(32); size_t z = 1 + r.below(8); for (size_t i = 0; i < z; i++) k[i] = 0; break; }
      default: k = r.bytes(32);
    }
    if (ref::key_valid(k)) return k;
  }
}
void expect(const char *what, const Bytes &have, const Bytes &want) {
  if (have == want) return;
  fail("wrong-result", fmt("%s: got %zu bytes %s, expected %zu bytes %s", what, have.size(), hexs(have, 40).c_str(), want.size(),
                           hexs(want, 40).c_str()));
}
void expect_n(const char *what, u64 have, u64 want) {
  if (have == want) return;
  fail("wrong-result", fmt("%s: got %llu, expected %llu", what, (unsigned long long)have, (unsigned long long)want));
}
static void expect_partial(const char *what, const Bytes &have, const ref::Partial &p, size_t adv) {
  bool ok;
  if (p.clean) ok = have == p.bytes && have.size() == adv;
  else {
    ok = have.size() >= p.min_n && have.size() <= p.bytes.size() && p.bytes.compare(0, have.size(), have) == 0;
    if (p.bad_used && have.size() >= adv && adv) ok = false;  // malformed text must not look complete
  }
  if (!ok)
    fail("wrong-result", fmt("%s: %s text decoded to %zu bytes %s, expected %s %zu bytes %s", what, p.clean ? "well-formed" : "malformed",
                             have.size(), hexs(have, 40).c_str(), p.clean ? "exactly" : "a prefix of", p.bytes.size(), hexs(p.bytes, 40).c_str()));
}
static void junk_errno(Call &c) {
  static const int es[] = {0, EINTR, ERANGE, EAGAIN, ENOMEM};
  errno = es[c.r.below(5)];
}
#define CALL(...) do { junk_errno(c); lib([&] { __VA_ARGS__; }); } while (0)

// ------------------------------------------------------------------- hashes
static St hash_op(Call &c, const char *name, size_t dn, void (*f)(const void *, size_t, void *), Bytes (*rf)(const Bytes &)) {
  Bytes m = W->hygiene ? c.r.bytes((size_t)std::max<long>(c.size, 16)) : c.data(c.size);
  c.secret(m);
  const u8 *i = c.in(m);
  u8 *o = c.out(dn);
  CALL(f(i, m.size(), o));
  expect(name, got(o, dn), rf(m));
  return DONE;
}
static St op_sha1(Call &c) { return hash_op(c, "sha1", 20, fingera_sha1, ref::sha1); }
static St op_sha256(Call &c) { return hash_op(c, "sha256", 32, fingera_sha2_256, ref::sha256); }
static St op_sha512(Call &c) { return hash_op(c, "sha512", 64, fingera_sha2_512, ref::sha512); }
static St op_rmd(Call &c) { return hash_op(c, "ripemd160", 20, fingera_ripemd160, ref::rmd160); }
static St op_hash160(Call &c) { return hash_op(c, "hash160", 20, fingera_btc_hash160, ref::hash160); }
static St op_hash256(Call &c) { return hash_op(c, "hash256", 32, fingera_btc_hash256, ref::hash256); }
static St hmac_op(Call &c, const char *name, size_t dn, void (*f)(const void *, size_t, const void *, size_t, void *),
                  Bytes (*rf)(const Bytes &, const Bytes &), size_t block) {
  static const int around[] = {-1, 0, 1};
  size_t kn = c.r.below(3) == 0 ? block + around[c.r.below(3)] : c.r.below(3) == 0 ? c.r.below(300) : c.r.below(80);
  Bytes k = c.r.below(4) ? c.r.bytes(kn) : c.data((long)kn), m = c.data(c.size);
  if (W->hygiene) { k = c.r.bytes(std::max<size_t>(kn, 24)); kn = k.size(); }
  c.secret(k);
  const u8 *ki = c.in(k, "key"), *mi = c.in(m, "message");
  u8 *o = c.out(dn);
  CALL(f(ki, kn, mi, m.size(), o));
  expect(name, got(o, dn), rf(k, m));
  return DONE;
}
static St op_hmac256(Call &c) { return hmac_op(c, "hmac_sha256", 32, fingera_hmac_sha256, ref::hmac256, 64); }
static St op_hmac512(Call &c) { return hmac_op(c, "hmac_sha512", 64, fingera_hmac_sha512, ref::hmac512, 128); }
static St op_d64(Call &c) {
  size_t n = (size_t)c.size / 64 % 9;
  if (c.r.below(8) == 0) n = 1 + c.r.below(c.r.below(20) ? 40 : 600);
  Bytes m = c.data((long)n * 64);
  const u8 *i = c.in(m);
  u8 *o = c.out(n * 32);
  CALL(fingera_btc_hash256_d64(o, i, n));
  Bytes w;
  for (size_t k = 0; k < n; k++) w += ref::hash256(m.substr(k * 64, 64));
  expect("hash256_d64", got(o, n * 32), w);
  return DONE;
}
static St op_bip32hash(Call &c) {
  Bytes cc = c.data(32), d = W->hygiene ? c.r.bytes(32) : c.data(32);
  u32 child = c.child();
  u8 hdr = (u8)c.r.below(4);
  c.secret(d);
  const u8 *ci = c.in(cc, "chain code"), *di = c.in(d, "data");
  u8 *o = c.out(64);
  CALL(fingera_btc_bip32_hash(ci, child, hdr, di, o));
  expect("bip32_hash", got(o, 64), ref::bip32hash(cc, child, hdr, d));
  return DONE;
}

// ------------------------------------------------------------------- codecs
static St op_hex(Call &c) {
  Bytes m = c.data(c.size);
  int up = c.r.below(2) ? (int)c.r.range(1, 5) : 0;
  const u8 *i = c.in(m);
  size_t n = fingera_to_hex_length(m.size());
  u8 *o = c.out(n);
  CALL(fingera_to_hex(i, m.size(), (char *)o, up));
  Bytes t = got(o, n);
  expect("to_hex", t, ref::hex(m, up));
  if (c.r.below(2)) for (auto &ch : t) if (c.r.below(2)) ch = (char)tolower(ch);
  size_t dn = fingera_from_hex_length(t.size()), rn;
  const u8 *ti = c.in(t, "text");
  u8 *d = c.out(dn);
  CALL(rn = fingera_from_hex((const char *)ti, t.size(), d));
  expect_n("from_hex length", rn, m.size());
  expect("from_hex", got(d, rn), m);
  return DONE;
}
static St b64_op(Call &c, bool url) {
  Bytes m = c.data(c.size);
  const u8 *i = c.in(m);
  Bytes want = ref::b64enc(m, url);
  size_t n = url ? fingera_to_base64_urlsafe_length(m.size()) : fingera_to_base64_length(m.size());
  expect_n("to_base64 length", n, want.size());
  u8 *o = c.out(n);
  CALL(url ? fingera_to_base64_urlsafe(i, m.size(), (char *)o) : fingera_to_base64(i, m.size(), (char *)o));
  Bytes t = got(o, n);
  expect("to_base64", t, want);
  const u8 *ti = c.in(t, "text");
  size_t dn = url ? fingera_from_base64_urlsafe_length(n) : fingera_from_base64_length((const char *)ti, n), rn;
  expect_n("from_base64 advertised length", dn, m.size());
  u8 *d = c.out(dn);
  CALL(rn = url ? fingera_from_base64_urlsafe((const char *)ti, n, d) : fingera_from_base64((const char *)ti, n, d));
  expect_n("from_base64 length", rn, m.size());
  expect("from_base64", got(d, rn), m);
  return DONE;
}
static St op_b64(Call &c) { return b64_op(c, false); }
static St op_b64u(Call &c) { return b64_op(c, true); }
static St op_b32(Call &c) {
  Bytes m = c.data(c.size), want = ref::b32enc(m);
  const u8 *i = c.in(m);
  size_t n = fingera_to_base32_length(m.size());
  expect_n("to_base32 length", n, want.size());
  u8 *o = c.out(n);
  CALL(fingera_to_base32(i, m.size(), (char *)o));
  Bytes t = got(o, n);
  expect("to_base32", t, want);
  if (c.r.below(2)) for (auto &ch : t) if (c.r.below(2)) ch = (char)toupper(ch);
  if (c.r.below(3) == 0) while (!t.empty() && t.back() == '=') t.pop_back();
  const u8 *ti = c.in(t, "text");
  size_t dn = fingera_from_base32_length((const char *)ti, t.size()), rn;
  expect_n("from_base32 advertised length", dn, m.size());
  u8 *d = c.out(dn);
  CALL(rn = fingera_from_base32((const char *)ti, t.size(), d));
  expect_n("from_base32 length", rn, m.size());
  expect("from_base32", got(d, rn), m);
  return DONE;
}
static St op_b32raw(Call &c) {
  Bytes m = c.data(c.size), want = ref::b32raw(m);
  const u8 *i = c.in(m);
  u8 *o = c.out(want.size());
  size_t n;
  CALL(n = fingera_to_base32_raw(i, m.size(), o));
  expect_n("to_base32_raw length", n, want.size());
  Bytes t = got(o, n);
  expect("to_base32_raw", t, want);
  const u8 *ti = c.in(t, "symbols");
  size_t dn = fingera_from_base32_raw_length(n), rn;
  expect_n("from_base32_raw advertised length", dn, m.size());
  u8 *d = c.out(dn);
  CALL(rn = fingera_from_base32_raw(ti, n, d));
  expect_n("from_base32_raw length", rn, m.size());
  expect("from_base32_raw", got(d, rn), m);
  return DONE;
}
static St op_b58(Call &c) {
  Bytes m = W->hygiene ? c.r.bytes(32 + c.size) : c.data(c.size), want = ref::b58enc(m);
  const u8 *i = c.in(m);
  if (W->hygiene) { c.secret(m); c.secret(want); }
  u8 *o = c.out(fingera_to_base58_length(m.size()));
  size_t n, rn;
  CALL(n = fingera_to_base58(i, m.size(), (char *)o));
  if (n == 0 && !m.empty()) return FAILED;
  expect("to_base58", got(o, n), want);
  Bytes t = want;
  if (c.r.below(4) == 0) {  // white space around the text means nothing
    static const char ws[] = " \t\n\v\f\r";
    for (size_t k = c.r.below(4); k > 0; k--) t = ws[c.r.below(6)] + t;
    for (size_t k = c.r.below(4); k > 0; k--) t += ws[c.r.below(6)];
  }
  const u8 *ti = c.in(t, "text");
  u8 *d = c.out(fingera_from_base58_length(t.size()));
  CALL(rn = fingera_from_base58((const char *)ti, t.size(), d));
  if (rn == 0 && !m.empty()) return FAILED;
  expect("from_base58", got(d, rn), m);
  return DONE;
}
static u64 pick_u64(Rng &r) {
  switch (r.below(6)) {
    case 0: return r.below(300);
    case 1: return ~0ull - r.below(300);
    case 2: { u64 v = 1ull << r.below(64); return v + r.below(5) - 2; }
    case 3: {  // around the bijective boundaries 128, 128+16384, ...
      u64 b = 0;
      int k = (int)r.range(1, 9);
      for (int i = 0; i < k; i++) b = (b + 1) << 7;
      return b + r.below(5) - 2;
    }
    default: return r.next() >> r.below(64);
  }
}
static St op_varint(Call &c) {
  u64 v = pick_u64(c.r), d = c.r.next();
  Bytes want = ref::varint(v);
  u8 *o = c.out(want.size());
  size_t n, rn;
  CALL(n = fingera_encode_varint(v, o));
  expect("encode_varint", got(o, std::min(n, want.size())), want);
  expect_n("encode_varint length", n, want.size());
  Bytes t = want + c.r.bytes(c.r.below(2) ? c.r.below(12) : 0);
  const u8 *ti = c.in(t, "bytes");
  CALL(rn = fingera_decode_varint(ti, t.size(), &d));
  expect_n("decode_varint length", rn, want.size());
  expect_n("decode_varint", d, v);
  return DONE;
}
static St op_zigzag(Call &c) {
  u64 q = pick_u64(c.r);
  int64_t v = (int64_t)q, d = 7;
  if (c.r.below(4) == 0) v = -v;
  if (c.r.below(20) == 0) v = INT64_MIN + (int64_t)c.r.below(3);
  Bytes want = ref::zigzag(v);
  u8 *o = c.out(10);
  size_t n, rn;
  CALL(n = fingera_encode_zigzag(v, o));
  expect("encode_zigzag", got(o, std::min<size_t>(n, 10)), want);
  Bytes t = want + c.r.bytes(c.r.below(2) ? c.r.below(12) : 0);
  const u8 *ti = c.in(t, "bytes");
  CALL(rn = fingera_decode_zigzag(ti, t.size(), &d));
  expect_n("decode_zigzag length", rn, want.size());
  expect_n("decode_zigzag", (u64)d, (u64)v);
  return DONE;
}

// fixed-width numbers of either byte order, at any address
static St op_endian(Call &c) {
  static const struct { char kind; int bytes; bool big; } D[] = {
      {'r', 4, 0}, {'r', 8, 0}, {'r', 4, 1}, {'r', 8, 1}, {'o', 4, 0}, {'o', 8, 0}, {'o', 4, 1}, {'o', 8, 1}, {'w', 4, 0}, {'w', 4, 1}, {'w', 2, 1},
      {'w', 2, 0}, {'w', 4, 1}, {'w', 4, 0}, {'w', 8, 1}, {'w', 8, 0}, {'r', 2, 1}, {'r', 2, 0}, {'r', 4, 1}, {'r', 4, 0}, {'r', 8, 1}, {'r', 8, 0}};
  int w = (int)c.r.below(22);
  auto &d = D[w];
  u64 v = pick_u64(c.r), have = 0;
  if (c.r.below(3) == 0) v = 0xffull << c.r.below(8) * 8 & c.r.next();
  if (c.r.below(8) == 0) v = ~v;
  if (d.bytes < 8) v &= (1ull << d.bytes * 8) - 1;
  Bytes b(d.bytes, 0);
  for (int i = 0; i < d.bytes; i++) b[d.big ? d.bytes - 1 - i : i] = (char)(v >> 8 * i);
  if (d.kind == 'w') {
    u8 *o = c.out(d.bytes);
    CALL(sim_inl_endian(w, o, 0, v));
    expect(fmt("byte order: write %d", w).c_str(), got(o, d.bytes), b);
  } else {
    size_t off = d.kind == 'o' ? c.r.below(20) : 0;
    Bytes t = c.r.bytes(off) + b;
    const u8 *p = c.in(t, "bytes");
    CALL(have = sim_inl_endian(w, (void *)p, off, 0));
    expect_n(fmt("byte order: read %d", w).c_str(), have, v);
  }
  return DONE;
}

// ------------------------------------------------------------------ networks
Network std_net(int i) {
  if (i == 0) return {ref::mainnet(), &g_mainnet_chain_parameters};
  if (i == 1) return {ref::testnet(), &g_testnet_chain_parameters};
  return {ref::regnet(), &g_regnet_chain_parameters};
}
static const char *own(const Bytes &b) {
  u8 *p = keep(b.size());
  memcpy(p, b.data(), b.size());
  return (const char *)p;
}
Network custom_net(Rng &r, bool any_hrp) {
  auto pre = [&](size_t max) { return r.bytes(1 + (r.below(2) ? 0 : r.below(max))); };
  Network w;
  ref::Net &n = w.n;
  for (;;) {
    n.pk = pre(8);
    n.sc = pre(8);
    size_t k = std::min(n.pk.size(), n.sc.size());
    if (n.pk.substr(0, k) != n.sc.substr(0, k)) break;
  }
  n.wif = pre(8);
  for (;;) {
    n.xpub = pre(8);
    n.xprv = pre(8);
    if (n.xpub != n.xprv) break;
  }
  size_t hn = 1 + (r.below(2) ? r.below(4) : r.below(16));
  if (any_hrp && r.below(4) == 0) hn = 1 + r.below(83);  // with 18, every witness address fits 90 characters
  else if (r.below(8) == 0) hn = 17 + r.below(2);
  n.hrp = "";
  for (size_t i = 0; i < hn; i++) {
    char ch = (char)r.range(33, 126);
    if (ch >= 'A' && ch <= 'Z') ch += 32;
    n.hrp += ch;
  }
  chain_parameters *p = (chain_parameters *)keep(sizeof *p);
  p->prefix_pubkey_address = own(n.pk);
  p->prefix_pubkey_address_size = (unsigned)n.pk.size();
  p->prefix_script_address = own(n.sc);
  p->prefix_script_address_size = (unsigned)n.sc.size();
  p->prefix_secret_key = own(n.wif);
  p->prefix_secret_key_size = (unsigned)n.wif.size();
  p->prefix_ext_public_key = own(n.xpub);
  p->prefix_ext_public_key_size = (unsigned)n.xpub.size();
  p->prefix_ext_secret_key = own(n.xprv);
  p->prefix_ext_secret_key_size = (unsigned)n.xprv.size();
  p->bech32_hrp = own(n.hrp);
  p->bech32_hrp_size = (unsigned)n.hrp.size();
  w.cp = p;
  return w;
}
static Network net(Call &c) { return c.r.below(3) ? std_net((int)c.r.below(3)) : custom_net(c.r, true); }
#define CP(w) ((const chain_parameters *)(w).cp)

// ------------------------------------------------------------ address texts
static St op_b58check(Call &c) {
  Bytes m = W->hygiene ? c.r.bytes(24 + c.size) : c.data(c.size), pre = c.r.bytes(c.r.below(9));
  if (W->hygiene) c.secret(m);
  const u8 *i = c.in(m), *p = c.in(pre, "prefix");
  Bytes want = ref::b58check(pre + m);
  size_t n, rn;
  u8 *o = c.out(fingera_to_base58_check_length(m.size(), pre.size()));
  CALL(n = fingera_to_base58_check(i, m.size(), p, pre.size(), (char *)o));
  if (!n) return FAILED;
  expect("to_base58_check", got(o, n), want);
  const u8 *ti = c.in(want, "text");
  u8 *d = c.out(fingera_from_base58_check_length(want.size()));
  CALL(rn = fingera_from_base58_check((const char *)ti, want.size(), d));
  if (!rn && !(pre + m).empty()) return FAILED;
  expect("from_base58_check", got(d, rn), pre + m);
  return DONE;
}
static St op_bech32(Call &c) {
  Rng &r = c.r;
  Bytes hrp, sym;
  size_t hn = 1 + (r.below(2) ? r.below(4) : r.below(82));
  for (size_t i = 0; i < hn; i++) {
    char ch = (char)r.range(33, 126);
    if (ch >= 'A' && ch <= 'Z') ch += 32;
    hrp += ch;
  }
  size_t room = 90 - 7 - hn, sn = r.below(3) ? r.below(room + 1) : room;
  sym = r.bytes(sn);
  for (auto &ch : sym) ch &= 31;
  const u8 *hi = c.in(hrp, "hrp"), *si = c.in(sym, "symbols");
  size_t n = fingera_bech32_encode_length(hn, sn);
  Bytes want = ref::bech32enc(hrp, sym);
  expect_n("bech32_encode length", n, want.size());
  u8 *o = c.out(n);
  CALL(fingera_bech32_encode((const char *)hi, hn, si, sn, (char *)o));
  expect("bech32_encode", got(o, n), want);
  Bytes t = want;
  if (r.below(3) == 0) for (auto &ch : t) ch = (char)toupper(ch);
  const u8 *ti = c.in(t, "text");
  u8 *ho = c.out(hn, "hrp"), *so = c.out(sn, "symbols");
  size_t hs = hn;
  int k;
  if (t.size() <= 7) return DONE;
  CALL(k = fingera_bech32_decode((const char *)ti, t.size(), (char *)ho, &hs, so));
  if (n <= 7) return DONE;
  expect_n("bech32_decode result", (u64)(int64_t)k, sn);
  expect("bech32_decode hrp", got(ho, std::min(hs, hn)), hrp);
  expect("bech32_decode symbols", got(so, sn), sym);
  return DONE;
}
static St addr_roundtrip(Call &c, ref::Kind kind, const Bytes &pay, const Network &w) {
  Bytes want = ref::addr(kind, pay, w.n);
  const u8 *i = c.in(pay, "payload");
  bool too_long = kind >= ref::WKEY && want.size() > 90;  // BIP173 ends at 90 characters
  size_t cap = kind == ref::PK ? fingera_to_base58_check_length(pay.size(), w.n.pk.size())
               : kind == ref::SCRIPT ? fingera_to_base58_check_length(pay.size(), w.n.sc.size()) : want.size();
  // a too small output is refused
  if (c.r.below(8) == 0) {
    size_t small = c.r.below(std::min(cap, want.size()));
    u8 *o = c.out(small);
    size_t n = 1;
    switch (kind) {
      case ref::PK: CALL(n = fingera_to_address_pubkey(i, pay.size(), (char *)o, small, CP(w))); break;
      case ref::SCRIPT: CALL(n = fingera_to_address_script(i, pay.size(), (char *)o, small, CP(w))); break;
      case ref::WKEY: CALL(n = fingera_to_address_witnessv0_keyhash(i, pay.size(), (char *)o, small, CP(w))); break;
      case ref::WSCRIPT: CALL(n = fingera_to_address_witnessv0_scripthash(i, pay.size(), (char *)o, small, CP(w))); break;
      default: CALL(n = fingera_to_address_witness_unknown(i, pay.size(), (char *)o, small, CP(w)));
    }
    expect_n("address into a too small buffer", n, 0);
  }
  u8 *o = c.out(cap);
  size_t n = 0;
  switch (kind) {
    case ref::PK: CALL(n = fingera_to_address_pubkey(i, pay.size(), (char *)o, cap, CP(w))); break;
    case ref::SCRIPT: CALL(n = fingera_to_address_script(i, pay.size(), (char *)o, cap, CP(w))); break;
    case ref::WKEY: CALL(n = fingera_to_address_witnessv0_keyhash(i, pay.size(), (char *)o, cap, CP(w))); break;
    case ref::WSCRIPT: CALL(n = fingera_to_address_witnessv0_scripthash(i, pay.size(), (char *)o, cap, CP(w))); break;
    default: CALL(n = fingera_to_address_witness_unknown(i, pay.size(), (char *)o, cap, CP(w)));
  }
  if (too_long) { expect_n("address of more than 90 characters", n, 0); return DONE; }
  if (!n) return FAILED;
  expect("address encoding", got(o, n), want);
  Bytes t = want;
  if (kind >= ref::WKEY && c.r.below(3) == 0) for (auto &ch : t) ch = (char)toupper(ch);
  const u8 *ti = c.in(t, "text");
  size_t on = fingera_from_base58_check_length(t.size());
  if (c.r.below(4) == 0) on += c.r.below(100);
  size_t os = on;
  u8 *d = c.out(on);
  fingera_btc_address k;
  CALL(k = fingera_btc_address_decode((const char *)ti, t.size(), d, &os, CP(w)));
  if (k == BTC_BAD_ADDRESS) return FAILED;
  expect_n("address kind", k, kind);
  expect("address payload", got(d, std::min(os, on)), pay);
  return DONE;
}
static St op_addr(Call &c) {
  Network w = net(c);
  ref::Kind k = (ref::Kind)c.r.range(ref::PK, ref::WUNK);
  Bytes p;
  if (k <= ref::SCRIPT) p = c.data(c.r.below(4) ? 20 : c.r.below(5) ? (long)c.r.below(41) : (long)(c.size % 200));
  else if (k == ref::WKEY) p = c.data(20);
  else if (k == ref::WSCRIPT) p = c.data(32);
  else p = Bytes(1, (char)c.r.range(1, 16)) + c.data((long)c.r.range(2, 40));
  return addr_roundtrip(c, k, p, w);
}
static St op_addr_refuse(Call &c) {  // witness encoder refuses what BIP173 forbids
  Network w = net(c);
  Bytes p;
  switch (c.r.below(3)) {
    case 0: p = Bytes(1, (char)(c.r.below(2) ? 0 : c.r.range(17, 255))) + c.data((long)c.r.range(2, 40)); break;
    case 1: p = Bytes(1, (char)c.r.range(1, 16)) + c.data((long)c.r.below(2)); break;
    default: p = Bytes(1, (char)c.r.range(1, 16)) + c.data((long)c.r.range(41, 60));
  }
  const u8 *i = c.in(p, "payload");
  u8 *o = c.out(200);
  size_t n;
  CALL(n = fingera_to_address_witness_unknown(i, p.size(), (char *)o, 200, CP(w)));
  expect_n("witness program outside of the standard", n, 0);
  return DONE;
}
static Bytes digits58(const Bytes &t) {
  static const Bytes A = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
  Bytes d;
  for (char ch : t) d.push_back((char)A.find(ch));
  return d;
}
static St op_wif(Call &c) {
  Network w = net(c);
  Bytes k = W->hygiene ? c.r.bytes(32) : c.key();
  bool comp = c.r.below(2);
  int flag = comp ? (int)c.r.range(1, 3) : 0;
  Bytes want = ref::wif(k, comp, w.n);
  c.secret(k); c.secret(want); c.secret(digits58(want));
  const u8 *i = c.in(k, "key");
  u8 *o = c.out(fingera_key_string_max_length());
  size_t n;
  CALL(n = fingera_btc_key_to_string(i, (char *)o, flag, CP(w)));
  if (!n) return FAILED;
  expect("key_to_string", got(o, n), want);
  const u8 *ti = c.in(want, "text");
  u8 *d = c.out(32);
  int ic = 77, ok;
  CALL(ok = fingera_btc_key_from_string((const char *)ti, want.size(), d, &ic, CP(w)));
  if (!ok) return FAILED;
  expect("key_from_string", got(d, 32), k);
  expect_n("key_from_string compression flag", ic != 0, comp);
  return DONE;
}
static ref::XKey rand_xkey(Call &c, bool priv) {
  ref::XKey x;
  x.depth = (u8)(c.r.below(3) ? c.r.below(6) : c.r.below(256));
  x.fp = (u32)c.r.next();
  x.child = c.child();
  x.cc = c.b32();
  x.key = W->hygiene ? c.r.bytes(32) : c.key();
  if (!ref::key_valid(x.key)) x.key = c.key();
  if (!priv) x.key = ref::pub_ser(ref::pub64(x.key), true);
  return x;
}
template <class T> static void fill_ext(T *k, const ref::XKey &x) {
  k->ext.depth = x.depth;
  k->ext.fingerprint = x.fp;
  k->ext.child = x.child;
  memcpy(k->ext.chain_code, x.cc.data(), 32);
}
template <class T> static ref::XKey read_ext(const T *k) {
  ref::XKey x;
  x.depth = k->ext.depth;
  x.fp = k->ext.fingerprint;
  x.child = k->ext.child;
  x.cc = got(k->ext.chain_code, 32);
  return x;
}
static Bytes prvstruct(const ref::XKey &x) {
  fingera_ex_key k;
  memset(&k, 0x5e, sizeof k);
  fill_ext(&k, x);
  memcpy(k.key, x.key.data(), 32);
  return got(&k, sizeof k);
}
static Bytes pubstruct(const ref::XKey &x) {
  fingera_ex_pubkey k;
  memset(&k, 0x5e, sizeof k);
  fill_ext(&k, x);
  memcpy(k.c_pubkey, x.key.data(), 33);
  return got(&k, sizeof k);
}
static ref::XKey rdprv(const void *p) {
  fingera_ex_key k;
  memcpy(&k, p, sizeof k);
  ref::XKey x = read_ext(&k);
  x.key = got(k.key, 32);
  return x;
}
static ref::XKey rdpub(const void *p) {
  fingera_ex_pubkey k;
  memcpy(&k, p, sizeof k);
  ref::XKey x = read_ext(&k);
  x.key = got(k.c_pubkey, 33);
  return x;
}
static void expect_x(const char *what, const ref::XKey &a, const ref::XKey &b) { expect(what, ref::xser(a), ref::xser(b)); }
// structs need their natural alignment
static u8 *in_struct(Call &c, const Bytes &b) {
  Block k{place(c.it.lane, b.size()), b.size(), 0, b.size(), b, true, "structure"};
  memcpy(k.mem, b.data(), b.size());
  c.blocks.push_back(k);
  return k.mem;
}
static u8 *out_struct(Call &c, size_t n) {
  Block k{place(c.it.lane, n), n, 0, n, stale(n), false, "structure"};
  memcpy(k.mem, k.orig.data(), n);
  c.blocks.push_back(k);
  return k.mem;
}
static St op_xprv(Call &c) {
  Network w = net(c);
  ref::XKey x = rand_xkey(c, true);
  Bytes want = ref::xstr(x, w.n.xprv);
  c.secret(x.key); c.secret(want); c.secret(digits58(want));
  u8 *k = in_struct(c, prvstruct(x));
  u8 *o = c.out(fingera_exkey_string_max_length());
  size_t n;
  CALL(n = fingera_exkey_to_string((fingera_ex_key *)k, (char *)o, CP(w)));
  if (!n) return FAILED;
  expect("exkey_to_string", got(o, n), want);
  const u8 *ti = c.in(want, "text");
  u8 *d = out_struct(c, sizeof(fingera_ex_key));
  int ok;
  CALL(ok = fingera_exkey_from_string((const char *)ti, want.size(), (fingera_ex_key *)d, CP(w)));
  if (!ok) return FAILED;
  expect_x("exkey_from_string", rdprv(d), x);
  return DONE;
}
static St op_xpub(Call &c) {
  Network w = net(c);
  ref::XKey x = rand_xkey(c, false);
  Bytes want = ref::xstr(x, w.n.xpub);
  u8 *k = in_struct(c, pubstruct(x));
  u8 *o = c.out(fingera_exkey_string_max_length());
  size_t n;
  CALL(n = fingera_expubkey_to_string((fingera_ex_pubkey *)k, (char *)o, CP(w)));
  if (!n) return FAILED;
  expect("expubkey_to_string", got(o, n), want);
  const u8 *ti = c.in(want, "text");
  u8 *d = out_struct(c, sizeof(fingera_ex_pubkey));
  int ok;
  CALL(ok = fingera_expubkey_from_string((const char *)ti, want.size(), (fingera_ex_pubkey *)d, CP(w)));
  if (!ok) return FAILED;
  expect_x("expubkey_from_string", rdpub(d), x);
  return DONE;
}

// ---------------------------------------------------------------------- keys
static St op_getpub(Call &c) {
  Bytes k = c.key();
  c.secret(k);
  const u8 *i = c.in(k, "key");
  u8 *p = c.out(64), *s;
  CALL(fingera_btc_key_get_pub(i, p));
  Bytes p64 = got(p, 64);
  bool comp = c.r.below(2);
  Bytes want = ref::pub_ser(ref::pub64(k), comp);
  const u8 *pi = c.in(p64, "public key");
  s = c.out(want.size());
  int ok;
  CALL(ok = fingera_btc_pubkey_encode(pi, s, want.size()));
  if (!ok) fail("wrong-result", "pubkey_encode refuses a valid key");
  expect("public key", got(s, want.size()), want);
  const u8 *ei = c.in(want, "encoded key");
  u8 *q = c.out(64);
  CALL(ok = fingera_btc_pubkey_decode(ei, want.size(), q));
  if (!ok) fail("wrong-result", "pubkey_decode refuses a valid key");
  expect("decoded public key", got(q, 64), ref::pub64(k));
  return DONE;
}
static St op_keyid(Call &c) {
  Bytes k = c.key(), p64 = ref::pub64(k);
  c.secret(k);
  int comp = c.r.below(2) ? (int)c.r.range(1, 3) : 0;
  Bytes want = ref::hash160(ref::pub_ser(p64, comp));
  const u8 *i = c.in(k, "key"), *pi = c.in(p64, "public key"), *p33 = c.in(ref::pub_ser(p64, true), "encoded key");
  u8 *o = c.out(20), *o2 = c.out(20);
  u32 f1, f2;
  CALL(fingera_btc_key_keyid(i, comp, o));
  expect("key_keyid", got(o, 20), want);
  CALL(fingera_btc_pubkey_keyid(pi, comp, o2));
  expect("pubkey_keyid", got(o2, 20), want);
  CALL(f1 = fingera_btc_key_fingerprint(i, comp));
  expect_n("key_fingerprint", f1, ref::fingerprint(ref::pub_ser(p64, comp)));
  CALL(f2 = fingera_btc_pubkey_fingerprint(p33));
  expect_n("pubkey_fingerprint", f2, ref::fingerprint(ref::pub_ser(p64, true)));
  return DONE;
}
static St op_keyder(Call &c) {
  Bytes k = c.key();
  c.secret(k);
  bool comp = c.r.below(2);
  Bytes want = ref::key_der(k, comp);
  const u8 *i = c.in(k, "key");
  u8 *o = c.out(want.size());
  int ok;
  CALL(ok = fingera_btc_key_encode(i, o, want.size()));
  if (!ok) fail("wrong-result", "key_encode refuses a valid key");
  expect("key_encode", got(o, want.size()), want);
  const u8 *ei = c.in(want, "DER key");
  u8 *d = c.out(32);
  CALL(ok = fingera_btc_key_decode(ei, want.size(), d));
  if (!ok) fail("wrong-result", "key_decode refuses its own encoding");
  expect("key_decode", got(d, 32), k);
  return DONE;
}
static St op_sign(Call &c) {
  Bytes k = c.key(), h = c.data(32), want = ref::sign(k, h);
  c.secret(k);
  const u8 *i = c.in(k, "key"), *hi = c.in(h, "hash");
  u8 *s = c.out(64);
  CALL(fingera_btc_key_sign(i, hi, s));
  expect("signature", ref::sig_compact(got(s, 64)), ref::sig_compact(want));
  const u8 *si = c.in(got(s, 64), "signature");
  u8 *e = c.out(BTC_SIGNATURE_SIZE);
  size_t n;
  CALL(n = fingera_btc_signature_encode(si, e));
  Bytes der = ref::sig_der(want);
  expect("signature_encode", got(e, std::min<size_t>(n, BTC_SIGNATURE_SIZE)), der);
  if (der.size() > 71) fail("wrong-result", "signature longer than 71 bytes");
  const u8 *ei = c.in(der, "DER signature");
  u8 *d = c.out(64);
  int ok;
  CALL(ok = fingera_btc_signature_decode(ei, der.size(), d));
  if (!ok) fail("wrong-result", "signature_decode refuses a valid signature");
  expect("signature_decode", ref::sig_compact(got(d, 64)), ref::sig_compact(want));
  return DONE;
}
// s -> n - s
static Bytes negate_s(const Bytes &compact) {
  Bytes n;
  ref::unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", n);
  Bytes r = compact;
  int borrow = 0;
  for (int i = 31; i >= 0; i--) {
    int v = (int)(u8)n[i] - (int)(u8)compact[32 + i] - borrow;
    borrow = v < 0;
    r[32 + i] = (char)(v & 255);
  }
  return r;
}
static St op_verify(Call &c) {
  Bytes k = c.key(), h = c.data(32), p = ref::pub64(k), s = ref::sign(k, h);
  switch (c.r.below(6)) {
    case 0: h[c.r.below(32)] ^= (char)(1 << c.r.below(8)); break;
    case 1: p = ref::pub64(c.key()); break;
    case 2: { Bytes q = ref::sig_compact(s); q[c.r.below(64)] ^= (char)(1 << c.r.below(8)); s = ref::sig_from_compact(q); break; }
    case 3: s = ref::sig_from_compact(negate_s(ref::sig_compact(s))); break;  // high S is normalised
    default: break;
  }
  const u8 *pi = c.in(p, "public key"), *hi = c.in(h, "hash"), *si = c.in(s, "signature");
  int ok;
  CALL(ok = fingera_btc_key_verify(pi, hi, si));
  expect_n("verify", ok != 0, ref::verify(p, h, s));
  return DONE;
}
static St op_derive(Call &c) {
  Bytes k = c.key(), cc = c.b32();
  u32 child = c.child();
  ref::XKey x, y, z;
  x.key = k;
  x.cc = cc;
  bool okp = ref::ckd_priv(x, child, 0, y);
  c.secret(k);
  if (okp) c.secret(y.key);
  const u8 *i = c.in(k, "key"), *ci = c.in(cc, "chain code");
  u8 *o = c.out(32), *oc = c.out(32);
  int ok;
  CALL(ok = fingera_btc_key_derive(i, ci, o, oc, child));
  expect_n("key_derive result", ok != 0, okp);
  if (ok) { expect("key_derive key", got(o, 32), y.key); expect("key_derive chain code", got(oc, 32), y.cc); }
  ref::XKey n = ref::neuter(x);
  bool okq = ref::ckd_pub(n, child, 0, z);
  const u8 *pi = c.in(n.key, "public key");
  u8 *q = c.out(33), *qc = c.out(32);
  CALL(ok = fingera_btc_pubkey_derive(pi, ci, q, qc, child));
  expect_n("pubkey_derive result", ok != 0, okq);
  if (ok) { expect("pubkey_derive key", got(q, 33), z.key); expect("pubkey_derive chain code", got(qc, 32), z.cc); }
  return DONE;
}
static St op_exinit(Call &c) {
  long n = c.r.below(3) ? (long)c.r.range(16, 64) : c.size % 300;
  Bytes seed = W->hygiene ? c.r.bytes(std::max<long>(n, 24)) : c.data(n);
  ref::XKey want = ref::master(seed);
  c.secret(seed); c.secret(want.key);
  const u8 *i = c.in(seed, "seed");
  u8 *k = out_struct(c, sizeof(fingera_ex_key));
  CALL(fingera_exkey_init((fingera_ex_key *)k, i, seed.size()));
  expect_x("exkey_init", rdprv(k), want);
  return DONE;
}
static St op_exderive(Call &c) {
  ref::XKey x = rand_xkey(c, true), y, z;
  u32 child = c.child(), fp = (u32)c.r.next();
  bool okp = ref::ckd_priv(x, child, fp, y);
  c.secret(x.key);
  if (okp) c.secret(y.key);
  u8 *k = in_struct(c, prvstruct(x)), *o = out_struct(c, sizeof(fingera_ex_key));
  bool inplace = c.r.below(5) == 0;
  if (inplace) { o = out_struct(c, sizeof(fingera_ex_key)); memcpy(o, k, sizeof(fingera_ex_key)); k = o; }
  int ok;
  CALL(ok = fingera_exkey_derive((fingera_ex_key *)k, (fingera_ex_key *)o, child, fp));
  expect_n("exkey_derive result", ok != 0, okp);
  if (ok) expect_x("exkey_derive", rdprv(o), y);
  ref::XKey n = ref::neuter(x);
  bool okq = ref::ckd_pub(n, child, fp, z);
  u8 *kp = in_struct(c, prvstruct(x)), *op = out_struct(c, sizeof(fingera_ex_pubkey));
  CALL(fingera_exkey_get_pub((fingera_ex_key *)kp, (fingera_ex_pubkey *)op));
  expect_x("exkey_get_pub", rdpub(op), n);
  u8 *q = in_struct(c, pubstruct(n)), *oq = out_struct(c, sizeof(fingera_ex_pubkey));
  CALL(ok = fingera_expubkey_derive((fingera_ex_pubkey *)q, (fingera_ex_pubkey *)oq, child, fp));
  expect_n("expubkey_derive result", ok != 0, okq);
  if (ok) expect_x("expubkey_derive", rdpub(oq), z);
  return DONE;
}
static St op_ser74(Call &c) {
  bool priv = c.r.below(2);
  ref::XKey x = rand_xkey(c, priv);
  if (priv) c.secret(x.key);
  Bytes want = ref::xser(x);
  u8 *k = in_struct(c, priv ? prvstruct(x) : pubstruct(x));
  u8 *o = c.out(74);
  if (priv) CALL(fingera_exkey_encode((fingera_ex_key *)k, o));
  else CALL(fingera_expubkey_encode((fingera_ex_pubkey *)k, o));
  expect("extended key bytes", got(o, 74), want);
  const u8 *wi = c.in(want, "bytes");
  u8 *d = out_struct(c, priv ? sizeof(fingera_ex_key) : sizeof(fingera_ex_pubkey));
  if (priv) CALL(fingera_exkey_decode(wi, (fingera_ex_key *)d));
  else CALL(fingera_expubkey_decode(wi, (fingera_ex_pubkey *)d));
  expect_x("extended key decoded", priv ? rdprv(d) : rdpub(d), x);
  return DONE;
}

// ---------------------------------------------------- hostile decoder inputs
// A text near the well-formed ones of an alphabet.
// A text whose checksum is right by another rule than its own: Bech32m and
// other constants; digests taken once, of less, from the other end.
Bytes strange_sum(Rng &r, const Bytes &t) {
  static const char C[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
  Bytes h, s;
  if (ref::bech32dec(t, h, s)) {
    static const u32 k[] = {0x2bc830a3, 0, 0x3fffffff, 2, 0x10ce0795, 0x6b7c0};
    u32 c = 1 ^ (r.below(8) ? k[r.below(6)] : 1u << r.below(30));
    Bytes x = ref::bech32enc(h, s);
    for (int i = 0; i < 6; i++) {
      char &ch = x[x.size() - 6 + i];
      ch = C[((u32)(strchr(C, ch) - C) ^ (c >> (5 * (5 - i)))) & 31];
    }
    return x;
  }
  if (!ref::b58dec(t, s) || s.size() < 5) return t;
  Bytes body = s.substr(0, s.size() - 4), sum = s.substr(s.size() - 4), d = ref::hash256(body);
  switch (r.below(9)) {
    case 0: sum = ref::sha256(body).substr(0, 4); break;
    case 1: sum = d.substr(28); break;
    case 2: sum = Bytes(d.rend() - 4, d.rend()); break;
    case 3: sum = ref::hash256(body.substr(1)).substr(0, 4); break;
    case 4: sum = Bytes(4, (char)(r.below(2) ? 0 : 0xff)); break;
    case 5: sum = ref::hash256(s).substr(0, 4); break;
    case 6: sum = ref::hash160(body).substr(0, 4); break;
    case 7: return ref::b58enc(sum + body);
    default: { size_t n = r.range(1, 3); sum = sum.substr(0, 4 - n) + Bytes(n, (char)(r.below(2) ? 0 : r.next())); }
  }
  return ref::b58enc(body + sum);
}
// A text as people and programs write it who take liberties: what a tolerant
// reader might take for the text it was made from.
Bytes strange_text(Rng &r, Bytes t) {
  if (t.empty()) return t;
  static const char *const like[] = {"1lI|!", "0oOQD", "b6", "8B", "5S", "2Z", "i1lj", "uv", "nm", "g9q"};
  size_t i = r.below(t.size());
  switch (r.below(10)) {
    case 0: case 1: {  // characters that look alike
      bool all = r.below(2);
      for (int tries = 0; tries < 8; tries++) {
        size_t at = r.below(3) ? r.below(t.size()) : 0;
        char from = t[at];
        const char *g = like[r.below(10)];
        for (auto l : like) if (strchr(l, from) && r.below(3)) g = l;
        if (!from || !strchr(g, from)) continue;
        char to = g[r.below(strlen(g))];
        if (to == from) continue;
        t[at] = to;
        if (all) for (auto &ch : t) if (ch == from) ch = to;
        return t;
      }
      [[fallthrough]];
    }
    case 2: case 3: t.insert(i, 1, (char)r.range(33, 126)); break;
    case 4: t.insert(i, 1 + r.below(3), (char)(r.below(2) ? r.next() : (u64)"IlO0-_.,:;~+/="[r.below(14)])); break;
    case 5: {  // groups of characters
      Bytes o;
      size_t n = r.range(3, 8);
      char sep = "- _.,:\n"[r.below(7)];
      for (size_t k = 0; k < t.size(); k++) { if (k && k % n == 0) o += sep; o += t[k]; }
      return o;
    }
    case 6: { static const char *const w[] = {"\xEF\xBB\xBF", "\xC2\xA0", "\xE2\x80\x8B", "\xC2\xAD", "%20", "\\n", "0x", "\x1b[0m"}; t.insert(r.below(3) ? (r.below(2) ? 0 : t.size()) : i, w[r.below(8)]); break; }
    case 7: { static const char q[] = "\"\"''<>()[]{}``"; size_t k = r.below(7) * 2; t = Bytes(1, q[k]) + t + q[k + 1]; break; }
    case 8: { static const char *const w[] = {"bitcoin:", "BITCOIN:", "://", ";", ".", ",", "?amount=1", "#", "=", "\r\n.", "-"}; size_t k = r.below(11); t = k < 3 ? w[k] + t : t + w[k]; break; }
    default: t.insert(i, 1, t[i]); break;
  }
  return t;
}
// bytes that other locales call blanks, letters or digits
static Bytes odd(Rng &r, const Bytes &special) {
  return W->plan->prop == "C25" && r.below(2) ? special + "\xA0\x85\xA0\xC9\xDD\xFD\xB2\x80" : special;
}
static Bytes mutate(Rng &r, Bytes t, const Bytes &alpha, const Bytes &special0) {
  Bytes special = odd(r, special0);
  size_t n = r.below(4);
  if ((alpha.size() == 58 || alpha.size() == 32) && r.below(12) == 0) return strange_sum(r, t);
  if (r.below(12) == 0) return strange_text(r, t);
  if (!t.empty() && r.below(5) == 0) { t[r.below(t.size())] = (char)r.next(); return t; }
  for (size_t k = 0; k < n && !t.empty(); k++) {
    size_t i = r.below(3) ? r.below(t.size()) : r.below(2) ? t.size() - 1 - r.below(std::min<size_t>(t.size(), 9)) : r.below(std::min<size_t>(t.size(), 9));
    switch (r.below(7)) {
      case 0: t[i] = (char)r.next(); break;
      case 1: t[i] = special.empty() ? (char)r.next() : special[r.below(special.size())]; break;
      case 2: if (!alpha.empty()) t[i] = alpha[r.below(alpha.size())]; break;
      case 3: t.erase(i, 1 + r.below(3)); break;
      case 4: t.insert(i, 1, alpha.empty() ? (char)r.next() : alpha[r.below(alpha.size())]); break;
      case 5: t.resize(i); break;
      case 6: t += special.empty() ? Bytes(1, (char)r.next()) : Bytes(1 + r.below(3), special[r.below(special.size())]); break;
    }
  }
  return t;
}
static Bytes soup(Rng &r, size_t n, const Bytes &alpha, const Bytes &special0) {
  Bytes special = odd(r, special0);
  Bytes t;
  int mode = (int)r.below(4);
  for (size_t i = 0; i < n; i++)
    t += mode == 0 ? (char)r.next() : mode == 1 || alpha.empty() || (mode == 3 && !special.empty() && r.below(8) == 0)
             ? (special.empty() ? (char)r.next() : special[r.below(special.size())]) : alpha[r.below(alpha.size())];
  return t;
}
static St op_dec_hex(Call &c) {
  static const Bytes A = "0123456789abcdefABCDEF", X = Bytes("gG/:@`\0 xX\xff", 11);
  Bytes t = c.r.below(4) ? mutate(c.r, ref::hex(c.data(c.size / 2), c.r.below(2)), A, X) : soup(c.r, c.size, A, X);
  size_t adv = fingera_from_hex_length(t.size()), n;
  const u8 *i = c.in(t, "text");
  u8 *o = c.out(adv);
  CALL(n = fingera_from_hex((const char *)i, t.size(), o));
  if (n > adv) fail("wrong-result", "from_hex returns more than the advertised length");
  ref::Partial p = ref::hexdec(t);
  p.bad_used = false;  // the advertised length counts an odd last digit
  expect_partial("from_hex", got(o, n), p, t.size() / 2);
  return DONE;
}
static St dec_b64(Call &c, bool url) {
  Bytes A = url ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_" : "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  Bytes X = url ? Bytes("+/=\0. \xff", 7) : Bytes("-_=\0. \xff=", 8);
  Bytes t = c.r.below(4) ? mutate(c.r, ref::b64enc(c.data(c.size * 3 / 4), url), A, X) : soup(c.r, c.size, A, X);
  const u8 *i = c.in(t, "text");
  size_t adv, n;
  adv = url ? fingera_from_base64_urlsafe_length(t.size()) : fingera_from_base64_length((const char *)i, t.size());
  expect_n("from_base64 advertised length", adv, ref::b64declen(t, url));
  u8 *o = c.out(adv);
  CALL(n = url ? fingera_from_base64_urlsafe((const char *)i, t.size(), o) : fingera_from_base64((const char *)i, t.size(), o));
  if (n > adv) fail("wrong-result", "from_base64 returns more than the advertised length");
  expect_partial("from_base64", got(o, n), ref::b64dec(t, url), adv);
  return DONE;
}
static St op_dec_b64(Call &c) { return dec_b64(c, false); }
static St op_dec_b64u(Call &c) { return dec_b64(c, true); }
static St op_dec_b32(Call &c) {
  static const Bytes A = "abcdefghijklmnopqrstuvwxyz234567", X = Bytes("018=9A\0 \xff", 9);
  Bytes t = c.r.below(4) ? mutate(c.r, ref::b32enc(c.data(c.size * 5 / 8)), A, X) : soup(c.r, c.size, A, X);
  const u8 *i = c.in(t, "text");
  size_t adv, n;
  CALL(adv = fingera_from_base32_length((const char *)i, t.size()));
  expect_n("from_base32 advertised length", adv, ref::b32declen(t));
  u8 *o = c.out(adv);
  CALL(n = fingera_from_base32((const char *)i, t.size(), o));
  if (n > adv) fail("wrong-result", "from_base32 returns more than the advertised length");
  expect_partial("from_base32", got(o, n), ref::b32dec(t), adv);
  return DONE;
}
static St op_dec_b32raw(Call &c) {
  Bytes A, X("\x20\x3d\xff\x80\x40", 5);
  for (int i = 0; i < 32; i++) A += (char)i;
  Bytes t = c.r.below(4) ? mutate(c.r, ref::b32raw(c.data(c.size * 5 / 8)), A, X) : soup(c.r, c.size, A, X);
  const u8 *i = c.in(t, "symbols");
  size_t adv, n;
  CALL(adv = fingera_from_base32_raw_length(t.size()));
  u8 *o = c.out(adv);
  CALL(n = fingera_from_base32_raw(i, t.size(), o));
  if (n > adv) fail("wrong-result", "from_base32_raw returns more than the advertised length");
  expect_partial("from_base32_raw", got(o, n), ref::b32rawdec(t), adv);
  return DONE;
}
static const Bytes A58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
static const Bytes X58 = Bytes("0OIl \t\n1-_\xff\x80", 12);
static bool has_nul(const Bytes &t) { return t.find('\0') != Bytes::npos; }
// Base58 text: a NUL is tolerated as the end of the text, so both readings are
// acceptable there.
static bool b58_readings(const Bytes &t, std::vector<Bytes> &r) {
  Bytes d;
  if (ref::b58dec(t, d)) r.push_back(d);
  size_t z = t.find('\0');
  if (z != Bytes::npos && ref::b58dec(t.substr(0, z), d)) r.push_back(d);
  return !r.empty();
}
static St op_dec_b58(Call &c) {
  Bytes t = c.r.below(4) ? mutate(c.r, ref::b58enc(c.data(c.size * 11 / 15)), A58, X58) : soup(c.r, c.size, A58, X58);
  if (c.r.below(3) == 0) t = Bytes(c.r.below(40), '1') + t;
  const u8 *i = c.in(t, "text");
  size_t adv = fingera_from_base58_length(t.size()), n;
  u8 *o = c.out(adv);
  CALL(n = fingera_from_base58((const char *)i, t.size(), o));
  std::vector<Bytes> ok;
  b58_readings(t, ok);
  bool nul = has_nul(t), good = (ok.empty() || nul) && n == 0;
  for (auto &w : ok) good |= n == w.size() && n <= adv && got(o, n) == w;
  if (!good && n == 0) return FAILED;
  if (!good) fail("wrong-result", fmt("from_base58 of %s: got %zu bytes %s, expected %s", hexs(t).c_str(), n, hexs(got(o, std::min(n, adv)), 40).c_str(),
                                      ok.empty() ? "rejection" : hexs(ok[0], 40).c_str()));
  return DONE;
}
// every class of byte at one place of a text, for all decoders with a table
static St op_dec_sweep(Call &c) {
  Rng &r = c.r;
  int which = (int)r.below(6);
  Bytes d = c.data((long)r.range(1, 30));
  Bytes t = which == 0 ? ref::hex(d, r.below(2)) : which < 3 ? ref::b64enc(d, which == 2) : which == 3 ? ref::b32enc(d) : which == 4 ? ref::b32raw(d) : ref::b58enc(d);
  size_t p = r.below(t.size()), cap = t.size() + 4, n;
  u8 base = (u8)r.next(), step = (u8)(1 + 2 * r.below(128));
  u8 *i = c.inout(t), *o = c.out(cap);
  for (int k = 0; k < 32; k++) {
    u8 v = (u8)(base + k * step);
    i[p] = t[p] = (char)v;
    size_t adv = cap;
    CALL(switch (which) {
      case 0: adv = t.size() / 2; n = fingera_from_hex((const char *)i, t.size(), o); break;
      case 1: adv = fingera_from_base64_length((const char *)i, t.size()); n = fingera_from_base64((const char *)i, t.size(), o); break;
      case 2: adv = fingera_from_base64_urlsafe_length(t.size()); n = fingera_from_base64_urlsafe((const char *)i, t.size(), o); break;
      case 3: adv = fingera_from_base32_length((const char *)i, t.size()); n = fingera_from_base32((const char *)i, t.size(), o); break;
      case 4: adv = fingera_from_base32_raw_length(t.size()); n = fingera_from_base32_raw(i, t.size(), o); break;
      default: n = fingera_from_base58((const char *)i, t.size(), o);
    });
    if (got(i, t.size()) != t) fail("stray-write", c.it.kind + ": the decoder changed its text");
    if (n > cap) fail("wrong-result", c.it.kind + ": more bytes than there is room for");
    if (which == 5) {
      std::vector<Bytes> ok;
      b58_readings(t, ok);
      bool good = (ok.empty() || !v) && n == 0;
      for (auto &w : ok) good |= got(o, n) == w;
      if (!good && n == 0) return FAILED;
      if (!good) fail("wrong-result", fmt("from_base58 of %s: %zu bytes %s", hexs(t).c_str(), n, hexs(got(o, n), 40).c_str()));
      continue;
    }
    ref::Partial q = which == 0 ? ref::hexdec(t) : which < 3 ? ref::b64dec(t, which == 2) : which == 3 ? ref::b32dec(t) : ref::b32rawdec(t);
    if (which == 0) q.bad_used = false;
    expect_partial(fmt("decoder %d, byte %02x at %zu", which, v, p).c_str(), got(o, n), q, adv);
  }
  return DONE;
}
static St op_dec_varint(Call &c) {
  Rng &r = c.r;
  Bytes t;
  if (r.below(2)) t = ref::varint(pick_u64(r));
  else for (size_t k = r.below(12); k > 0; k--) t += (char)(r.below(4) ? r.next() | 0x80 : r.below(2) ? 0xff : 0x80);
  if (r.below(2)) t += (char)r.below(128);
  if (r.below(4) == 0 && !t.empty()) t.resize(r.below(t.size()));
  if (r.below(4) == 0) {  // right at the 64-bit limit
    t = ref::varint(~0ull - r.below(200));
    if (r.below(2)) t[r.below(t.size())] ^= (char)(1 << r.below(8));
    else { t.back() = (char)(0x7f & (t.back() + 1)); }
  }
  u64 d = 0, w = 0;
  size_t n, m = ref::varintdec(t, w);
  const u8 *i = c.in(t, "bytes");
  CALL(n = fingera_decode_varint(i, t.size(), &d));
  expect_n("decode_varint length", n, m);
  if (m) expect_n("decode_varint value", d, w);
  int64_t sd = 0, sw = 0;
  m = ref::zigzagdec(t, sw);
  CALL(n = fingera_decode_zigzag(i, t.size(), &sd));
  expect_n("decode_zigzag length", n, m);
  if (m) expect_n("decode_zigzag value", (u64)sd, (u64)sw);
  return DONE;
}
static St op_dec_b58check(Call &c) {
  Bytes t = c.r.below(5) ? mutate(c.r, ref::b58check(c.data(c.size * 11 / 15)), A58, X58) : soup(c.r, c.size, A58, X58);
  if (c.r.below(6) == 0) t = ref::b58enc(c.data((long)c.r.below(6)));
  const u8 *i = c.in(t, "text");
  size_t adv = fingera_from_base58_check_length(t.size()), n;
  u8 *o = c.out(adv);
  CALL(n = fingera_from_base58_check((const char *)i, t.size(), o));
  std::vector<Bytes> raw, ok;
  b58_readings(t, raw);
  for (auto &d : raw)
    if (d.size() >= 4 && ref::hash256(d.substr(0, d.size() - 4)).substr(0, 4) == d.substr(d.size() - 4)) ok.push_back(d.substr(0, d.size() - 4));
  bool good = (ok.empty() || has_nul(t)) && n == 0;
  for (auto &w : ok) good |= n == w.size() && n <= adv && got(o, n) == w;
  if (!good && n == 0) return FAILED;
  if (!good) fail("wrong-result", fmt("from_base58_check of %s: got %zu bytes, expected %s", hexs(t).c_str(), n, ok.empty() ? "rejection" : "acceptance"));
  return DONE;
}
static const Bytes ABC = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
static const Bytes XBC = Bytes("1biQoB1\x7f !~\0\xff", 13);
static St op_dec_bech32(Call &c) {
  Rng &r = c.r;
  Bytes hrp, sym = r.bytes(r.below(60));
  for (size_t k = 1 + r.below(r.below(3) ? 5 : 20); k > 0; k--) hrp += r.below(8) ? (char)r.range('a', 'z') : (char)r.range(33, 64);
  if (r.below(10) == 0) hrp[r.below(hrp.size())] = (char)(r.below(2) ? r.range(127, 255) : r.below(2) ? r.below(33) : r.range('A', 'Z'));
  if (r.below(6) == 0) sym = r.bytes(86 + r.below(5) - std::min<size_t>(hrp.size() + 3, 80));  // at the limit of 90
  for (auto &ch : sym) ch &= 31;
  Bytes t = r.below(5) ? mutate(r, ref::bech32enc(hrp, sym), ABC, XBC) : soup(r, r.below(100), ABC, XBC);
  if (r.below(8) == 0) t = Bytes(r.below(6), 'a') + "1" + Bytes(r.below(12), 'q');
  if (r.below(5) == 0) for (auto &ch : t) if (r.below(20)) ch = (char)toupper(ch);
  if (t.size() <= 7 && r.below(2)) t.resize(r.below(8), '1');
  const u8 *i = c.in(t, "text");
  size_t cap = r.below(4) ? 90 : r.below(20), hs = cap;
  u8 *ho = c.out(cap, "hrp"), *so = c.out(t.size() > 7 ? t.size() - 7 : 0, "symbols");
  int k;
  CALL(k = fingera_bech32_decode((const char *)i, t.size(), (char *)ho, &hs, so));
  Bytes wh, ws;
  bool ok = ref::bech32dec(t, wh, ws) && wh.size() <= cap;
  if (!ok) {
    if (k >= 0) fail("wrong-result", "bech32_decode accepts malformed text " + hexs(t, 90));
    return DONE;
  }
  expect_n("bech32_decode result", (u64)(int64_t)k, ws.size());
  expect("bech32_decode hrp", got(ho, std::min(hs, cap)), wh);
  expect("bech32_decode symbols", got(so, ws.size()), ws);
  return DONE;
}
static Bytes some_addr(Rng &r, const ref::Net &n) {
  switch (r.below(6)) {
    case 0: return ref::addr(ref::PK, rand_payload(r, 20), n);
    case 1: return ref::addr(ref::SCRIPT, rand_payload(r, 20), n);
    case 2: return ref::addr(ref::WKEY, r.bytes(20), n);
    case 3: return ref::addr(ref::WSCRIPT, r.bytes(32), n);
    case 4: {  // any version, any length, any padding
      Bytes s = r.bytes(r.below(70));
      for (auto &ch : s) ch &= 31;
      if (!s.empty() && r.below(2)) s[0] = (char)r.below(18);
      return ref::bech32enc(n.hrp, s);
    }
    default: return ref::addr(ref::WUNK, Bytes(1, (char)r.range(1, 16)) + r.bytes(r.range(2, 40)), n);
  }
}
static St op_dec_addr(Call &c) {
  Rng &r = c.r;
  Network w = net(c), v = r.below(4) ? w : net(c);
  Bytes t = some_addr(r, v.n);
  if (r.below(3)) t = mutate(r, t, r.below(2) ? A58 : ABC, r.below(2) ? X58 : XBC);
  if (r.below(12) == 0) t = soup(r, c.size, A58, X58);
  if (r.below(12) == 0) t = v.n.hrp + "1" + soup(r, r.below(20), ABC, XBC);
  const u8 *i = c.in(t, "text");
  size_t cap = fingera_from_base58_check_length(t.size());
  if (r.below(6) == 0) cap = r.below(cap + 1);
  size_t os = cap;
  u8 *o = c.out(cap);
  fingera_btc_address k;
  CALL(k = fingera_btc_address_decode((const char *)i, t.size(), o, &os, CP(w)));
  if (has_nul(t)) return DONE;
  Bytes pay;
  ref::Kind want = ref::addrdec(t, w.n, pay);
  if (cap < t.size()) {  // the output may be too small: refusing is right
    if (k == BTC_BAD_ADDRESS) return DONE;
  }
  if (k == BTC_BAD_ADDRESS && want != ref::BAD) return FAILED;
  expect_n(("address kind of " + hexs(t, 100)).c_str(), k, want);
  if (k != BTC_BAD_ADDRESS) expect("address payload", got(o, std::min(os, cap)), pay);
  return DONE;
}
// what a decoder of secret texts handles: the text, its digits, its bytes
static void secret_text(Call &c, const Bytes &t) {
  if (!W->hygiene) return;
  Bytes d;
  c.secret(t);
  c.secret(digits58(t));
  size_t good = t.find_first_not_of(A58);
  Bytes head = good == Bytes::npos ? t : t.substr(0, good);
  if (head.size() > 12 && ref::b58dec(head, d)) c.secret(d);
}
static St op_dec_wif(Call &c) {
  Rng &r = c.r;
  Network w = net(c), v = r.below(4) ? w : net(c);
  Bytes t = r.below(6) ? ref::wif(c.key(), r.below(2), v.n) : ref::b58check(v.n.wif + r.bytes(r.range(28, 40)));
  if (r.below(8) == 0) t = ref::b58check(v.n.wif + c.key() + Bytes(1, (char)(r.below(2) ? r.below(4) : r.next())));
  if (r.below(3)) t = mutate(r, t, A58, X58);
  if (r.below(10) == 0) t = soup(r, c.size, A58, X58);
  if (r.below(10) == 0) t = ref::b58check(r.bytes(r.below(200)));
  secret_text(c, t);
  const u8 *i = c.in(t, "text");
  u8 *o = c.out(32);
  int ok, ic = 5, wc = 5;
  CALL(ok = fingera_btc_key_from_string((const char *)i, t.size(), o, &ic, CP(w)));
  if (has_nul(t)) return DONE;
  Bytes k;
  bool want = ref::wifdec(t, w.n, k, wc);
  if (want && !ok && !ref::key_valid(k)) return DONE;  // refusing an impossible key is right too
  if (!ok && want) return FAILED;
  expect_n("key_from_string result", ok != 0, want);
  if (ok) { expect("key_from_string", got(o, 32), k); expect_n("compression flag", ic != 0, wc); }
  return DONE;
}
static St dec_x(Call &c, bool priv) {
  Rng &r = c.r;
  Network w = net(c), v = r.below(4) ? w : net(c);
  ref::XKey x = rand_xkey(c, priv);
  Bytes t = ref::xstr(x, priv ? v.n.xprv : v.n.xpub);
  if (r.below(8) == 0) t = ref::b58check((priv ? v.n.xprv : v.n.xpub) + r.bytes(r.range(70, 80)));
  if (r.below(3)) t = mutate(r, t, A58, X58);
  if (r.below(10) == 0) t = soup(r, c.size, A58, X58);
  if (r.below(10) == 0) t = ref::b58check(r.bytes(r.below(260)));
  if (priv) secret_text(c, t);
  const u8 *i = c.in(t, "text");
  u8 *o = out_struct(c, priv ? sizeof(fingera_ex_key) : sizeof(fingera_ex_pubkey));
  int ok;
  if (priv) CALL(ok = fingera_exkey_from_string((const char *)i, t.size(), (fingera_ex_key *)o, CP(w)));
  else CALL(ok = fingera_expubkey_from_string((const char *)i, t.size(), (fingera_ex_pubkey *)o, CP(w)));
  if (has_nul(t)) return DONE;
  ref::XKey k;
  Bytes d;
  bool want = ref::xstrdec(t, priv ? w.n.xprv : w.n.xpub, priv, k);
  if (want) {
    bool sane = ref::b58checkdec(t, d);
    if (priv) sane = sane && d[d.size() - 33] == 0 && ref::key_valid(k.key);
    else sane = sane && ref::pub_parse(k.key, d);
    if (!sane && !ok) return DONE;  // not a key: refusing it is right too
  }
  if (!ok && want) return FAILED;
  expect_n("extended key from_string result", ok != 0, want);
  if (ok) expect_x("extended key from_string", priv ? rdprv(o) : rdpub(o), k);
  return DONE;
}
static St op_dec_xprv(Call &c) { return dec_x(c, true); }
static St op_dec_xpub(Call &c) { return dec_x(c, false); }
static St op_dec_keyder(Call &c) {
  Rng &r = c.r;
  Bytes k = c.key();
  c.secret(k);
  Bytes t = ref::key_der(k, r.below(2));
  switch (r.below(9)) {
    case 7:
    case 8: {  // cut anywhere, with lengths that agree with what is left
      t = ref::key_der(k, r.below(2));
      size_t h = t[1] == (char)0x82 ? 4 : 3, keep = r.below(3) ? r.below(9) : r.below(40);
      Bytes body = t.substr(h, keep);
      if (body.size() > 4 && r.below(2)) body[4] = (char)(body.size() - 5 + (r.below(4) ? 0 : r.below(3)));
      size_t claim = body.size() + (r.below(4) ? 0 : r.below(3));
      switch (r.below(4)) {
        case 0: t = Bytes("\x30\x81", 2) + (char)claim + body; break;
        case 1: t = Bytes("\x30\x82\0", 3) + (char)claim + body; break;
        case 2: t = Bytes("\x30") + (char)(0x80 | r.below(4)) + (char)claim + body; break;
        default: t = Bytes("\x30\x81", 2) + (char)claim + body; t.resize(r.below(t.size() + 1));
      }
      break;
    }
    case 0: t.resize(r.below(t.size())); break;
    case 1: t[r.below(12)] = (char)r.next(); break;
    case 2: t = r.bytes(r.below(60)); break;
    case 3: { size_t n = r.below(34); Bytes o = r.bytes(n); Bytes body = Bytes("\x02\x01\x01\x04", 4) + (char)n + o; t = Bytes("\x30\x81", 2) + (char)(body.size() + r.below(3)) + body; break; }
    case 4: t += r.bytes(r.below(9)); break;
    case 5: t.resize(3 + r.below(7)); break;
    default: break;
  }
  const u8 *i = c.in(t, "DER key");
  u8 *o = c.out(32);
  int ok;
  CALL(ok = fingera_btc_key_decode(i, t.size(), o));
  Bytes wk;
  bool want = ref::key_der_import(t, wk);
  expect_n("key_decode result", ok != 0, want);
  if (ok) expect("key_decode", got(o, 32), wk);
  return DONE;
}
static St op_dec_sigder(Call &c) {
  Rng &r = c.r;
  Bytes t = ref::sig_der(ref::sign(c.key(), c.b32()));
  switch (r.below(10)) {
    case 8: t.resize(r.below(t.size())); if (t.size() > 1) t[1] = (char)(t.size() - 2); break;
    case 9: {  // ends inside of a header
      Bytes num = r.below(2) ? Bytes("\x02\x01\x05", 3) : Bytes("\x02\x81\x01\x05", 4);
      Bytes part[] = {"", "\x02", "\x02\x20", "\x02\x81", "\x02\x82", Bytes("\x02\x82\0", 3), Bytes("\x02\x83\0\0\x01", 5), "\x02\x84\x01\x01\x01\x01", num};
      t = (r.below(2) ? num : Bytes()) + part[r.below(9)];
      t = Bytes("\x30") + (r.below(3) ? Bytes(1, (char)t.size()) : Bytes("\x81") + (char)t.size()) + t;
      break;
    }
    case 0: t.resize(r.below(t.size())); break;
    case 1: t[r.below(6)] = (char)r.next(); break;
    case 2: t = r.bytes(r.below(90)); break;
    case 3: {  // long forms, padding, oversize integers
      auto num = [&](size_t n) {
        Bytes v = Bytes(r.below(40) == 0 ? r.range(65000, 68000) : r.below(12) == 0 ? r.range(90, 700) : r.below(3) ? 0 : r.below(6), 0) + r.bytes(n);
        Bytes l;
        if (r.below(2) || v.size() > 127) {
          for (size_t k = v.size(); k; k >>= 8) l = Bytes(1, (char)k) + l;
          l = Bytes(r.below(3), 0) + l;
          l = Bytes(1, (char)(0x80 | l.size())) + l;
        }
        else l = Bytes(1, (char)v.size());
        return Bytes("\x02") + l + v;
      };
      Bytes b = num(r.below(3) ? 32 : r.below(40)) + num(r.below(3) ? 32 : r.below(40));
      t = Bytes("\x30") + (r.below(2) ? Bytes(1, (char)b.size()) : Bytes("\x82") + (char)r.next() + (char)r.next()) + b;
      break;
    }
    case 4: t += r.bytes(r.below(9)); break;
    case 5: { static const u8 h[] = {0x30, 0x80, 0xff, 2, 0x84, 0x83, 0}; t = "\x30"; for (size_t k = r.below(10); k > 0; k--) t += (char)h[r.below(7)]; break; }
    case 6: { size_t p = r.below(3) ? 3 : 4 + (u8)t[3] + 1; if (p < t.size()) t[p] = (char)(r.below(2) ? r.next() : 0x84); break; }
    default: break;
  }
  const u8 *i = c.in(t, "DER signature");
  u8 *o = c.out(64);
  int ok;
  CALL(ok = fingera_btc_signature_decode(i, t.size(), o));
  Bytes ws;
  bool want = ref::sig_lax(t, ws);
  expect_n("signature_decode result", ok != 0, want);
  if (ok) expect("signature_decode", ref::sig_compact(got(o, 64)), ref::sig_compact(ws));
  return DONE;
}
static St op_dec_pub(Call &c) {
  Rng &r = c.r;
  bool comp = r.below(2);
  Bytes t = ref::pub_ser(ref::pub64(c.key()), comp);
  switch (r.below(4)) {
    case 0: t[0] = (char)r.below(9); break;
    case 1: t[1 + r.below(t.size() - 1)] ^= (char)(1 << r.below(8)); break;
    case 2: t = Bytes(1, (char)(comp ? 2 + r.below(2) : 4)) + r.bytes(t.size() - 1); break;
    default: break;
  }
  const u8 *i = c.in(t, "encoded key");
  u8 *o = c.out(64);
  int ok;
  CALL(ok = fingera_btc_pubkey_decode(i, t.size(), o));
  Bytes wp;
  bool want = ref::pub_parse(t, wp);
  expect_n("pubkey_decode result", ok != 0, want);
  if (ok) expect("pubkey_decode", ref::pub_ser(got(o, 64), true), ref::pub_ser(wp, true));
  if (comp) {  // derivation decodes the same bytes
    Bytes cc = c.b32();
    u32 child = c.child() & 0x7fffffff;
    ref::XKey x, z;
    x.key = t;
    x.cc = cc;
    bool okq = ref::ckd_pub(x, child, 0, z);
    const u8 *ci = c.in(cc, "chain code");
    u8 *q = c.out(33), *qc = c.out(32);
    CALL(ok = fingera_btc_pubkey_derive(i, ci, q, qc, child));
    expect_n("pubkey_derive result", ok != 0, okq);
    if (ok) { expect("pubkey_derive key", got(q, 33), z.key); expect("pubkey_derive chain code", got(qc, 32), z.cc); }
  }
  return DONE;
}

// Inputs said to be more than 2^31 or 2^32 bytes long, of which the first few
// decide: what follows them is refused, or does not matter.
struct Vast {
  static constexpr size_t N = (4ull << 30) + (1 << 20), HEAD = 16384;
  static std::vector<u8 *> &idle() { static std::vector<u8 *> v; return v; }
  u8 *m;
  Vast(const Bytes &t, u8 fill) {
    if (idle().empty()) {
      u8 *n = (u8 *)mmap(nullptr, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (n == MAP_FAILED) { perror("mmap"); _exit(3); }
      idle().push_back(n);
    }
    m = idle().back();
    idle().pop_back();
    memset(m, fill, HEAD);
    memcpy(m, t.data(), t.size());
  }
  ~Vast() { idle().push_back(m); }
};
static St op_dec_vast(Call &c) {
  Rng &r = c.r;
  Network w = net(c);
  int kind = (int)r.below(11), ok = 0;
  Bytes t, sym = r.bytes(r.below(30)), k = c.key();
  for (auto &ch : sym) ch &= 31;
  switch (kind) {
    case 0: t = ref::varint(pick_u64(r)); break;
    case 1: t = ref::sig_der(ref::sign(k, c.b32())); break;
    case 2: t = ref::key_der(k, r.below(2)); break;
    case 3: t = ref::pub_ser(ref::pub64(k), r.below(2)); break;
    case 4: t = ref::bech32enc("bc", sym); break;
    case 5: t = some_addr(r, w.n); break;
    case 6: t = ref::wif(k, r.below(2), w.n); break;
    case 7: case 8: t = ref::xstr(rand_xkey(c, kind == 7), kind == 7 ? w.n.xprv : w.n.xpub); break;
    default: t = ref::b58check(r.bytes(r.below(40)));
  }
  if (kind == 3 && W->plan->variant != "release") return DONE;  // assertions forbid other lengths
  u64 more = r.below(4) ? t.size() : r.below(t.size() + 9);
  u64 n = (r.below(3) ? 1ull << 32 : 1ull << 31) + more;
  Vast v(t, kind < 3 ? 0 : '!');
  const char *s = (const char *)v.m;
  size_t os = 100, hs = 90;
  u8 *o = c.out(200), *p = nullptr;
  if (kind == 7 || kind == 8) p = out_struct(c, kind == 7 ? sizeof(fingera_ex_key) : sizeof(fingera_ex_pubkey));
  probe("vast_input");
  if (kind == 0) {
    u64 d = 0, want = 0;
    size_t got_n, m = ref::varintdec(t, want);
    CALL(got_n = fingera_decode_varint(s, n, &d));
    expect_n("decode_varint length", got_n, m);
    expect_n("decode_varint value", d, want);
    int64_t sd = 0, sw = 0;
    m = ref::zigzagdec(t, sw);
    CALL(got_n = fingera_decode_zigzag(s, n, &sd));
    expect_n("decode_zigzag length", got_n, m);
    expect_n("decode_zigzag value", (u64)sd, (u64)sw);
    return DONE;
  }
  Bytes x;
  bool want = kind == 1 || (kind == 2 && ref::key_der_import(t + Bytes(4096, 0), x));
  CALL(switch (kind) {
    case 1: ok = fingera_btc_signature_decode(s, n, o); break;
    case 2: ok = fingera_btc_key_decode(s, n, o); break;
    case 3: ok = fingera_btc_pubkey_decode(s, n, o); break;
    case 4: ok = fingera_bech32_decode(s, n, (char *)o, &hs, o + 100) >= 0; break;
    case 5: ok = fingera_btc_address_decode(s, n, o, &os, CP(w)) != BTC_BAD_ADDRESS; break;
    case 6: { int ic; ok = fingera_btc_key_from_string(s, n, o, &ic, CP(w)); break; }
    case 7: ok = fingera_exkey_from_string(s, n, (fingera_ex_key *)p, CP(w)); break;
    case 8: ok = fingera_expubkey_from_string(s, n, (fingera_ex_pubkey *)p, CP(w)); break;
    case 9: ok = fingera_from_base58_check(s, n, o) != 0; break;
    default: ok = fingera_from_base58(s, n, o) != 0;
  });
  if ((ok != 0) != want) fail("wrong-result", fmt("an input of %llu bytes that begins with %s is %s", (unsigned long long)n, hexs(t, 120).c_str(), ok ? "accepted" : "refused"));
  if (want && kind == 1) { Bytes ws; ref::sig_lax(t, ws); expect("signature_decode", ref::sig_compact(got(o, 64)), ref::sig_compact(ws)); }
  if (want && kind == 2) expect("key_decode", got(o, 32), x);
  return DONE;
}

static St op_cleanse(Call &c) {
  Bytes m = W->hygiene ? c.r.bytes((size_t)c.size) : c.data(c.size), q = c.r.bytes((size_t)c.size);
  u8 *a = c.inout(m), *b = c.inout(q);
  size_t n = m.size();
  CALL(fingera_cleanse(a, n));
  CALL(fingera_cleanse(b, n));
  if (got(a, n) != got(b, n)) fail("wrong-result", fmt("cleanse of %zu bytes leaves something of them", n));
  return DONE;
}
// advertised lengths, for buffers of any size
static St op_lengths(Call &c) {
  Rng &r = c.r;
  u64 n = r.below(2) ? r.below(3000) : (1ull << r.range(8, 60)) + r.below(9) - 4;
  if (r.below(4) == 0) n = r.next() >> r.range(5, 60);
  n &= (1ull << 60) - 1;
  expect_n("to_hex length", fingera_to_hex_length(n), 2 * n);
  expect_n("from_hex length", fingera_from_hex_length(n), n / 2 + n % 2);
  expect_n("to_base64 length", fingera_to_base64_length(n), (n + 2) / 3 * 4);
  expect_n("to_base64_urlsafe length", fingera_to_base64_urlsafe_length(n), n / 3 * 4 + (n % 3 ? n % 3 + 1 : 0));
  u64 q = fingera_from_base64_urlsafe_length(n), t = n % 4;
  if (t != 1) expect_n("from_base64_urlsafe length", q, n / 4 * 3 + (t ? t - 1 : 0));
  expect_n("to_base32 length", fingera_to_base32_length(n), (n + 4) / 5 * 8);
  u64 raw = fingera_from_base32_raw_length(n);
  if (n % 8 == 0) expect_n("from_base32_raw length", raw, n / 8 * 5);
  // at least what the worst input needs: 8 / log2(58) digits for each byte
  u64 m = n >> 10;
  long double need = (long double)m * 1.365658237309761L;
  if ((long double)fingera_to_base58_length(m) < need) fail("wrong-result", fmt("to_base58 length of %llu bytes is too small", (unsigned long long)m));
  if (fingera_from_base58_length(m) < m) fail("wrong-result", fmt("from_base58 length of %llu digits is too small for leading ones", (unsigned long long)m));
  u64 p = r.below(9);
  if ((long double)fingera_to_base58_check_length(m, p) < (long double)(m + p + 4) * 1.365658237309761L)
    fail("wrong-result", fmt("to_base58_check length of %llu bytes is too small", (unsigned long long)m));
  if (fingera_from_base58_check_length(m) < (m > 4 ? m - 4 : 0)) fail("wrong-result", "from_base58_check length is too small");
  size_t h = r.below(84), sn = r.below(90);
  expect_n("bech32_encode length", fingera_bech32_encode_length(h, sn), h + 1 + sn + 6);
  return DONE;
}

// ------------------------------------------------------------------- entropy
static void match_delivered(const u8 *o, size_t n, u64 call, size_t first) {
  size_t pos = 0;
  for (size_t i = first; i < W->chunks.size() && pos < n; i++) {
    const Chunk &k = W->chunks[i];
    if (k.call != call) continue;
    size_t l = 0;
    while (l < k.data.size() && pos < n && o[pos] == (u8)k.data[l]) l++, pos++;
  }
  if (pos < n)
    fail("not-random", fmt("byte %zu of %zu was not delivered by the random source for this request", pos, n));
}
static St op_rand(Call &c) {
  size_t n = (size_t)c.size, first = W->chunks.size();
  u8 *o = c.out(n);
  cur->draw_off = 0;
  CALL(fingera_os_rand_bytes(o, n));
  match_delivered(o, n, cur->call, first);
  return DONE;
}
u8 *huge_region(unsigned lane);
Bytes &huge_bytes();
static St op_randhuge(Call &c) {
  static const u64 base[] = {1ull << 31, 1ull << 32, 1ull << 31, (1ull << 31) - 1};
  u64 n = base[c.r.below(4)] + c.r.below(300), off = c.r.below(64);
  if (c.it.lane >= 8) return DONE;  // there are eight regions
  u8 *o = huge_region((unsigned)c.it.lane) + off;
  cur->huge = o;
  cur->huge_n = n;
  cur->huge_pos = 0;
  CALL(fingera_os_rand_bytes(o, n));
  cur->huge = nullptr;
  if (cur->huge_pos != n) fail("not-random", fmt("%llu of %llu bytes of a huge request were delivered", (unsigned long long)cur->huge_pos, (unsigned long long)n));
  const Bytes &s = huge_bytes();
  for (u64 k = n - (15u << 20); k < n;) {
    size_t at = k % s.size(), l = std::min<size_t>(n - k, s.size() - at);
    if (memcmp(o + k, s.data() + at, l)) fail("not-random", fmt("the bytes near offset %llu of %llu are not those delivered", (unsigned long long)k, (unsigned long long)n));
    k += l;
  }
  return DONE;
}
static const char *N_HEX = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
Bytes forced_entropy(const Item *it, u64 off) {
  if (!it || it->kind != "keynew" || W->hygiene) return Bytes();
  Rng r(it->seed ^ 0xf0);
  size_t bad = it->size > 0 ? r.below((u64)it->size + 1) : 0;
  Bytes all, n;
  ref::unhex(N_HEX, n);
  for (size_t k = 0; k < bad; k++) {
    Bytes d(32, 0);
    switch (r.below(6)) {
      case 0: break;
      case 1: d = n; break;
      case 2: d = n; d[31]++; break;
      case 3: d = Bytes(32, (char)0xff); break;
      case 4: d = n; for (int i = 16; i < 32; i++) d[i] = (char)(i == 16 ? 0xff : r.next()); break;
      default: d = Bytes(15, (char)0xff) + r.bytes(17); d[15] = (char)0xff;
    }
    all += d;
  }
  switch (r.below(8)) {  // valid, but only just
    case 0: { Bytes d(32, 0); d[31] = 1; all += d; break; }
    case 1: { Bytes d = n; d[31]--; all += d; break; }
    case 2: { Bytes d = r.bytes(32); d[0] = 0; d[1] = 0; all += d; break; }
    case 3: { Bytes d = Bytes(8, (char)0xff) + r.bytes(24); all += d; break; }
    default: break;
  }
  return off < all.size() ? all.substr(off) : Bytes();
}
static St op_keynew(Call &c) {
  size_t first = W->chunks.size();
  u8 *o = c.out(32);
  cur->draw_off = 0;
  CALL(fingera_btc_key_new(o));
  Bytes k = got(o, 32), d;
  std::set<size_t> starts;
  std::vector<u64> ser;
  for (size_t i = first; i < W->chunks.size(); i++)
    if (W->chunks[i].call == cur->call) {
      starts.insert(d.size());
      d += W->chunks[i].data;
    }
  bool found = false;
  for (size_t s : starts)
    if (s + 32 <= d.size() && d.compare(s, 32, k) == 0) found = true;
  for (size_t s = 0; s + 32 <= d.size(); s += 32)
    if (d.compare(s, 32, k) == 0) found = true;
  if (!found) fail("not-random", "generated key " + hexs(k) + " is not one complete draw of this call");
  if (!ref::key_valid(k)) fail("invalid-key", "generated key " + hexs(k) + " is not a valid scalar");
  return DONE;
}

static const std::map<std::string, OpDef> BASE_OPS = {
    {"sha1", {op_sha1, false, "hash", 10, 400}},
    {"sha256", {op_sha256, false, "hash", 10, 400}},
    {"sha512", {op_sha512, false, "hash", 10, 400}},
    {"ripemd160", {op_rmd, false, "hash", 10, 400}},
    {"hmac256", {op_hmac256, false, "hash", 10, 300}},
    {"hmac512", {op_hmac512, false, "hash", 10, 400}},
    {"hash160", {op_hash160, false, "hash", 6, 200}},
    {"hash256", {op_hash256, false, "hash", 6, 200}},
    {"d64", {op_d64, false, "hash", 6, 600}},
    {"bip32hash", {op_bip32hash, false, "hash", 6, 1}},
    {"hex", {op_hex, false, "codec", 10, 120}},
    {"base64", {op_b64, false, "codec", 10, 120}},
    {"base64url", {op_b64u, false, "codec", 10, 120}},
    {"base32", {op_b32, false, "codec", 10, 120}},
    {"base32raw", {op_b32raw, false, "codec", 10, 120}},
    {"base58", {op_b58, false, "codec", 14, 220}},
    {"cleanse", {op_cleanse, false, "hash", 2, 400}},
    {"lengths", {op_lengths, false, "codec", 4, 1}},
    {"varint", {op_varint, false, "codec", 10, 1}},
    {"endian", {op_endian, false, "codec", 10, 1}},
    {"zigzag", {op_zigzag, false, "codec", 10, 1}},
    {"base58check", {op_b58check, false, "text", 10, 160}},
    {"bech32", {op_bech32, false, "text", 10, 1}},
    {"addr", {op_addr, false, "text", 20, 200}},
    {"addr_refuse", {op_addr_refuse, false, "text", 3, 1}},
    {"wif", {op_wif, false, "text", 10, 1}},
    {"xprv", {op_xprv, false, "text", 10, 1}},
    {"xpub", {op_xpub, false, "text", 10, 1}},
    {"getpub", {op_getpub, true, "key", 10, 1}},
    {"keyid", {op_keyid, true, "key", 6, 1}},
    {"keyder", {op_keyder, true, "key", 8, 1}},
    {"sign", {op_sign, true, "key", 10, 1}},
    {"verify", {op_verify, true, "key", 10, 1}},
    {"derive", {op_derive, true, "key", 10, 1}},
    {"exinit", {op_exinit, false, "key", 6, 300}},
    {"exderive", {op_exderive, true, "key", 10, 1}},
    {"ser74", {op_ser74, false, "key", 6, 1}},
    {"dec_hex", {op_dec_hex, false, "dec", 6, 120}},
    {"dec_base64", {op_dec_b64, false, "dec", 10, 120}},
    {"dec_base64url", {op_dec_b64u, false, "dec", 10, 120}},
    {"dec_base32", {op_dec_b32, false, "dec", 10, 120}},
    {"dec_base32raw", {op_dec_b32raw, false, "dec", 10, 120}},
    {"dec_base58", {op_dec_b58, false, "dec", 12, 260}},
    {"dec_sweep", {op_dec_sweep, false, "dec", 8, 1}},
    {"dec_varint", {op_dec_varint, false, "dec", 10, 1}},
    {"dec_base58check", {op_dec_b58check, false, "dec", 10, 260}},
    {"dec_bech32", {op_dec_bech32, false, "dec", 12, 1}},
    {"dec_addr", {op_dec_addr, false, "dec", 14, 200}},
    {"dec_wif", {op_dec_wif, false, "dec", 10, 200}},
    {"dec_xprv", {op_dec_xprv, false, "dec", 8, 260}},
    {"dec_xpub", {op_dec_xpub, false, "dec", 8, 260}},
    {"dec_keyder", {op_dec_keyder, true, "dec", 8, 1}},
    {"dec_sigder", {op_dec_sigder, true, "dec", 8, 1}},
    {"dec_pub", {op_dec_pub, true, "dec", 6, 1}},
    {"dec_vast", {op_dec_vast, true, "dec", 3, 1}},
    {"rand", {op_rand, false, "rand", 10, 300}},
    {"randhuge", {op_randhuge, false, "huge", 1, 1}},
    {"keynew", {op_keynew, true, "gen", 10, 6}},
};
static std::map<std::string, OpDef> all_ops() {
  auto m = BASE_OPS;
  for (auto &o : huge_ops()) m.insert(o);
  return m;
}
const std::map<std::string, OpDef> OPS = all_ops();
std::vector<std::string> op_group(const std::vector<std::string> &groups) {
  std::vector<std::string> r;
  for (auto &o : OPS)
    for (auto &g : groups)
      if (g == o.second.group)
        for (int i = 0; i < o.second.weight; i++) r.push_back(o.first);
  return r;
}
std::string pick_op(Rng &r, const std::vector<std::string> &names) { return names[r.below(names.size())]; }
Item make_op(Rng &r, int id, int lane, int epoch, const std::string &kind) {
  Item it;
  it.id = id;
  it.lane = lane;
  it.epoch = epoch;
  it.kind = kind;
  it.seed = r.next() >> 1;
  long m = OPS.at(kind).maxsize;
  static const long edges[] = {0, 1, 2, 3, 55, 56, 57, 63, 64, 65, 111, 112, 113, 119, 120, 127, 128, 129, 135, 136, 137, 183, 184, 191, 192, 247, 248, 255, 256, 257};
  if (m > 64 && r.below(3) == 0) {
    do it.size = edges[r.below(30)];
    while (it.size > m);
  } else it.size = r.below(3) ? (long)r.below((u64)m / 2 + 1) : (long)r.below((u64)m + 1);
  // beyond every internal buffer; the base 58 codecs take quadratic time
  bool quad = kind.find("58") != std::string::npos || kind.find("addr") != std::string::npos || kind.find("dec_x") == 0 || kind == "dec_wif";
  if (m > 100 && r.below(quad ? 150 : 60) == 0) it.size = quad ? (long)r.range(300, 1100) : (long)r.range(1000, 5000);
  if (m > 100 && !quad && r.below(kind == "rand" ? 10 : 80) == 0) it.size = (1l << r.range(8, kind == "rand" ? 16 : 12)) * (long)r.range(1, 3) + (long)r.below(3) - 1;
  return it;
}
void run_op(const Item &it) {
  auto o = OPS.find(it.kind);
  if (o == OPS.end()) { fail("internal", "unknown operation " + it.kind); return; }
  cur->secrets.clear();
  St s;
  u64 mallocs = cur->fired.count("malloc") ? cur->fired["malloc"] : 0;  // no entry may be made: check_exit looks for one
  {
    Call c(it);
    s = o->second.fn(c);
    c.verify();
  }
  if (s == FAILED) {
    if (!cur->fired.count("malloc") || cur->fired["malloc"] == (int)mallocs)
      fail("wrong-result", it.kind + ": the call reports failure on valid input although nothing failed");
    probe("reported_failure");
    auto save = cur->fired;
    cur->fired.clear();
    cur->nofault = true;
    cur->secrets.clear();
    Call c(it);
    St t = o->second.fn(c);
    c.verify();
    if (t == FAILED) fail("wrong-result", it.kind + ": the call still reports failure after memory is available again");
    cur->nofault = false;
    cur->fired = save;
  }
}
