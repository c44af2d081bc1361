// Pairs of calls with different secrets and everything else equal: the library's
// own code has to take the same steps and touch the same addresses (C21).
#include "ops.h"
#include "huge.h"
#include <cerrno>
#include <cstdlib>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/cleanse.h>
#include <fingera_libc/hash/ripemd160.h>
#include <fingera_libc/hash/sha1.h>
#include <fingera_libc/hash/sha2.h>

namespace {
enum What { SHA1, SHA256, SHA512, RMD, H160, H256, D64, HM256, HM512, HM256MSG, HM512MSG, B32H, CLEANSE, PUB, KEYID, KEYFP, KEYENC, KEYDEC, DERIVE, SIGN, XINIT, XDERIVE, XPUB, XENC, XDEC, WHATS };
const char *NAMES[WHATS] = {"sha1", "sha256", "sha512", "ripemd160", "hash160", "hash256", "hash256_d64", "hmac_sha256 key", "hmac_sha512 key",
                            "hmac_sha256 message", "hmac_sha512 message", "bip32_hash", "cleanse", "key_get_pub", "key_keyid", "key_fingerprint", "key_encode",
                            "key_decode", "key_derive", "key_sign", "exkey_init", "exkey_derive", "exkey_get_pub", "exkey_encode", "exkey_decode"};
bool is_key(int w) { return w >= PUB; }

// Another secret of the same length: related to `a` or not.
Bytes other(Rng &r, const Bytes &a) {
  Bytes b = a;
  size_t n = a.size();
  if (!n) return b;
  switch (r.below(8)) {
    case 0: b[r.below(n)] ^= (char)(1 << r.below(8)); break;
    case 1: { size_t k = r.below(n); Bytes t = r.bytes(n - k); b.replace(k, n - k, t); break; }
    case 2: { size_t k = 1 + r.below(n); b.replace(0, k, r.bytes(k)); break; }
    case 3: { size_t k = 1 + r.below(n); b.replace(0, k, Bytes(k, 0)); break; }
    case 4: { size_t k = r.below(n); b.replace(k, n - k, Bytes(n - k, 0)); break; }
    case 5: b[r.below(n)] = (char)(r.below(2) ? 0 : 0xff); break;
    default: b = rand_payload(r, n);
  }
  return b;
}
Bytes valid(Rng &r, const Bytes &from) {
  for (;;) {
    Bytes k = other(r, from);
    if (ref::key_valid(k)) return k;
    if (r.below(4) == 0) { k = r.bytes(32); if (ref::key_valid(k)) return k; }
  }
}
}  // namespace

void do_trace(const Item &it) {
  Call c(it);
  Rng &r = c.r;
  const int w = (int)(it.size % WHATS);
  cur->nofault = true;
  // the public part, the same in all calls
  size_t n = 32;
  if (w <= H256 || w == CLEANSE) n = r.below(3) ? 1 + r.below(150) : 1 + r.below(700);
  if (w == D64) n = 64 * (1 + r.below(3));
  if (w == HM256 || w == HM512) n = 1 + r.below(r.below(2) ? 64 : 300);
  if (w == HM256MSG || w == HM512MSG) n = 1 + r.below(300);
  if (w == XINIT) n = 16 + r.below(50);
  Bytes pub = r.bytes(64 + r.below(200));
  u32 child = (u32)r.next();
  if (r.below(2)) child &= 0xff;
  if (r.below(2)) child |= 0x80000000u;
  int comp = (int)r.below(2);
  // the secrets: one to warm up, a pair
  const int TRIES = w == SIGN ? 5 : 2;
  std::vector<Bytes> sec;
  Bytes base;
  do base = rand_payload(r, n); while (is_key(w) && w != XINIT && !ref::key_valid(base));
  for (int i = 0; i < TRIES; i++) {
    bool k = is_key(w) && w != XINIT;
    if (i == 0) sec.push_back(base);
    else sec.push_back(k ? valid(r, sec[r.below(sec.size())]) : other(r, sec[r.below(sec.size())]));
  }
  Bytes warm = is_key(w) && w != XINIT ? valid(r, base) : other(r, base);
  // one set of buffers
  auto content = [&](const Bytes &s) -> Bytes {
    switch (w) {
      case KEYDEC: return ref::key_der(s, comp);
      case XDERIVE: case XPUB: case XENC: {
        fingera_ex_key k;
        memset(&k, 0, sizeof k);
        k.ext.depth = 3;
        k.ext.child = 7;
        memcpy(k.ext.chain_code, pub.data(), 32);
        memcpy(k.key, s.data(), 32);
        return Bytes((char *)&k, sizeof k);
      }
      case XDEC: { ref::XKey x; x.depth = 1; x.cc = pub.substr(0, 32); x.key = s; return ref::xser(x); }
      default: return s;
    }
  };
  u8 *in = c.out(content(base).size(), "secret input");
  const size_t in_n = content(base).size();
  const u8 *p = c.in(pub, "public input");
  u8 *o = c.out(1024), *o2 = c.out(512);
  Trace tr;
  auto call = [&](const Bytes &s) {
    Bytes t = content(s);
    memcpy(in, t.data(), t.size());
    Bytes st = stale(1024);
    memcpy(o, st.data(), 1024);
    memcpy(o2, st.data(), 512);
    tr = Trace();
    tr.ev.reserve(1 << 14);
    on_aux([&] { cur->trace = &tr; tracing++; });
    lib([&] {
      errno = 0;
      switch (w) {
        case SHA1: fingera_sha1(in, n, o); break;
        case SHA256: fingera_sha2_256(in, n, o); break;
        case SHA512: fingera_sha2_512(in, n, o); break;
        case RMD: fingera_ripemd160(in, n, o); break;
        case H160: fingera_btc_hash160(in, n, o); break;
        case H256: fingera_btc_hash256(in, n, o); break;
        case D64: fingera_btc_hash256_d64(o, in, n / 64); break;
        case HM256: fingera_hmac_sha256(in, n, p, pub.size(), o); break;
        case HM512: fingera_hmac_sha512(in, n, p, pub.size(), o); break;
        case HM256MSG: fingera_hmac_sha256(p, 40, in, n, o); break;
        case HM512MSG: fingera_hmac_sha512(p, 40, in, n, o); break;
        case B32H: fingera_btc_bip32_hash(p, child, 0, in, o); break;
        case CLEANSE: fingera_cleanse(in, n); break;
        case PUB: fingera_btc_key_get_pub(in, o); break;
        case KEYID: fingera_btc_key_keyid(in, comp, o); break;
        case KEYFP: (void)fingera_btc_key_fingerprint(in, comp); break;
        case KEYENC: fingera_btc_key_encode(in, o, comp ? 214 : 279); break;
        case KEYDEC: fingera_btc_key_decode(in, in_n, o); break;
        case DERIVE: fingera_btc_key_derive(in, p, o, o2, child); break;
        case SIGN: fingera_btc_key_sign(in, p, o); break;
        case XINIT: fingera_exkey_init((fingera_ex_key *)o, in, n); break;
        case XDERIVE: fingera_exkey_derive((const fingera_ex_key *)in, (fingera_ex_key *)o, child, 77); break;
        case XPUB: fingera_exkey_get_pub((const fingera_ex_key *)in, (fingera_ex_pubkey *)o); break;
        case XENC: fingera_exkey_encode((const fingera_ex_key *)in, o); break;
        case XDEC: fingera_exkey_decode(in, (fingera_ex_key *)o); break;
      }
    });
    on_aux([&] { cur->trace = nullptr; tracing--; });
    W->st.ops[NAMES[w]]++;
    W->st.probes["trace_events"] += tr.ev.size();
    return std::move(tr);
  };
  auto same = [](const Trace &a, const Trace &b, size_t &at) {
    size_t m = std::min(a.ev.size(), b.ev.size());
    for (at = 0; at < m; at++) if (a.ev[at].what != b.ev[at].what) return false;
    return a.ev.size() == b.ev.size();
  };
  // what a call leaves behind may tell the next one something: the same history
  // before each of the calls that are compared
  const bool each = r.below(2);
  auto after = [&](const Bytes &s) {
    if (each) call(warm);
    return call(s);
  };
  call(warm);
  std::vector<Trace> t;
  for (auto &s : sec) t.push_back(after(s));
  bool compared = false;
  for (size_t i = 1; i < sec.size(); i++)
    for (size_t j = 0; j < i; j++) {
      size_t at, x;
      if (t[i].attempts != t[j].attempts) continue;   // more or fewer tries to find a short signature
      compared = true;
      if (same(t[i], t[j], at)) { probe("equal_traces"); continue; }
      // does it come from the secret? each of them has to behave the same way again
      Trace a = after(sec[j]), b = after(sec[i]);
      if (!same(a, t[j], x) || !same(b, t[i], x)) { probe("trace_not_repeatable"); continue; }
      const Trace &l = t[j].ev.size() > at ? t[j] : t[i];
      fail("secret-dependent", fmt("%s: with secrets %s and %s the library takes different steps (%zu and %zu in all), first at step %zu near pc %p", NAMES[w],
                                   hexs(sec[j], 80).c_str(), hexs(sec[i], 80).c_str(), t[j].ev.size(), t[i].ev.size(), at, l.ev.size() > at ? l.ev[at].pc : nullptr));
    }
  if (compared) probe("pairs_compared");
  cur->nofault = false;
}
