// Buffers larger than 2^29, 2^31 and 2^32 bytes: short pieces mapped again and
// again. Run in the variant without instrumentation.
#include "ops.h"
#include "huge.h"
#include <cerrno>
#include <cstdlib>
#include <algorithm>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/hash/ripemd160.h>
#include <fingera_libc/hash/sha1.h>
#include <fingera_libc/hash/sha2.h>
#include <fingera_libc/hex.h>
#include "inl.h"

static const size_t PIECE = (16u << 20) + 7 * 4096;  // does not divide a power of 2
static const Bytes &raw() {
  static Bytes b;
  if (b.empty()) {
    b.resize(PIECE);
    Rng r(0x48554745);
    for (size_t i = 0; i < PIECE; i += 8) { u64 v = r.next(); memcpy(&b[i], &v, 8); }
  }
  return b;
}
static Bytes over(const Bytes &alpha) {
  Bytes t = raw();
  if (!alpha.empty()) for (auto &c : t) c = alpha[(u8)c % alpha.size()];
  return t;
}
struct Region {
  u8 *m;
  size_t n, total;
  Region(const Bytes &piece, u64 len) : n(len) {
    total = (len + 4095) / 4096 * 4096;
    if (W) note(fmt("%s of %llu bytes", piece.empty() ? "output" : "input", (unsigned long long)len));
    int fd = memfd_create("huge", 0);
    if (fd < 0 || ftruncate(fd, PIECE)) { perror("memfd"); _exit(3); }
    u8 *w = (u8 *)mmap(nullptr, PIECE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (w == MAP_FAILED) { perror("mmap"); _exit(3); }
    if (!piece.empty()) memcpy(w, piece.data(), PIECE);
    else memset(w, 0xa5, PIECE);
    munmap(w, PIECE);
    m = (u8 *)mmap(nullptr, total + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
    m += 4096;
    int prot = piece.empty() ? PROT_READ | PROT_WRITE : PROT_READ;
    for (size_t o = 0; o < total; o += PIECE)
      if (mmap(m + o, std::min(PIECE, total - o), prot, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(3); }
    close(fd);
  }
  ~Region() { munmap(m - 4096, total + 8192); }
  Bytes part(u64 from, u64 to) const { return Bytes((char *)m + from, to - from); }
};
// A call that needs more processor time than this does not return.
static void limit(int s) {
  itimerval t{{0, 0}, {s, 0}};
  setitimer(ITIMER_PROF, &t, nullptr);
}
template <class F> static void call(F f) {
  limit(150);
  errno = 0;
  lib(f);
  limit(0);
}
static const u64 POINT[3] = {(1ull << 29) - 8192, (1ull << 31) - 8192, (1ull << 32) - 8192};
struct Algo {
  const char *name;
  size_t block;
  Bytes (*f)(const Bytes &, const ref::Mid *);
  void (*more)(ref::Mid &, const Bytes &);
  bool mac;
};
static const Algo ALGO[] = {{"sha1", 64, ref::sha1, ref::sha1_more, false},       {"sha256", 64, ref::sha256, ref::sha256_more, false},
                            {"sha512", 128, ref::sha512, ref::sha512_more, false}, {"ripemd160", 64, ref::rmd160, ref::rmd160_more, false},
                            {"hmac256", 64, ref::sha256, ref::sha256_more, true},  {"hmac512", 128, ref::sha512, ref::sha512_more, true}};
static Bytes mackey(size_t block, u8 x) {
  Bytes k(block, 0);
  for (size_t i = 0; i < 32; i++) k[i] = raw()[i];
  for (auto &c : k) c ^= (char)x;
  return k;
}
#include "huge_mids.h"
void print_mids() {
  printf("// generated: driver mids\nstatic const char *const MIDS[6][3] = {\n");
  for (auto &a : ALGO) {
    ref::Mid m;
    Region r(raw(), 1ull << 32);
    if (a.mac) a.more(m, mackey(a.block, 0x36));
    printf("  {");
    u64 at = 0;
    for (u64 p : POINT) {
      while (at < p) {
        u64 n = std::min<u64>(p - at, 1u << 20);
        a.more(m, r.part(at, at + n));
        at += n;
      }
      printf("\"%s\", ", ref::hex(m.state).c_str());
      fflush(stdout);
    }
    printf("},\n");
  }
  printf("};\n");
}
static ref::Mid mid(int algo, int point) {
  ref::Mid m;
  ref::unhex(MIDS[algo][point], m.state);
  m.done = POINT[point] + (ALGO[algo].mac ? ALGO[algo].block : 0);
  return m;
}
static u64 near(Rng &r) { return 8192 + r.below(200) + (r.below(2) ? 0 : r.below(4000)) - 100; }
static u64 hash_len(Call &c, int &point) {
  u64 k = c.r.below(8);
  point = k < 6 ? 0 : k < 7 ? 1 : 2;
  if (c.size > 0 && c.size <= 3) point = (int)c.size - 1;
  return POINT[point] + near(c.r);
}
static Bytes huge_ref(int algo, int point, u64 n, const Region &r) {
  ref::Mid m = mid(algo, point);
  return ALGO[algo].f(r.part(POINT[point], n), &m);
}
static St huge_hash(Call &c, int algo, size_t dn, void (*f)(const void *, size_t, void *), Bytes (*after)(const Bytes &)) {
  int pt;
  u64 n = hash_len(c, pt);
  Region in(raw(), n);
  u8 *o = c.out(dn);
  call([&] { f(in.m, n, o); });
  Bytes want = huge_ref(algo, pt, n, in);
  if (after) want = after(want);
  expect(c.it.kind.c_str(), got(o, dn), want);
  probe("nontrivial");
  return DONE;
}
static St h_sha1(Call &c) { return huge_hash(c, 0, 20, fingera_sha1, nullptr); }
static St h_sha256(Call &c) { return huge_hash(c, 1, 32, fingera_sha2_256, nullptr); }
static St h_sha512(Call &c) { return huge_hash(c, 2, 64, fingera_sha2_512, nullptr); }
static St h_rmd(Call &c) { return huge_hash(c, 3, 20, fingera_ripemd160, nullptr); }
static St h_hash160(Call &c) { return huge_hash(c, 1, 20, fingera_btc_hash160, ref::rmd160); }
static St h_hash256(Call &c) { return huge_hash(c, 1, 32, fingera_btc_hash256, ref::sha256); }
static St h_mac(Call &c, bool wide) {
  int pt, plain = wide ? 2 : 1, mac = wide ? 5 : 4;
  size_t dn = wide ? 64 : 32;
  u64 n = hash_len(c, pt);
  Region in(raw(), n);
  u8 *o = c.out(dn);
  auto f = wide ? fingera_hmac_sha512 : fingera_hmac_sha256;
  Bytes want;
  if (c.r.below(2)) {  // the key
    Bytes m = c.data((long)c.r.below(300));
    const u8 *mi = c.in(m, "message");
    call([&] { f(in.m, n, mi, m.size(), o); });
    Bytes k = huge_ref(plain, pt, n, in);
    want = wide ? ref::hmac512(k, m) : ref::hmac256(k, m);
  } else {
    const u8 *ki = c.in(raw().substr(0, 32), "key");
    call([&] { f(ki, 32, in.m, n, o); });
    Bytes inner = huge_ref(mac, pt, n, in), okey = mackey(ALGO[mac].block, 0x5c);
    want = wide ? ref::sha512(okey + inner) : ref::sha256(okey + inner);
  }
  expect(c.it.kind.c_str(), got(o, dn), want);
  probe("nontrivial");
  return DONE;
}
static St h_hmac256(Call &c) { return h_mac(c, false); }
static St h_hmac512(Call &c) { return h_mac(c, true); }
static St h_d64(Call &c) {
  u64 n = (c.size || c.r.below(4) == 0 ? 1u << 25 : c.r.below(2) ? 1u << 16 : 600) + c.r.below(5000);  // to 2 GiB of input
  Region in(raw(), n * 64), out(Bytes(), n * 32);
  call([&] { fingera_btc_hash256_d64(out.m, in.m, n); });
  Bytes want;
  u64 from = n - 512;
  for (u64 k = from; k < n; k++) want += ref::hash256(in.part(k * 64, k * 64 + 64));
  expect("hash256_d64", out.part(from * 32, n * 32), want);
  probe("nontrivial");
  return DONE;
}

// in bytes -> out bytes, in groups; the last megabyte is compared
static u64 codec_len(Call &c, u64 in, u64 out) {
  u64 b = c.r.below(2) ? 1ull << 31 : 1ull << 32;
  if (c.r.below(2)) b = b / out * in;  // the output is the one that crosses it
  return b + c.r.below(60) + (c.r.below(2) ? 0 : c.r.below(4000));
}
static const u64 WINDOW = 1u << 20;
static void check_tail(Call &c, const Region &in, const Region &out, u64 gin, u64 gout, Bytes (*f)(const Bytes &)) {
  u64 g0 = (in.n - WINDOW) / gin;
  expect(c.it.kind.c_str(), out.part(g0 * gout, out.n), f(in.part(g0 * gin, in.n)));
  probe("nontrivial");
}
static St h_tohex(Call &c) {
  u64 n = codec_len(c, 1, 2), on = fingera_to_hex_length(n);
  expect_n("to_hex length", on, n * 2);
  Region in(raw(), n), out(Bytes(), on);
  call([&] { fingera_to_hex(in.m, n, (char *)out.m, 0); });
  check_tail(c, in, out, 1, 2, [](const Bytes &b) { return Bytes(ref::hex(b)); });
  return DONE;
}
static St h_unhex(Call &c) {
  u64 n = codec_len(c, 2, 1) & ~1ull, on = fingera_from_hex_length(n), rn;
  expect_n("from_hex length", on, n / 2);
  Region in(over("0123456789abcdefABCDEF"), n), out(Bytes(), on);
  call([&] { rn = fingera_from_hex((char *)in.m, n, out.m); });
  expect_n("from_hex result", rn, on);
  check_tail(c, in, out, 2, 1, [](const Bytes &b) { return ref::hexdec(b).bytes; });
  return DONE;
}
static const Bytes AN = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
static St h_b64(Call &c) {
  u64 n = codec_len(c, 3, 4);
  bool url = c.r.below(2);
  u64 on = url ? fingera_to_base64_urlsafe_length(n) : fingera_to_base64_length(n);
  expect_n("to_base64 length", on, url ? n / 3 * 4 + (n % 3 ? n % 3 + 1 : 0) : (n + 2) / 3 * 4);
  Region in(raw(), n), out(Bytes(), on);
  call([&] { url ? fingera_to_base64_urlsafe(in.m, n, (char *)out.m) : fingera_to_base64(in.m, n, (char *)out.m); });
  check_tail(c, in, out, 3, 4, url ? [](const Bytes &b) { return ref::b64enc(b, true); } : [](const Bytes &b) { return ref::b64enc(b, false); });
  return DONE;
}
static St h_unb64(Call &c) {
  u64 n = codec_len(c, 4, 3), rn;
  bool url = c.r.below(2);
  n -= n % 4;
  if (url && c.r.below(2)) n += 2 + c.r.below(2);
  Region in(over(AN + (url ? "-_" : "+/")), n);
  u64 on = url ? fingera_from_base64_urlsafe_length(n) : fingera_from_base64_length((char *)in.m, n);
  expect_n("from_base64 length", on, n / 4 * 3 + (n % 4 ? n % 4 - 1 : 0));
  Region out(Bytes(), on);
  call([&] { rn = url ? fingera_from_base64_urlsafe((char *)in.m, n, out.m) : fingera_from_base64((char *)in.m, n, out.m); });
  expect_n("from_base64 result", rn, on);
  check_tail(c, in, out, 4, 3, url ? [](const Bytes &b) { return ref::b64dec(b, true).bytes; } : [](const Bytes &b) { return ref::b64dec(b, false).bytes; });
  return DONE;
}
static St h_b32(Call &c) {
  u64 n = codec_len(c, 5, 8), on = fingera_to_base32_length(n);
  expect_n("to_base32 length", on, (n + 4) / 5 * 8);
  Region in(raw(), n), out(Bytes(), on);
  call([&] { fingera_to_base32(in.m, n, (char *)out.m); });
  check_tail(c, in, out, 5, 8, ref::b32enc);
  return DONE;
}
static St h_unb32(Call &c) {
  u64 n = codec_len(c, 8, 5), rn;
  n -= n % 8;
  Region in(over("abcdefghijklmnopqrstuvwxyz234567"), n);
  u64 on = fingera_from_base32_length((char *)in.m, n);
  expect_n("from_base32 length", on, n / 8 * 5);
  Region out(Bytes(), on);
  call([&] { rn = fingera_from_base32((char *)in.m, n, out.m); });
  expect_n("from_base32 result", rn, on);
  check_tail(c, in, out, 8, 5, [](const Bytes &b) { return ref::b32dec(b).bytes; });
  return DONE;
}
static St h_b32raw(Call &c) {
  u64 n = codec_len(c, 5, 8), on = (n * 8 + 4) / 5, rn;
  Region in(raw(), n), out(Bytes(), on);
  call([&] { rn = fingera_to_base32_raw(in.m, n, out.m); });
  expect_n("to_base32_raw length", rn, on);
  check_tail(c, in, out, 5, 8, ref::b32raw);
  return DONE;
}
static St h_unb32raw(Call &c) {
  u64 n = codec_len(c, 8, 5), rn;
  n -= n % 8;
  Bytes a;
  for (int i = 0; i < 32; i++) a += (char)i;
  u64 on = fingera_from_base32_raw_length(n);
  expect_n("from_base32_raw length", on, n / 8 * 5);
  Region in(over(a), n), out(Bytes(), on);
  call([&] { rn = fingera_from_base32_raw(in.m, n, out.m); });
  expect_n("from_base32_raw result", rn, on);
  check_tail(c, in, out, 8, 5, [](const Bytes &b) { return ref::b32rawdec(b).bytes; });
  return DONE;
}
// Base58 takes quadratic time: long is thousands of bytes.
static St h_b58(Call &c) {
  for (int k = 0; k < 3; k++) {
    Bytes m = c.r.bytes(c.r.range(5000, 10000));
    if (k) m = Bytes(c.r.below(40), 0) + Bytes(m.size(), (char)(k == 1 ? 0xff : 1));
    Bytes want = ref::b58enc(m);
    const u8 *i = c.in(m);
    u8 *o = c.out(fingera_to_base58_length(m.size()));
    size_t n, rn;
    call([&] { n = fingera_to_base58(i, m.size(), (char *)o); });
    expect("to_base58", got(o, n), want);
    const u8 *t = c.in(want, "text");
    u8 *d = c.out(fingera_from_base58_length(want.size()));
    call([&] { rn = fingera_from_base58((const char *)t, want.size(), d); });
    expect("from_base58", got(d, rn), m);
  }
  probe("nontrivial");
  return DONE;
}
// A dump is compared while it streams: its text repeats with the mapped piece.
static St h_dump(Call &c) {
  u64 n = c.size ? 1ull << 31 : 1ull << 32;  // each from one of the two workers: either takes long
  n += 1 + c.r.below(60) + (c.r.below(2) ? 0 : c.r.below(4000));
  int up = (int)c.r.below(2);
  Region in(raw(), n);
  static Bytes texts[2];
  Bytes &t = texts[up];
  if (t.empty()) {
    t = ref::hexdump(raw(), up);
    t.pop_back();
    t += "   \n";
  }
  u64 body = n / PIECE * t.size(), pos = 0, bad = ~0ull;
  Bytes tail = ref::hexdump(in.part(n / PIECE * PIECE, n), up);
  auto eat = [&](const char *b, size_t k) {
    while (k && bad == ~0ull) {
      const char *e = pos < body ? &t[pos % t.size()] : tail.data() + (pos - body);
      size_t l = std::min<u64>(k, pos < body ? t.size() - pos % t.size() : tail.size() - (pos - body));
      if (!l || memcmp(e, b, l)) { bad = pos; break; }
      pos += l; b += l; k -= l;
    }
    if (bad != ~0ull) fail("dump", fmt("a dump of %llu bytes is wrong near character %llu", (unsigned long long)n, (unsigned long long)bad));
  };
  flush_streams(cur->p);
  W->sys_limit = n;
  W->yield_limit = ~0ull;  // the limit on processor time is enough
  cur->p->mo.sink = eat;
  call([&] { fingera_hex_dump(in.m, n, up); });
  flush_streams(cur->p);
  cur->p->mo.sink = nullptr;
  if (pos != body + tail.size()) fail("dump", fmt("%llu of %llu characters of a dump of %llu bytes arrived", (unsigned long long)pos, (unsigned long long)(body + tail.size()), (unsigned long long)n));
  probe("nontrivial");
  return DONE;
}
const std::vector<std::pair<std::string, OpDef>> &huge_ops() {
  static const std::vector<std::pair<std::string, OpDef>> v = {
      {"huge_sha1", {h_sha1, false, "hugehash", 1, 1}},         {"huge_sha256", {h_sha256, false, "hugehash", 1, 1}},
      {"huge_sha512", {h_sha512, false, "hugehash", 1, 1}},     {"huge_ripemd160", {h_rmd, false, "hugehash", 1, 1}},
      {"huge_hmac256", {h_hmac256, false, "hugehash", 1, 1}},   {"huge_hmac512", {h_hmac512, false, "hugehash", 1, 1}},
      {"huge_hash160", {h_hash160, false, "hugehash", 1, 1}},   {"huge_hash256", {h_hash256, false, "hugehash", 1, 1}},
      {"huge_d64", {h_d64, false, "hugehash", 1, 1}},           {"huge_hex", {h_tohex, false, "hugecodec", 1, 1}},
      {"long_base58", {h_b58, false, "hugecodec", 1, 1}},
      {"huge_unhex", {h_unhex, false, "hugecodec", 1, 1}},      {"huge_base64", {h_b64, false, "hugecodec", 1, 1}},
      {"huge_unbase64", {h_unb64, false, "hugecodec", 1, 1}},   {"huge_base32", {h_b32, false, "hugecodec", 1, 1}},
      {"huge_unbase32", {h_unb32, false, "hugecodec", 1, 1}},   {"huge_base32raw", {h_b32raw, false, "hugecodec", 1, 1}},
      {"huge_dump", {h_dump, false, "hugedump", 1, 1}},
      {"huge_unbase32raw", {h_unb32raw, false, "hugecodec", 1, 1}}};
  return v;
}
