// The functions that the library defines in its headers, compiled like the rest
// of the library: instrumented, and with its options.
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/bech32.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/endian.h>
#include <fingera_libc/hex.h>
#define A(n) \
  size_t sim_inl_##n(size_t a) { return fingera_##n(a); }
#define B(n) \
  size_t sim_inl_##n(size_t a, size_t b) { return fingera_##n(a, b); }
#define T(n) \
  size_t sim_inl_##n(const char *s, size_t a) { return fingera_##n(s, a); }
#define Z(n) \
  size_t sim_inl_##n(void) { return fingera_##n(); }
#include "inl.def"
uint64_t sim_inl_endian(int which, void *mem, size_t off, uint64_t v) {
  switch (which) {
    case 0: return read_little_32(mem);
    case 1: return read_little_64(mem);
    case 2: return read_big_32(mem);
    case 3: return read_big_64(mem);
    case 4: return le32(mem, off);
    case 5: return le64(mem, off);
    case 6: return be32(mem, off);
    case 7: return be64(mem, off);
    case 8: write_little_32(mem, (uint32_t)v); return 0;
    case 9: write_big_32(mem, (uint32_t)v); return 0;
    case 10: { uint16_t x = htobe16((uint16_t)v); memcpy(mem, &x, 2); return 0; }
    case 11: { uint16_t x = htole16((uint16_t)v); memcpy(mem, &x, 2); return 0; }
    case 12: { uint32_t x = htobe32((uint32_t)v); memcpy(mem, &x, 4); return 0; }
    case 13: { uint32_t x = htole32((uint32_t)v); memcpy(mem, &x, 4); return 0; }
    case 14: { uint64_t x = htobe64(v); memcpy(mem, &x, 8); return 0; }
    case 15: { uint64_t x = htole64(v); memcpy(mem, &x, 8); return 0; }
    case 16: { uint16_t x; memcpy(&x, mem, 2); return (uint16_t)be16toh(x); }
    case 17: { uint16_t x; memcpy(&x, mem, 2); return (uint16_t)le16toh(x); }
    case 18: { uint32_t x; memcpy(&x, mem, 4); return be32toh(x); }
    case 19: { uint32_t x; memcpy(&x, mem, 4); return le32toh(x); }
    case 20: { uint64_t x; memcpy(&x, mem, 8); return be64toh(x); }
    default: { uint64_t x; memcpy(&x, mem, 8); return le64toh(x); }
  }
}
