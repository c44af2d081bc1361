#pragma once
#include_next <stdlib.h>
#include <stdint.h>
/* numbers, as Apple's <machine/endian.h> and MinGW's <sys/param.h> have them: the library
   defines __BYTE_ORDER by them, and glibc defines them by __BYTE_ORDER */
#include <endian.h>
#undef __BYTE_ORDER
#undef __LITTLE_ENDIAN
#undef __BIG_ENDIAN
#undef __PDP_ENDIAN
#undef BYTE_ORDER
#undef LITTLE_ENDIAN
#undef BIG_ENDIAN
#undef PDP_ENDIAN
#define LITTLE_ENDIAN 1234
#define BIG_ENDIAN 4321
#define PDP_ENDIAN 3412
#define BYTE_ORDER LITTLE_ENDIAN
static inline uint16_t _byteswap_ushort(uint16_t x) { return __builtin_bswap16(x); }
static inline uint32_t _byteswap_ulong(uint32_t x) { return __builtin_bswap32(x); }
static inline uint64_t _byteswap_uint64(uint64_t x) { return __builtin_bswap64(x); }
