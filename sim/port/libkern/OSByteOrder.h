/* Stand-in for Apple's <libkern/OSByteOrder.h> on a little-endian machine. */
#ifndef SIM_OSBYTEORDER_H
#define SIM_OSBYTEORDER_H
#include <stdint.h>
#include <sys/types.h>
/* numbers, as Apple's <machine/endian.h> and MinGW's <sys/param.h> have them: the library
   defines __BYTE_ORDER by them, and glibc defines them by __BYTE_ORDER */
#include <endian.h>
#undef __BYTE_ORDER
#undef __LITTLE_ENDIAN
#undef __BIG_ENDIAN
#undef __PDP_ENDIAN
#undef BYTE_ORDER
#undef LITTLE_ENDIAN
#undef BIG_ENDIAN
#undef PDP_ENDIAN
#define LITTLE_ENDIAN 1234
#define BIG_ENDIAN 4321
#define PDP_ENDIAN 3412
#define BYTE_ORDER LITTLE_ENDIAN
#undef htobe16
#undef htobe32
#undef htobe64
#undef htole16
#undef htole32
#undef htole64
#undef be16toh
#undef be32toh
#undef be64toh
#undef le16toh
#undef le32toh
#undef le64toh
#define OSSwapConstInt16(x) ((uint16_t)__builtin_bswap16((uint16_t)(x)))
#define OSSwapConstInt32(x) ((uint32_t)__builtin_bswap32((uint32_t)(x)))
#define OSSwapConstInt64(x) ((uint64_t)__builtin_bswap64((uint64_t)(x)))
#define OSSwapInt16(x) OSSwapConstInt16(x)
#define OSSwapInt32(x) OSSwapConstInt32(x)
#define OSSwapInt64(x) OSSwapConstInt64(x)
#define OSSwapHostToBigInt16(x) OSSwapInt16(x)
#define OSSwapHostToBigInt32(x) OSSwapInt32(x)
#define OSSwapHostToBigInt64(x) OSSwapInt64(x)
#define OSSwapHostToLittleInt16(x) ((uint16_t)(x))
#define OSSwapHostToLittleInt32(x) ((uint32_t)(x))
#define OSSwapHostToLittleInt64(x) ((uint64_t)(x))
#define OSSwapBigToHostInt16(x) OSSwapInt16(x)
#define OSSwapBigToHostInt32(x) OSSwapInt32(x)
#define OSSwapBigToHostInt64(x) OSSwapInt64(x)
#define OSSwapLittleToHostInt16(x) ((uint16_t)(x))
#define OSSwapLittleToHostInt32(x) ((uint32_t)(x))
#define OSSwapLittleToHostInt64(x) ((uint64_t)(x))
#endif
