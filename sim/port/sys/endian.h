/* Stand-in for <sys/endian.h> of OpenBSD and of FreeBSD, NetBSD and DragonFly,
   on a little-endian machine, after byteorder(9) and htobe64(3). */
#ifndef SIM_SYS_ENDIAN_H
#define SIM_SYS_ENDIAN_H
#include <stdint.h>
#include <sys/types.h>
#undef htobe16
#undef htobe32
#undef htobe64
#undef htole16
#undef htole32
#undef htole64
#undef be16toh
#undef be32toh
#undef be64toh
#undef le16toh
#undef le32toh
#undef le64toh
#define bswap16(x) __builtin_bswap16(x)
#define bswap32(x) __builtin_bswap32(x)
#define bswap64(x) __builtin_bswap64(x)
#define htobe16(x) bswap16((uint16_t)(x))
#define htobe32(x) bswap32((uint32_t)(x))
#define htobe64(x) bswap64((uint64_t)(x))
#define htole16(x) ((uint16_t)(x))
#define htole32(x) ((uint32_t)(x))
#define htole64(x) ((uint64_t)(x))
#define be16toh(x) bswap16((uint16_t)(x))
#define be32toh(x) bswap32((uint32_t)(x))
#define be64toh(x) bswap64((uint64_t)(x))
#define le16toh(x) ((uint16_t)(x))
#define le32toh(x) ((uint32_t)(x))
#define le64toh(x) ((uint64_t)(x))
#ifdef __OpenBSD__
#define betoh16(x) bswap16((uint16_t)(x))
#define betoh32(x) bswap32((uint32_t)(x))
#define betoh64(x) bswap64((uint64_t)(x))
#define letoh16(x) ((uint16_t)(x))
#define letoh32(x) ((uint32_t)(x))
#define letoh64(x) ((uint64_t)(x))
#endif
#endif
