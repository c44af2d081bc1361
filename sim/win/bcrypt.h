#pragma once
#include "windows.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef PVOID BCRYPT_HANDLE, BCRYPT_ALG_HANDLE;
#define BCRYPT_RNG_ALGORITHM L"RNG"
#define BCRYPT_RNG_FIPS186_DSA_ALGORITHM L"FIPS186DSARNG"
#define BCRYPT_RNG_USE_ENTROPY_IN_BUFFER 1u
#define BCRYPT_USE_SYSTEM_PREFERRED_RNG 2u
#define MS_PRIMITIVE_PROVIDER L"Microsoft Primitive Provider"
#define BCRYPT_SUCCESS(s) (((NTSTATUS)(s)) >= 0)
#define NT_SUCCESS(s) (((NTSTATUS)(s)) >= 0)
NTSTATUS BCryptOpenAlgorithmProvider(BCRYPT_ALG_HANDLE *h, LPCWSTR alg, LPCWSTR impl, ULONG flags);
NTSTATUS BCryptGenRandom(BCRYPT_ALG_HANDLE h, PUCHAR buf, ULONG n, ULONG flags);
NTSTATUS BCryptCloseAlgorithmProvider(BCRYPT_ALG_HANDLE h, ULONG flags);
#ifdef __cplusplus
}
#endif
