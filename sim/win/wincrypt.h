#pragma once
#include "windows.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef ULONG_PTR HCRYPTPROV;
#define PROV_RSA_FULL 1u
#define PROV_RSA_AES 24u
#define CRYPT_VERIFYCONTEXT 0xF0000000u
#define CRYPT_NEWKEYSET 8u
#define CRYPT_SILENT 0x40u
#define MS_DEF_PROV_W L"Microsoft Base Cryptographic Provider v1.0"
BOOL CryptAcquireContextW(HCRYPTPROV *h, LPCWSTR container, LPCWSTR provider, DWORD type, DWORD flags);
BOOL CryptAcquireContextA(HCRYPTPROV *h, LPCSTR container, LPCSTR provider, DWORD type, DWORD flags);
BOOL CryptGenRandom(HCRYPTPROV h, DWORD n, BYTE *buf);
BOOL CryptReleaseContext(HCRYPTPROV h, DWORD flags);
#ifdef UNICODE
#define CryptAcquireContext CryptAcquireContextW
#else
#define CryptAcquireContext CryptAcquireContextA
#endif
#ifdef __cplusplus
}
#endif
