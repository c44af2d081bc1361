// A stand-in for the Windows headers: what the library's Windows branches need,
// with Windows' sizes (a DWORD has 32 bits). The functions are the simulator's.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <wchar.h>
#ifdef __cplusplus
extern "C" {
#endif
#define WINAPI
#define APIENTRY
#define CALLBACK
#define VOID void
#define CONST const
typedef uint32_t DWORD, ULONG, UINT, *PDWORD, *LPDWORD, *PULONG;
typedef int32_t LONG, BOOL, NTSTATUS, INT, HRESULT;
typedef uint16_t WORD, USHORT, LANGID;
typedef uint8_t BYTE, UCHAR, BOOLEAN, *PBYTE, *LPBYTE, *PUCHAR;
typedef char CHAR, *LPSTR, *PSTR;
typedef const char *LPCSTR, *PCSTR;
typedef wchar_t WCHAR, *LPWSTR, *PWSTR;
typedef const wchar_t *LPCWSTR, *PCWSTR;
typedef void *LPVOID, *PVOID, *HANDLE, *HLOCAL, *HMODULE;
typedef const void *LPCVOID;
typedef size_t SIZE_T, ULONG_PTR, DWORD_PTR;
typedef unsigned long long ULONGLONG;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define MAXDWORD 0xffffffffu
#define ULONG_MAX_WIN 0xffffffffu
#define ERROR_SUCCESS 0u
#define NO_ERROR 0u
#define ERROR_INVALID_HANDLE 6u
#define ERROR_NOT_ENOUGH_MEMORY 8u
#define ERROR_INVALID_PARAMETER 87u
#define FORMAT_MESSAGE_ALLOCATE_BUFFER 0x100u
#define FORMAT_MESSAGE_IGNORE_INSERTS 0x200u
#define FORMAT_MESSAGE_FROM_STRING 0x400u
#define FORMAT_MESSAGE_FROM_HMODULE 0x800u
#define FORMAT_MESSAGE_FROM_SYSTEM 0x1000u
#define FORMAT_MESSAGE_ARGUMENT_ARRAY 0x2000u
#define FORMAT_MESSAGE_MAX_WIDTH_MASK 0xffu
#define LANG_NEUTRAL 0
#define SUBLANG_NEUTRAL 0
#define SUBLANG_DEFAULT 1
#define MAKELANGID(p, s) ((WORD)(((WORD)(s) << 10) | (WORD)(p)))
DWORD GetLastError(void);
void SetLastError(DWORD);
DWORD FormatMessageA(DWORD flags, LPCVOID source, DWORD id, DWORD lang, LPSTR buffer, DWORD size, void *args);
HLOCAL LocalFree(HLOCAL);
void *LocalAlloc(UINT flags, SIZE_T n);
static inline void *SecureZeroMemory(void *p, SIZE_T n) {
  volatile char *v = (volatile char *)p;
  while (n--) *v++ = 0;
  return p;
}
#define RtlSecureZeroMemory SecureZeroMemory
#define ZeroMemory(p, n) memset((p), 0, (n))
#define CopyMemory(d, s, n) memcpy((d), (s), (n))
BOOLEAN SystemFunction036(PVOID, ULONG);
#define RtlGenRandom SystemFunction036
#ifdef __cplusplus
}
#endif
