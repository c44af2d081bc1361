// After the library's headers: calls of the functions below go through the
// instrumented copies of inl.c, as calls into the library.
#pragma once
#include "engine.h"
extern "C" {
#define A(n) size_t sim_inl_##n(size_t);
#define B(n) size_t sim_inl_##n(size_t, size_t);
#define T(n) size_t sim_inl_##n(const char *, size_t);
#define Z(n) size_t sim_inl_##n(void);
uint64_t sim_inl_endian(int which, void *mem, size_t off, uint64_t v);
#include "inl.def"
#undef A
#undef B
#undef T
#undef Z
}
template <class R, class... P, class... X> R sim_inl(R (*f)(P...), X... x) {
  if (!cur || cur->in_lib) return f(x...);
  R r;
  lib([&] { r = f(x...); });
  return r;
}
#define fingera_to_hex_length(...) sim_inl(sim_inl_to_hex_length, ##__VA_ARGS__)
#define fingera_from_hex_length(...) sim_inl(sim_inl_from_hex_length, ##__VA_ARGS__)
#define fingera_to_base64_length(...) sim_inl(sim_inl_to_base64_length, ##__VA_ARGS__)
#define fingera_to_base64_urlsafe_length(...) sim_inl(sim_inl_to_base64_urlsafe_length, ##__VA_ARGS__)
#define fingera_from_base64_urlsafe_length(...) sim_inl(sim_inl_from_base64_urlsafe_length, ##__VA_ARGS__)
#define fingera_from_base64_length(...) sim_inl(sim_inl_from_base64_length, ##__VA_ARGS__)
#define fingera_to_base32_length(...) sim_inl(sim_inl_to_base32_length, ##__VA_ARGS__)
#define fingera_from_base32_raw_length(...) sim_inl(sim_inl_from_base32_raw_length, ##__VA_ARGS__)
#define fingera_from_base32_length(...) sim_inl(sim_inl_from_base32_length, ##__VA_ARGS__)
#define fingera_to_base58_length(...) sim_inl(sim_inl_to_base58_length, ##__VA_ARGS__)
#define fingera_from_base58_length(...) sim_inl(sim_inl_from_base58_length, ##__VA_ARGS__)
#define fingera_to_base58_check_length(...) sim_inl(sim_inl_to_base58_check_length, ##__VA_ARGS__)
#define fingera_from_base58_check_length(...) sim_inl(sim_inl_from_base58_check_length, ##__VA_ARGS__)
#define fingera_bech32_encode_length(...) sim_inl(sim_inl_bech32_encode_length, ##__VA_ARGS__)
#define fingera_key_string_max_length(...) sim_inl(sim_inl_key_string_max_length, ##__VA_ARGS__)
#define fingera_exkey_string_max_length(...) sim_inl(sim_inl_exkey_string_max_length, ##__VA_ARGS__)
