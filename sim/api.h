// One library call each, on guarded buffers, with plain results: what the
// nodes of the simulated worlds use. To be called from a task with an item.
#pragma once
#include "ops.h"
namespace api {
Bytes addr_enc(ref::Kind k, const Bytes &payload, const Network &w);
ref::Kind addr_dec(const Bytes &text, const Network &w, Bytes &payload);
Bytes wif_enc(const Bytes &key, bool comp, const Network &w);
bool wif_dec(const Bytes &text, const Network &w, Bytes &key, int &comp);
Bytes x_enc(const ref::XKey &x, bool priv, const Network &w);
bool x_dec(const Bytes &text, bool priv, const Network &w, ref::XKey &x);
Bytes x74_enc(const ref::XKey &x, bool priv);
ref::XKey x74_dec(const Bytes &raw, bool priv);
Bytes der_enc(const Bytes &key, bool comp);
bool der_dec(const Bytes &der, Bytes &key);
Bytes get_pub(const Bytes &key);                 // 64 bytes
Bytes pub_enc(const Bytes &p64, bool comp);
bool pub_dec(const Bytes &enc, Bytes &p64);
Bytes sign(const Bytes &key, const Bytes &hash); // 64 bytes
Bytes sig_enc(const Bytes &s64);
bool sig_dec(const Bytes &der, Bytes &s64);
bool verify(const Bytes &p64, const Bytes &hash, const Bytes &s64);
ref::XKey master(const Bytes &seed);
bool ckd_priv(const ref::XKey &x, u32 child, u32 fp, ref::XKey &o);
bool ckd_pub(const ref::XKey &x, u32 child, u32 fp, ref::XKey &o);
ref::XKey neuter(const ref::XKey &x);
u32 fingerprint(const Bytes &pub33);
Bytes key_new();
Bytes int_enc(bool sgn, u64 v);
size_t int_dec(bool sgn, const Bytes &b, u64 &v);
bool derive_pub(const Bytes &p33, const Bytes &cc, u32 child, Bytes &o33, Bytes &occ);
bool derive_priv(const Bytes &k, const Bytes &cc, u32 child, Bytes &o, Bytes &occ);
}  // namespace api
