// Operations: one call (or a short exchange of calls) into the library with
// generated arguments, checked against the reference models.
#pragma once
#include "engine.h"
#include "ref.h"

enum St { DONE, FAILED };  // FAILED: the call reported failure
struct Block {
  u8 *mem;
  size_t total, off, n;
  Bytes orig;
  bool input;
  std::string what;
};
struct Call {
  const Item &it;
  Rng r;
  long size;
  bool can_fail = false;  // set by the op: a FAILED result needs a malloc fault
  std::vector<Block> blocks;
  explicit Call(const Item &i) : it(i), r(i.seed), size(i.size) {}
  ~Call();
  u8 *in(const Bytes &b, const char *what = "input");
  u8 *out(size_t n, const char *what = "output");
  u8 *inout(const Bytes &b);
  void verify();  // inputs unchanged, nothing written around outputs
  void secret(const Bytes &b);
  Bytes data(long n);
  Bytes key();      // a valid private key
  Bytes b32();      // a hash or chain code
  u32 child();
};
struct OpDef {
  St (*fn)(Call &);
  bool needs_key;
  const char *group;  // hash, codec, text, key, dec, rand, gen
  int weight;
  long maxsize;       // bound of the interesting range of `size`
};
extern const std::map<std::string, OpDef> OPS;
Bytes got(const void *p, size_t n);
void expect(const char *what, const Bytes &have, const Bytes &want);
void expect_n(const char *what, u64 have, u64 want);
// Runs an item's operation including the retry after a reported failure.
void run_op(const Item &it);
void do_trace(const Item &it);
std::vector<std::string> op_group(const std::vector<std::string> &groups);
std::string pick_op(Rng &r, const std::vector<std::string> &names);
Item make_op(Rng &r, int id, int lane, int epoch, const std::string &kind);

// networks
struct NetP;  // chain_parameters wrapper
struct Network {
  ref::Net n;
  const void *cp;  // chain_parameters *
};
Network std_net(int i);                 // 0 main 1 test 2 reg: the library's own tables
Network custom_net(Rng &r, bool any_hrp = false);  // valid until world_end
Bytes rand_payload(Rng &r, size_t n);
Bytes strange_sum(Rng &r, const Bytes &t);
Bytes strange_text(Rng &r, Bytes t);
