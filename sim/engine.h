// Deterministic simulator core: coroutines, seeded scheduler, simulated
// processes (globals, heap, descriptors, standard streams), fault injection.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>
typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
using Bytes = std::string;

inline u64 mix64(u64 x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline u64 hmix(u64 a, u64 b) { return mix64(a * 0x2545F4914F6CDD1Dull + mix64(b)); }
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(mix64(seed ^ 0x51ed2701a3b5c7d9ull)) {}
  u64 next() { return mix64(s += 0x9E3779B97F4A7C15ull); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
  bool chance(double p) { return (double)(next() >> 11) / 9007199254740992.0 < p; }
  Bytes bytes(size_t n) {
    Bytes b(n, 0);
    for (auto &c : b) c = (char)next();
    return b;
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ------------------------------------------------------------------- plans
struct Item {
  int id = 0, lane = 0, epoch = 0;
  std::string kind;
  u64 seed = 0;
  long size = 0;
};
struct Fault {  // a fault that fired (recorded) or must fire (explicit plan)
  int item;
  std::string kind;
  u64 ord;
  u64 param;
  bool operator<(const Fault &o) const {
    return item != o.item ? item < o.item : kind != o.kind ? kind < o.kind : ord < o.ord;
  }
};
struct Switch {
  int task;
  u64 ord;
  int next;
};
struct Plan {
  std::string prop, variant;
  u64 seed = 0;
  std::map<std::string, long> knob;
  std::vector<Item> items;
  bool explicit_mode = false;
  std::vector<Fault> faults;
  std::vector<Switch> switches;
  long k(const char *n, long d = 0) const {
    auto it = knob.find(n);
    return it == knob.end() ? d : it->second;
  }
  std::string save() const;
  bool load(const std::string &text, std::string &err);
};

// --------------------------------------------------------------- violations
struct Violation {
  bool set = false;
  std::string cls, detail;
  int item = -1;
};

// ------------------------------------------------------ simulated processes
struct Chunk {  // one delivery of the entropy source
  u64 serial;
  int proc, task, item;
  u64 call;  // serial of the API call it was delivered in
  const u8 *dst;
  u64 len;
  Bytes data;  // empty for huge deliveries
};
struct StreamModel {  // what stands behind standard output / error
  Bytes data;         // what arrived
  u64 failed = 0;     // failed or short writes
  u64 writes = 0;
  bool dead = false;  // every further write fails
  int dead_errno = 0;
  std::function<void(const char *, size_t)> sink;  // takes the bytes instead of `data`
};
struct HeapBlock {
  size_t size;
  u64 call;
  int item;
  bool base;  // allocated while initialising
};
struct FdEnt {
  bool lib = false;  // opened by the library
  int kind = 0;      // 1 random source, 2 foreign file
  int item = -1;
  u64 open_serial = 0;
};
struct Task;
struct Proc {
  int id = 0, node = 0;
  std::string data, bss;  // library globals while not running
  std::map<void *, HeapBlock> heap;
  std::map<int, FdEnt> fds;
  FILE *out = nullptr, *err = nullptr;
  StreamModel mo, me;
  bool alive = true, exited = false;
  int code = 0;
  std::string why;  // exit, abort, assert, crash
  int exit_item = -1;
  bool inited = false;
  std::map<std::string, int> exit_fired;  // faults of the item that ended it
  std::vector<void (*)()> atexit_fns;
  std::map<const void *, std::pair<u64, Bytes>> ctx_seed;  // secp context -> call serial, blinding seed
  std::map<const void *, int> locks;                // simulated mutexes: owner task id + 1
  std::map<const void *, int> onces;
  std::vector<Task *> tasks;
  std::map<int, std::map<void *, std::pair<void *, size_t>>> thread_tls;  // of threads that wait for work
  u64 pid = 0;
  int locale = 0;      // as setlocale has left it
  std::vector<u32> win_codes;  // errors that Windows functions have reported
};
// What the library's own code does in one call: blocks it enters, addresses it
// touches, memory it asks for. Addresses in blocks allocated by the call count
// from the block's start.
struct Trace {
  struct Ev { u64 what; void *pc; };
  std::vector<Ev> ev;
  std::map<const u8 *, std::pair<size_t, u64>> blk;
  u64 nblk = 0, attempts = 0;
};
struct Task {
  Trace *trace = nullptr;
  int id = 0;
  int thread = -1;                  // runs on this long-lived thread of its process
  Proc *p = nullptr;
  void *sp = nullptr;
  u8 *stack = nullptr, *aux = nullptr;
  bool aux_busy = false, in_lib = false, done = false, dead = false;
  const void *blocked = nullptr;  // mutex it waits for
  u64 yields = 0;
  int err = 0;
  std::function<void()> fn;
  std::map<void *, std::pair<void *, size_t>> tls;
  const Item *item = nullptr;
  u64 call = 0;  // serial of the current API call
  u64 call_yield0 = 0, call_sys = 0;
  std::map<std::string, u64> ord;    // fault ordinals of the current item
  std::map<std::string, int> fired;  // faults that fired in the current call
  bool nofault = false;
  std::vector<Bytes> secrets;        // windows are looked for in dead memory
  std::vector<std::string> leftovers;
  void *pthread_keys = nullptr;
  u64 draw_off = 0;                  // bytes of entropy this item has consumed
  const u8 *huge = nullptr;          // a huge request is being filled: where, how much
  u64 huge_n = 0, huge_pos = 0;
  u64 forced_serial = 0;
  u32 last_error = 0;                // Windows
  char errbuf[64];                   // strerror's, one per thread
};

struct Stats {
  std::map<std::string, u64> fired, offered, probes, ops;
  u64 yields = 0, switches = 0, syscalls = 0, mallocs = 0, calls = 0;
  u64 simtime_ms = 0;
};

struct World {
  Plan *plan = nullptr;
  std::vector<Proc *> procs;
  std::vector<Task *> tasks;
  Violation viol;
  std::vector<Fault> fired;
  std::vector<Switch> switches;
  std::map<std::pair<int, std::string>, std::map<u64, u64>> xf;  // explicit faults
  std::map<std::pair<int, u64>, int> xs;                         // explicit switches
  std::map<int, std::vector<u64>> xsord;
  Rng sched{1};
  double rate(const char *kind) const;
  std::map<std::string, double> rates;
  long mean_gap = 0;    // 0: never preempt
  int boost = 0;        // percent chance at accesses to library globals
  u64 hash = 1469598103934665603ull;
  u64 ihash = 1469598103934665603ull;  // interleaving only
  std::vector<Chunk> chunks;
  u64 serial = 0, consecutive = 0;
  u64 now = 0;  // simulated milliseconds
  Stats st;
  bool strip_trace = true;
  std::vector<std::string> log;
  int paint = 0;
  u64 yield_limit = 100000000, sys_limit = 20000;
  bool hygiene = false;
  std::vector<void *> scratch;  // blocks owned by operations
  struct Slots { u8 *mem = nullptr; size_t used = 0; int live = 0; };
  std::map<int, Slots> slots;   // buffers that keep their addresses from call to call
  u64 family = 0;               // nonzero: arguments are related to each other
  bool slotted = false;
};
extern World *W;
extern Task *cur;        // running task or null
extern Proc *curp;       // process whose globals are loaded

void note(const std::string &s);            // into the trace hash and the log
void fail(const std::string &cls, const std::string &detail);
void probe(const char *name);
// Does a fault of this kind fire now, in the current item? `param` is a
// deterministic random number that describes it.
bool fault(const char *kind, double p, u64 *param = nullptr);
u64 draw(const char *kind);  // deterministic number without being a fault

Proc *new_proc(int node = 0);
void free_proc(Proc *);
Task *new_task(Proc *, std::function<void()> fn, int thread = -1);
void threads_begin();
void run_tasks(const std::vector<Task *> &ts);  // until all finished or dead
[[noreturn]] void proc_exit(int code, const char *why);
void kill_proc(Proc *p, const char *why);  // crash from outside
void call_begin();
void call_end(void *sp);
// Runs a call into the library.
void lib_call_impl(void (*f)(void *), void *arg);
template <class F> void lib(F f) {
  lib_call_impl([](void *a) { (*(F *)a)(); }, &f);
}
void progress();
void on_aux_impl(void (*f)(void *), void *arg);
template <class F> auto on_aux(F f) -> decltype(f()) {
  typedef decltype(f()) R;
  if constexpr (std::is_void<R>::value) {
    on_aux_impl([](void *a) { (*(F *)a)(); }, &f);
  } else {
    struct P { F *f; R r; } p{&f, R()};
    on_aux_impl([](void *a) { ((P *)a)->r = (*((P *)a)->f)(); }, &p);
    return p.r;
  }
}
void yield_point();  // explicit yield inside hooks
void engine_init();
void world_begin(Plan &p);
void world_end();
extern u8 *cov_map;
extern u32 cov_n, cov_hit;
Bytes stale(size_t n);  // pattern for stale memory
bool in_sim();
std::string win_text(u32 id);  // Windows' text for an error number
std::string hexs(const Bytes &b, size_t max = 64);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
void flush_streams(Proc *p);
void set_crash(u64 after_yields);
u64 now_yields();
extern int tracing;   // number of tasks with a trace
void trace_event(int type, u64 v, void *pc);
u64 trace_addr(const void *a);
void begin_item(const Item &it);  // in a task: everything that follows belongs to this item
extern u64 lib_lo, lib_hi;
