// Seams: every function through which the library touches its environment.
// `sim_h_X` replaces the library's reference to X (objcopy --redefine-sym).
#include "engine.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <cwchar>
#include <pthread.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sanitizer/asan_interface.h>
#include <secp256k1.h>
#include <algorithm>
#include <ctype.h>
#include <strings.h>
#include <unistd.h>

extern "C" {
FILE *sim_stdout, *sim_stderr;
}
#define sim_h_stdout_is sim_stdout
void scan_free(const void *p, size_t n);
void block_on(const void *m);
void wake(Proc *p, const void *m);

static u64 sys_limit() { return W->plan->k("crawl") ? 1000000 : cur->huge ? std::max(W->sys_limit, (u64)cur->huge_n / 32) : W->sys_limit; }
static void sysc() {
  W->st.syscalls++;
  if (++cur->call_sys > sys_limit()) fail("hang", "call keeps making system calls and does not return");
  yield_point();
}
std::string win_text(u32 id) { return fmt("The system describes case %08x with 100%%1 words.\r\n", id); }
static void noise() {
  u64 q;
  static const int es[] = {EINTR, EAGAIN, ENOTTY, EINVAL, ENOENT, ENOMEM};
  if (fault("errno_noise", -1, &q)) errno = es[q % 6];
}
// ------------------------------------------------------------------- memory
static void need(const void *p, size_t n, const char *what, bool write) {
  if (!n) return;
  void *bad = __asan_region_is_poisoned((void *)p, n);
  if (!bad) return;
  // let the sanitizer describe it: touch the byte through an instrumented access
  __asan_report_error((void *)__builtin_return_address(0), __builtin_frame_address(0), __builtin_frame_address(0), bad, write, 1);
  (void)what;
}
static void trace_range(const void *p, size_t n, void *pc) {
  trace_event(1, (u64)p, pc);
  trace_event(4, n, pc);
}
static void lib_yield_mid() { yield_point(); }

extern "C" {
void *sim_h_malloc(size_t n) {
  if (!in_sim()) return malloc(n);
  return on_aux([n]() -> void * {
    yield_point();
    W->st.mallocs++;
    if (n > (1u << 30)) {
      cur->fired["malloc"]++;
      errno = ENOMEM;
      return nullptr;
    }
    u64 q;
    if (cur->fired.count("mem_out") || fault("malloc", -1, &q)) {
      if (W->plan->k("mem_stay")) cur->fired["mem_out"]++;
      errno = ENOMEM;
      return nullptr;
    }
    void *p = malloc(n);
    Bytes s = stale(n);
    memcpy(p, s.data(), n);
    cur->p->heap[p] = {n, cur->call, cur->item ? cur->item->id : -1, false};
    if (cur->trace) {
      trace_event(2, n, nullptr);
      cur->trace->blk[(u8 *)p] = {n, ++cur->trace->nblk};
    }
    noise();
    return p;
  });
}
void sim_h_free(void *p) {
  if (!in_sim()) { free(p); return; }
  if (!p) return;
  on_aux([p] {
    int e = errno;
    yield_point();
    auto it = cur->p->heap.find(p);
    if (it == cur->p->heap.end()) fail("bad-free", "the library frees a block it does not own (or frees it twice)");
    scan_free(p, it->second.size);
    if (cur->trace) {
      trace_event(3, trace_addr(p), nullptr);
      cur->trace->blk.erase((u8 *)p);
    }
    cur->p->heap.erase(it);
    free(p);
    errno = e;
  });
}
void *sim_h_calloc(size_t a, size_t b) {
  if (!in_sim()) return calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void *p = sim_h_malloc(n);
  if (p) memset(p, 0, n);
  return p;
}
void *sim_h_realloc(void *p, size_t n) {
  if (!in_sim()) return realloc(p, n);
  if (!p) return sim_h_malloc(n);
  if (!n) { sim_h_free(p); return nullptr; }
  auto it = cur->p->heap.find(p);
  if (it == cur->p->heap.end()) fail("bad-free", "the library reallocates a block it does not own");
  size_t old = it->second.size;
  void *q = sim_h_malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, std::min(old, n));
  sim_h_free(p);
  return q;
}
void *sim_h_reallocarray(void *p, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return sim_h_realloc(p, n);
}
void *sim_h_aligned_alloc(size_t al, size_t n) {
  if (!in_sim()) return aligned_alloc(al, n);
  if (al <= 16) return sim_h_malloc(n);
  return on_aux([al, n]() -> void * {
    yield_point();
    W->st.mallocs++;
    if (cur->fired.count("mem_out") || fault("malloc", -1)) { errno = ENOMEM; return nullptr; }
    void *p = nullptr;
    if (posix_memalign(&p, al, n)) return nullptr;
    memcpy(p, stale(n).data(), n);
    cur->p->heap[p] = {n, cur->call, cur->item ? cur->item->id : -1, false};
    return p;
  });
}
int sim_h_posix_memalign(void **out, size_t al, size_t n) {
  void *p = sim_h_aligned_alloc(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void *sim_h_memdup_(const void *s, size_t n) {
  void *p = sim_h_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
char *sim_h_strdup(const char *s) { return (char *)sim_h_memdup_(s, strlen(s) + 1); }
char *sim_h_strndup(const char *s, size_t m) {
  size_t n = strnlen(s, m);
  char *p = (char *)sim_h_malloc(n + 1);
  if (p) { memcpy(p, s, n); p[n] = 0; }
  return p;
}
void sim_h_explicit_bzero(void *p, size_t n) {
  on_aux([=] { need(p, n, "explicit_bzero", true); });
  explicit_bzero(p, n);
}
// Memory primitives: bounds are checked with the sanitizer's shadow, on the side
// stack so that dead stack memory of the library stays as the library left it.
static inline void raw_copy(void *d, const void *s, size_t n) {
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
static inline void raw_set(void *d, int c, size_t n) {
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
}
void *sim_h___asan_memcpy(void *d, const void *s, size_t n) {
  on_aux([=] { need(s, n, "memcpy", false); need(d, n, "memcpy", true); });
  if (tracing) trace_range((void *)s, n, __builtin_return_address(0)), trace_range(d, n, __builtin_return_address(0));
  if (in_sim() && n > 1) {
    size_t h = n / 2;
    yield_point();
    raw_copy(d, s, h);
    yield_point();
    raw_copy((char *)d + h, (const char *)s + h, n - h);
    yield_point();
  } else raw_copy(d, s, n);
  return d;
}
void *sim_h___asan_memmove(void *d, const void *s, size_t n) {
  on_aux([=] { need(s, n, "memmove", false); need(d, n, "memmove", true); });
  if (tracing) trace_range((void *)s, n, __builtin_return_address(0)), trace_range(d, n, __builtin_return_address(0));
  yield_point();
  memmove(d, s, n);
  yield_point();
  return d;
}
void *sim_h___asan_memset(void *d, int c, size_t n) {
  on_aux([=] { need(d, n, "memset", true); });
  if (tracing) trace_range(d, n, __builtin_return_address(0));
  yield_point();
  raw_set(d, c, n);
  yield_point();
  return d;
}
int sim_h_memcmp(const void *a, const void *b, size_t n) {
  on_aux([=] { need(a, n, "memcmp", false); need(b, n, "memcmp", false); });
  yield_point();
  size_t i = 0;
  while (i < n && ((u8 *)a)[i] == ((u8 *)b)[i]) i++;
  if (tracing) trace_range(a, i, __builtin_return_address(0));
  if (i == n) return 0;
  return ((u8 *)a)[i] < ((u8 *)b)[i] ? -1 : 1;
}
int sim_h_bcmp(const void *a, const void *b, size_t n) { return sim_h_memcmp(a, b, n); }
void *sim_h_memchr(const void *a, int c, size_t n) {
  yield_point();
  for (size_t i = 0; i < n; i++) {
    const u8 *p = (const u8 *)a + i;
    if (__asan_address_is_poisoned(p)) on_aux([=] { need(p, 1, "memchr", false); });
    if (*p == (u8)c) return (void *)p;
  }
  return nullptr;
}
void *sim_h_memrchr(const void *a, int c, size_t n) {
  on_aux([=] { need(a, n, "memrchr", false); });
  for (size_t i = n; i-- > 0;)
    if (((u8 *)a)[i] == (u8)c) return (u8 *)a + i;
  return nullptr;
}
static inline char rd(const char *p) {
  if (__builtin_expect(tracing, 0)) trace_event(1, (u64)p, nullptr);
  if (__asan_address_is_poisoned(p)) on_aux([=] { need(p, 1, "string", false); });
  return *p;
}
size_t sim_h_strlen(const char *s) {
  size_t n = 0;
  while (rd(s + n)) n++;
  return n;
}
size_t sim_h_strnlen(const char *s, size_t m) {
  size_t n = 0;
  while (n < m && rd(s + n)) n++;
  return n;
}
char *sim_h_strchr(const char *s, int c) {
  for (;; s++) {
    char x = rd(s);
    if (x == (char)c) return (char *)s;
    if (!x) return nullptr;
  }
}
char *sim_h_strrchr(const char *s, int c) {
  const char *r = nullptr;
  for (;; s++) {
    char x = rd(s);
    if (x == (char)c) r = s;
    if (!x) return (char *)r;
  }
}
int sim_h_strcmp(const char *a, const char *b) {
  for (;; a++, b++) {
    char x = rd(a), y = rd(b);
    if (x != y) return (u8)x < (u8)y ? -1 : 1;
    if (!x) return 0;
  }
}
int sim_h_strncmp(const char *a, const char *b, size_t n) {
  for (; n; n--, a++, b++) {
    char x = rd(a), y = rd(b);
    if (x != y) return (u8)x < (u8)y ? -1 : 1;
    if (!x) return 0;
  }
  return 0;
}

// ----------------------------------------------------------- entropy source
static bool is_random(const char *p) { return !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"); }
static bool dead_source(int &err, bool &eof) {
  if (cur->fired.count("rd_dead_errno")) { err = cur->fired["rd_dead_errno"]; eof = false; return true; }
  if (cur->fired.count("rd_dead_eof")) { eof = true; return true; }
  return false;
}
extern "C++" Bytes forced_entropy(const Item *it, u64 off);  // scenario: forced first bytes
// A huge request lies in a short piece of memory mapped repeatedly: only what
// is read last can be compared afterwards, so the place of every read counts.
extern "C++" Bytes &huge_bytes() {
  static Bytes b;
  if (b.empty()) b = Rng(0xE77).bytes((1u << 20) + 4099);
  return b;
}
static void huge_deliver(u8 *buf, size_t k) {
  const Bytes &s = huge_bytes();
  u64 &pos = cur->huge_pos;
  bool inside = buf >= cur->huge && buf < cur->huge + cur->huge_n;
  if (inside && buf != cur->huge + pos)
    fail("not-random", fmt("bytes at offset %llu of a huge request are not filled in order", (unsigned long long)pos));
  if (inside && pos + k > cur->huge_n) fail("not-random", "more is read than a huge request asks for");
  u64 skip = inside && pos + k + (20u << 20) < cur->huge_n ? k : 0;
  need(buf, inside ? 1 : k, "read", true);
  for (u64 o = skip; o < k;) {
    size_t at = (pos + o) % s.size(), n = std::min<size_t>(k - o, s.size() - at);
    memcpy(buf + o, s.data() + at, n);
    o += n;
  }
  if (pos >> 28 != (pos + k) >> 28) progress();
  cur->call_yield0 = now_yields();
  pos += k;
  W->st.probes["huge_delivery"]++;
}
// The long way between the interesting places of a huge request asked for in
// small pieces: no faults, nothing recorded.
static bool huge_fast(void *buf, size_t n) {
  if (!cur->huge || n > (256u << 10) || cur->call_sys < 2000) return false;
  u64 in = cur->huge_pos & ((1ull << 29) - 1);
  if (in < (1u << 20) || in > (1ull << 29) - (2u << 20) || cur->huge_pos + (24u << 20) > cur->huge_n || cur->fired.count("rd_dead_errno") || cur->fired.count("rd_dead_eof")) return false;
  huge_deliver((u8 *)buf, n);
  return true;
}
// k bytes of the source, each delivery different from every other
static void hand_out(u8 *buf, size_t k) {
  if (cur->huge) {
    huge_deliver(buf, k);
    noise();
    return;
  }
  Chunk c;
  c.serial = ++W->serial;
  c.proc = cur->p->id;
  c.task = cur->id;
  c.item = cur->item ? cur->item->id : -1;
  c.call = cur->call;
  c.dst = buf;
  c.len = k;
  c.data.resize(k);
  u64 x = hmix(hmix(W->plan->seed, 0xE77), c.serial);
  for (size_t i = 0; i < k; i++) {
    if (i % 8 == 0) x = mix64(x + i);
    c.data[i] = (char)(x >> (i % 8 * 8));
  }
  Bytes f = forced_entropy(cur->item, cur->draw_off);
  for (size_t i = 0; i < k && i < f.size(); i++) c.data[i] = f[i];
  if (W->hygiene && k >= 16) cur->secrets.push_back(c.data);
  need(buf, k, "read", true);
  memcpy(buf, c.data.data(), k);
  cur->draw_off += k;
  W->chunks.push_back(c);
  noise();
}
// mostly an error of the list, else any
static int pick_errno(const int *list, u64 n, u64 q) {
  if (q % 4) return list[q / 4 % n];
  int e = 1 + (int)(q / 4 % 133);
  return e == EINTR || e == 41 || e == 58 ? EIO : e;
}
// one read of the source; on the side stack
static ssize_t deliver(void *buf, size_t n) {
  static const int errs[] = {EIO, EAGAIN, EINVAL, ENODEV, EPERM, EFAULT};
  int e = 0;
  bool eof = false;
  u64 q;
  if (!dead_source(e, eof)) {
    if (fault("rd_fail", -1, &q)) cur->fired["rd_dead_errno"] = pick_errno(errs, 6, q);
    else if (fault("rd_eof", -1)) cur->fired["rd_dead_eof"] = 1;
  }
  if (dead_source(e, eof)) {
    note("read dead");
    if (eof) return 0;
    errno = e;
    return -1;
  }
  if (cur->ord["once_run"] < 3 && fault("rd_once", -1, &q)) {  // as above, passes
    cur->ord["once_run"]++;
    note("read fails once");
    if (n && !cur->huge && q % 2) { need(buf, n, "read", true); memset(buf, 0x3C, (n + 1) / 2); }
    if (q % 5 == 0) return 0;
    errno = pick_errno(errs, 6, q / 10);
    return -1;
  }
  if (cur->ord["eintr_run"] < 40 && fault("rd_eintr", -1)) {
    cur->ord["eintr_run"]++;
    errno = EINTR;
    return -1;
  }
  cur->ord["eintr_run"] = 0;
  if (n == 0) return 0;
  size_t k = std::min<size_t>(n, 33554431);
  if (long crawl = cur->huge ? 0 : W->plan->k("crawl")) k = std::min<size_t>(k, (size_t)crawl);   // a slow source
  if (fault("rd_short", -1, &q)) {
    if (k > 1) {
      switch (q % 4) {
        case 0: k = 1; break;
        case 1: k--; break;
        default: k = 1 + (q / 4) % (k - 1);
      }
    }
  }
  hand_out((u8 *)buf, k);
  note(fmt("deliver %zu of %zu", k, n));
  return (ssize_t)k;
}
static int do_open(const char *path) {
  sysc();
  static const int errs[] = {EMFILE, ENFILE, ENOENT, EACCES, ENOMEM, EIO, EPERM, ENODEV, ELOOP, ENXIO};
  if (!is_random(path)) { errno = ENOENT; return -1; }
  u64 q;
  if (cur->fired.count("open_dead")) { errno = cur->fired["open_dead"]; return -1; }
  if (fault("open_fail", -1, &q)) {
    errno = cur->fired["open_dead"] = pick_errno(errs, 10, q);
    return -1;
  }
  if (cur->ord["once_run"] < 3 && fault("open_once", -1, &q)) {
    cur->ord["once_run"]++;
    errno = pick_errno(errs, 10, q);
    return -1;
  }
  if (cur->ord["open_eintr_run"] < 3 && fault("open_eintr", -1)) {  // passes: both giving up and trying again are right
    cur->ord["open_eintr_run"]++;
    errno = EINTR;
    return -1;
  }
  int fd = 0;
  const int busy = (int)W->plan->k("fd_base");  // the application holds all below
  while (cur->p->fds.count(fd) || (fd >= 3 && fd < busy)) fd++;
  FdEnt f;
  f.lib = true;
  f.kind = 1;
  f.item = cur->item ? cur->item->id : -1;
  f.open_serial = ++W->serial;
  cur->p->fds[fd] = f;
  note(fmt("open fd %d", fd));
  noise();
  sysc();
  return fd;
}
static ssize_t do_read(int fd, void *buf, size_t n) {
  auto it = cur->p->fds.find(fd);
  if (it != cur->p->fds.end() && it->second.kind == 1 && huge_fast(buf, n)) return (ssize_t)n;
  sysc();
  it = cur->p->fds.find(fd);
  if (it == cur->p->fds.end()) {
    cur->fired["bad_fd"]++;
    errno = EBADF;
    return -1;
  }
  if (it->second.kind != 1) fail("fd", fmt("the library reads from descriptor %d, which is not its own", fd));
  ssize_t r = deliver(buf, n);
  sysc();
  return r;
}
static int do_close(int fd) {
  sysc();
  auto it = cur->p->fds.find(fd);
  note(fmt("close fd %d", fd));
  if (it == cur->p->fds.end()) {
    cur->fired["bad_close"]++;
    fail("fd", fmt("the library closes descriptor %d, which is not open (closed twice or never opened)", fd));
    errno = EBADF;
    return -1;
  }
  if (!it->second.lib) fail("fd", fmt("the library closes descriptor %d, which is not its own", fd));
  cur->p->fds.erase(it);
  int r = 0;
  if (fault("close_eintr", -1)) { errno = EINTR; r = -1; }
  else noise();
  sysc();
  return r;
}
int sim_h_open(const char *path, int flags, ...) {
  if (!in_sim()) return open(path, flags, 0644);
  return on_aux([=] { return do_open(path); });
}
int sim_h_open64(const char *path, int flags, ...) { return sim_h_open(path, flags); }
int sim_h_openat(int d, const char *path, int flags, ...) { return sim_h_open(path, flags); }
int sim_h_access(const char *path, int mode) {
  return on_aux([=] { sysc(); if (is_random(path)) return 0; errno = ENOENT; return -1; });
}
int sim_h_fcntl(int fd, int cmd, ...) { return 0; }
ssize_t sim_h_read(int fd, void *buf, size_t n) {
  if (!in_sim()) return read(fd, buf, n);
  return on_aux([=] { return do_read(fd, buf, n); });
}
ssize_t sim_h_pread(int fd, void *buf, size_t n, off_t) { return sim_h_read(fd, buf, n); }
int sim_h_close(int fd) {
  if (!in_sim()) return close(fd);
  return on_aux([=] { return do_close(fd); });
}
static ssize_t do_getrandom(void *buf, size_t n) {
  if (huge_fast(buf, n)) return (ssize_t)n;
  sysc();
  ssize_t r = deliver(buf, n);
  if (r == 0 && n) { errno = ENOSYS; r = -1; }
  return r;
}
ssize_t sim_h_getrandom(void *buf, size_t n, unsigned) { return on_aux([=] { return do_getrandom(buf, n); }); }
int sim_h_getentropy(void *buf, size_t n) {
  return on_aux([=]() -> int {
    if (n > 256) { errno = EIO; return -1; }
    size_t o = 0;
    while (o < n) {
      ssize_t r = do_getrandom((char *)buf + o, n - o);
      if (r < 0 && errno == EINTR) continue;
      if (r <= 0) { errno = EIO; return -1; }
      o += (size_t)r;
    }
    return 0;
  });
}
void sim_h_arc4random_buf(void *buf, size_t n) {
  while (n) {
    ssize_t r = sim_h_getrandom(buf, n, 0);
    if (r > 0) { buf = (char *)buf + r; n -= r; }
    else if (errno != EINTR) on_aux([] { proc_exit(134, "arc4random without entropy"); });
  }
}
long sim_h_syscall(long nr, ...) {
  va_list a;
  va_start(a, nr);
  void *p = va_arg(a, void *);
  size_t n = va_arg(a, size_t);
  va_end(a);
  if (nr == SYS_getrandom) return sim_h_getrandom(p, n, 0);
  errno = ENOSYS;
  return -1;
}
// weak sources: available, deterministic, and never what a delivery looks like
static u64 weak_state = 88172645463325252ull;
int sim_h_rand(void) { if (in_sim()) probe("weak_source"); return (int)(draw("weak") & 0x7fffffff); }
long sim_h_random(void) { return sim_h_rand(); }
void sim_h_srand(unsigned) {}
void sim_h_srandom(unsigned) {}
long sim_h_lrand48(void) { return sim_h_rand(); }
int sim_h_rand_r(unsigned *) { return sim_h_rand(); }
time_t sim_h_time(time_t *t) {
  time_t v = 1700000000 + (W ? W->now / 1000 : 0);
  if (t) *t = v;
  return v;
}
int sim_h_clock_gettime(clockid_t, struct timespec *ts) {
  u64 n = W ? W->now : 0;
  ts->tv_sec = 1700000000 + n / 1000;
  ts->tv_nsec = n % 1000 * 1000000;
  return 0;
}
int sim_h_gettimeofday(struct timeval *tv, void *) {
  u64 n = W ? W->now : 0;
  tv->tv_sec = 1700000000 + n / 1000;
  tv->tv_usec = n % 1000 * 1000;
  return 0;
}
clock_t sim_h_clock(void) { return (clock_t)(W ? W->now * 1000 : 0); }
pid_t sim_h_getpid(void) { return cur ? (pid_t)cur->p->pid : 1; }
static void do_sleep(u64 ms) {
  on_aux([=] { sysc(); W->now += ms; W->st.simtime_ms += ms; });
}
unsigned sim_h_sleep(unsigned s) { do_sleep(s * 1000ull); return 0; }
int sim_h_usleep(useconds_t u) { do_sleep(u / 1000); return 0; }
int sim_h_nanosleep(const struct timespec *t, struct timespec *) { do_sleep(t->tv_sec * 1000 + t->tv_nsec / 1000000); return 0; }
int sim_h_poll(void *, unsigned long, int) { do_sleep(1); return 1; }
int sim_h_select(int, void *, void *, void *, void *) { do_sleep(1); return 1; }
int sim_h_sched_yield(void) { on_aux([] { sysc(); }); return 0; }

// ------------------------------------------------------------------ streams
static ssize_t raw_write(StreamModel &m, const char *b, size_t n) {
  if (cur) { W->st.syscalls++; if (cur->in_lib && ++cur->call_sys > sys_limit()) fail("hang", "call keeps writing and does not return"); }
  m.writes++;
  static const int de[] = {ENOSPC, EIO, EPIPE, EBADF, EFBIG};
  u64 q;
  if (!m.dead && fault("w_dead", -1, &q)) { m.dead = true; m.dead_errno = de[q % 5]; }
  if (m.dead) { m.failed++; errno = m.dead_errno; return -1; }
  if (fault("w_err", -1, &q)) { m.failed++; errno = q & 1 ? EINTR : EAGAIN; return -1; }
  size_t k = n;
  if (n > 1 && fault("w_short", -1, &q)) k = 1 + q % (n - 1);
  if (fault("w_stall", -1, &q)) { W->now += q % 5000; W->st.simtime_ms += q % 5000; }
  if (m.sink) on_aux([&] { m.sink(b, k); });
  else m.data.append(b, k);
  noise();
  return (ssize_t)k;
}
// what stdio does with write(2): until all is written or an error
static ssize_t model_write(void *c, const char *b, size_t n) {
  auto *m = (StreamModel *)c;
  size_t o = 0;
  while (o < n) {
    ssize_t r = raw_write(*m, b + o, n - o);
    if (r <= 0) break;
    o += (size_t)r;
  }
  return (ssize_t)o;
}
ssize_t sim_h_write(int fd, const void *b, size_t n) {
  if (!in_sim()) return write(fd, b, n);
  return on_aux([=]() -> ssize_t {
    sysc();
    need(b, n, "write", false);
    if (fd != 1 && fd != 2) { errno = EBADF; return -1; }
    return raw_write(fd == 1 ? cur->p->mo : cur->p->me, (const char *)b, n);
  });
}
}  // extern C
FILE *open_model(Proc *p, int which) {
  cookie_io_functions_t f = {nullptr, model_write, nullptr, nullptr};
  FILE *fp = fopencookie(which == 1 ? &p->mo : &p->me, "w", f);
  long m = W->plan->k(which == 1 ? "out_buf" : "err_buf", which == 1 ? 0 : 2);  // 0 full 1 line 2 none
  long sz = W->plan->k("out_bufsz", 4096);
  if (m == 2) setvbuf(fp, nullptr, _IONBF, 0);
  else setvbuf(fp, nullptr, m == 1 ? _IOLBF : _IOFBF, sz);
  return fp;
}
extern "C" {

// ------------------------------------------------------------------ Windows
// The providers of both generations, last errors and messages, with the sizes
// of Windows (counts have 32 bits). Handles live among the descriptors.
static u32 win_fail(u32 code) {
  cur->p->win_codes.push_back(code);
  cur->last_error = code;
  note(fmt("win fails %08x", code));
  return code;
}
static void win_noise() {
  u64 q;
  static const u32 es[] = {0, 2, 5, 6, 18, 87, 122, 183, 997};
  if (fault("lasterr_noise", -1, &q)) cur->last_error = es[q % 9];
  noise();
}
static const u32 NT_ERRS[] = {0xC0000001, 0xC0000017, 0xC000009A, 0xC0000225, 0xC00000BB, 0xC0000002};
static const u32 CA_ERRS[] = {0x80090020, 0x8009000E, 0x80090016, 8, 0x80090017, 0x8009001D, 1, 0x80070005};
static u32 pick_win(const u32 *list, u64 n, u64 q) {
  if (q % 3) return list[q / 3 % n];
  q /= 3;
  if (list == NT_ERRS) return 0xC0000001 + (u32)(q % 0x450);
  return q % 3 ? 0x80090001 + (u32)(q / 3 % 0x36) : 1 + (u32)(q / 3 % 1500);
}
static u64 win_open(int kind, u32 &err, const u32 *errs, u64 n) {
  sysc();
  u64 q;
  if (cur->fired.count("open_dead")) { err = win_fail((u32)cur->fired["open_dead"]); return 0; }
  if (fault("open_fail", -1, &q)) {
    u32 code = pick_win(errs, n, q);
    cur->fired["open_dead"] = (int)code;
    err = win_fail(code);
    return 0;
  }
  if (cur->ord["once_run"] < 3 && fault("open_once", -1, &q)) {
    cur->ord["once_run"]++;
    err = win_fail(pick_win(errs, n, q));
    return 0;
  }
  int fd = 500;
  while (cur->p->fds.count(fd)) fd++;
  FdEnt f;
  f.lib = true;
  f.kind = kind;
  f.item = cur->item ? cur->item->id : -1;
  f.open_serial = ++W->serial;
  cur->p->fds[fd] = f;
  note(fmt("open handle %d", fd));
  win_noise();
  sysc();
  err = 0;
  return 0x70000000ull + (u64)fd * 16;
}
static bool win_handle(u64 h, int kind) {
  auto i = cur->p->fds.find((int)((h - 0x70000000ull) / 16));
  return h >= 0x70000000ull && h % 16 == 0 && i != cur->p->fds.end() && i->second.kind == kind;
}
static void win_close(u64 h, int kind) {
  sysc();
  if (!win_handle(h, kind)) fail("fd", fmt("the library closes provider handle %llx, which is not open", (unsigned long long)h));
  cur->p->fds.erase((int)((h - 0x70000000ull) / 16));
  win_noise();
  sysc();
}
// all n bytes, or an error with anything in the buffer
static u32 win_fill(void *buf, u32 n, const u32 *errs, u64 m) {
  if (huge_fast(buf, n)) return 0;
  sysc();
  u64 q;
  if (!cur->fired.count("rd_dead_errno") && fault("rd_fail", -1, &q)) cur->fired["rd_dead_errno"] = (int)pick_win(errs, m, q);
  bool dead = cur->fired.count("rd_dead_errno"), once = false;
  if (!dead && cur->ord["once_run"] < 3 && fault("rd_once", -1, &q)) { cur->ord["once_run"]++; once = true; }
  if (dead || once) {
    if (n && !cur->huge) {
      need(buf, n, "fill", true);
      size_t k = n > 1 ? n / 2 : n;
      memset(buf, 0x3C, k);
    }
    return win_fail(dead ? (u32)cur->fired["rd_dead_errno"] : pick_win(errs, m, q));
  }
  if (n) hand_out((u8 *)buf, n);
  note(fmt("provider fills %u", n));
  W->st.probes["provider_fill"]++;
  win_noise();
  sysc();
  return 0;
}
// a wide character has 16 bits on Windows, and 32 in files built without its sizes
static bool wide_is(const void *w, const char *s) {
  const u8 *p = (const u8 *)w;
  int n = p[2] ? 2 : 4;
  for (;; s++, p += n) {
    u32 c = 0;
    memcpy(&c, p, n);
    if (c != (u8)*s) return false;
    if (!*s) return true;
  }
}
int sim_h_BCryptOpenAlgorithmProvider(void **h, const wchar_t *alg, const wchar_t *, u32) {
  return on_aux([=]() -> int {
    u32 e = 0;
    if (!wide_is(alg, "RNG") && !wide_is(alg, "FIPS186DSARNG")) return (int)win_fail(0xC0000225);
    u64 v = win_open(3, e, NT_ERRS, 6);
    *h = e ? (void *)0xdddd : (void *)v;
    return (int)e;
  });
}
int sim_h_BCryptGenRandom(void *h, u8 *buf, u32 n, u32 flags) {
  return on_aux([=]() -> int {
    if ((flags & 2) ? h != nullptr : !win_handle((u64)h, 3)) { cur->fired["bad_handle"]++; return (int)win_fail(0xC0000008); }
    return (int)win_fill(buf, n, NT_ERRS, 6);
  });
}
int sim_h_BCryptCloseAlgorithmProvider(void *h, u32) {
  return on_aux([=]() -> int { win_close((u64)h, 3); return 0; });
}
static int do_acquire(u64 *h, bool named, u32 flags) {
  return on_aux([=]() -> int {
    u32 e = 0;
    // no key container exists: only a context without one can be had
    if (!(flags & 0xF0000000u) || named) { *h = 0; win_fail(0x80090016); return 0; }
    u64 v = win_open(4, e, CA_ERRS, 8);
    *h = v;
    return e == 0;
  });
}
int sim_h_CryptAcquireContextW(u64 *h, const wchar_t *c, const wchar_t *, u32, u32 flags) { return do_acquire(h, c != nullptr, flags); }
int sim_h_CryptAcquireContextA(u64 *h, const char *c, const char *, u32, u32 flags) { return do_acquire(h, c != nullptr, flags); }
int sim_h_CryptGenRandom(u64 h, u32 n, u8 *buf) {
  return on_aux([=]() -> int {
    if (!win_handle(h, 4)) { cur->fired["bad_handle"]++; win_fail(6); return 0; }
    return win_fill(buf, n, CA_ERRS, 8) == 0;
  });
}
int sim_h_CryptReleaseContext(u64 h, u32) {
  return on_aux([=]() -> int { win_close(h, 4); return 1; });
}
u8 sim_h_SystemFunction036(void *buf, u32 n) {
  return on_aux([=]() -> u8 { return win_fill(buf, n, CA_ERRS, 8) == 0; });
}
u32 sim_h_GetLastError(void) { return cur ? cur->last_error : 0; }
void sim_h_SetLastError(u32 e) { if (cur) cur->last_error = e; }
u32 sim_h_FormatMessageA(u32 flags, const void *, u32 id, u32, char *buffer, u32 size, void *) {
  std::string t = win_text(id);
  bool own = flags & 0x100;
  if (own) *(char **)buffer = nullptr;
  bool bad = on_aux([&] { sysc(); return fault("fmtmsg", -1); });
  if (bad) { cur->last_error = 317; return 0; }
  if (!(flags & 0x1000) || !(flags & 0x200)) { cur->last_error = 87; return 0; }  // the text has inserts
  if (own) {
    char *p = (char *)sim_h_malloc(t.size() + 1);
    if (!p) { cur->last_error = 8; return 0; }
    memcpy(p, t.c_str(), t.size() + 1);
    *(char **)buffer = p;
  } else {
    if (size < t.size() + 1) { cur->last_error = 122; return 0; }
    memcpy(buffer, t.c_str(), t.size() + 1);
  }
  on_aux([] { win_noise(); });
  return (u32)t.size();
}
void *sim_h_LocalFree(void *p) { sim_h_free(p); return nullptr; }
void *sim_h_LocalAlloc(u32 flags, size_t n) {
  void *p = sim_h_malloc(n);
  if (p && (flags & 0x40)) memset(p, 0, n);
  return p;
}
// ------------------------------------------------------------------ locking
static bool recursive(const void *m) { return (((const int *)m)[4] & 3) == 1; }
static int do_lock(const void *m, bool try_, bool rec) {
  if (!cur) return 0;
  return on_aux([=]() -> int {
    for (;;) {
      yield_point();
      int &o = cur->p->locks[m];
      if (!o) { o = cur->id + 1; cur->ord[fmt("lk%p", m)] = 1; return 0; }
      if (o == cur->id + 1 && rec) { cur->ord[fmt("lk%p", m)]++; return 0; }
      if (try_) return EBUSY;
      block_on(m);
    }
  });
}
static int do_unlock(const void *m) {
  if (!cur) return 0;
  return on_aux([=]() -> int {
    int &o = cur->p->locks[m];
    if (o != cur->id + 1) return EPERM;
    if (--cur->ord[fmt("lk%p", m)] > 0) return 0;
    o = 0;
    wake(cur->p, m);
    yield_point();
    return 0;
  });
}
int sim_h_pthread_mutex_lock(pthread_mutex_t *m) { return do_lock(m, false, recursive(m)); }
int sim_h_pthread_mutex_trylock(pthread_mutex_t *m) { return do_lock(m, true, recursive(m)); }
int sim_h_pthread_mutex_unlock(pthread_mutex_t *m) { return do_unlock(m); }
int sim_h_mtx_lock(void *m) { return do_lock(m, false, recursive(m)); }
int sim_h_mtx_trylock(void *m) { return do_lock(m, true, recursive(m)); }
int sim_h_mtx_unlock(void *m) { return do_unlock(m); }
int sim_h_pthread_spin_lock(pthread_spinlock_t *m) { return do_lock((const void *)m, false, false); }
int sim_h_pthread_spin_unlock(pthread_spinlock_t *m) { return do_unlock((const void *)m); }
int sim_h_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return do_lock(m, false, true); }
int sim_h_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return do_lock(m, false, false); }
int sim_h_pthread_rwlock_unlock(pthread_rwlock_t *m) { return do_unlock(m); }
static int do_once(const void *c, void (*fn)(void)) {
  for (;;) {
    yield_point();
    int &s = cur->p->onces[c];
    if (s == 2) return 0;
    if (s == 0) {
      s = 1;
      fn();
      cur->p->onces[c] = 2;
      wake(cur->p, c);
      return 0;
    }
    block_on(c);
  }
}
int sim_h_pthread_once(pthread_once_t *c, void (*fn)(void)) { return do_once(c, fn); }
// what OpenBSD has and its relatives lack
#define ABSENT(n) u64 sim_h_##n(u64) { fail("no-such-function", #n " is called, which this system does not have"); return 0; }
ABSENT(betoh16) ABSENT(betoh32) ABSENT(betoh64) ABSENT(letoh16) ABSENT(letoh32) ABSENT(letoh64)
void sim_h_call_once(void *c, void (*fn)(void)) { do_once(c, fn); }
void sim_h_flockfile(FILE *f) { do_lock(f, false, true); }
void sim_h_funlockfile(FILE *f) { do_unlock(f); }
int sim_h_ftrylockfile(FILE *f) { return do_lock(f, true, true); }
static u64 thread_id() { return !cur ? 0 : cur->thread >= 0 ? 1000000 + (u64)cur->p->id * 1000 + (u64)cur->thread : (u64)cur->id + 1; }
pthread_t sim_h_pthread_self(void) { return cur ? (pthread_t)thread_id() : pthread_self(); }
static std::map<std::pair<u64, unsigned>, const void *> specific;
}  // extern C
void threads_begin() { specific.clear(); }
extern "C" {
static unsigned next_key = 1;
int sim_h_pthread_key_create(pthread_key_t *k, void (*)(void *)) { *k = next_key++; return 0; }
int sim_h_pthread_setspecific(pthread_key_t k, const void *v) { specific[{thread_id(), k}] = v; return 0; }
void *sim_h_pthread_getspecific(pthread_key_t k) {
  auto it = specific.find({thread_id(), k});
  return it == specific.end() ? nullptr : (void *)it->second;
}
struct emutls { size_t size, align; void *obj, *templ; };
void *sim_h___emutls_get_address(emutls *c) {
  return on_aux([=]() -> void * {
    static std::map<void *, std::pair<void *, size_t>> none;
    auto &m = cur ? cur->tls : none;
    auto &e = m[c];
    if (!e.first) {
      e.first = aligned_alloc(std::max<size_t>(c->align, 16), (c->size + 63) / 64 * 64);
      e.second = c->size;
      if (c->templ) memcpy(e.first, c->templ, c->size);
      else memset(e.first, 0, c->size);
    }
    return e.first;
  });
}

// -------------------------------------------------------------------- stdio
static FILE *my(FILE *f) { return f; }
struct StreamLock {
  FILE *f;
  explicit StreamLock(FILE *f_) : f(f_) { if (in_sim()) { yield_point(); do_lock(f, false, true); } }
  ~StreamLock() { if (in_sim()) do_unlock(f); }
};
// a huge dump: nothing to switch to and no faults on the way to the buffer
static bool direct(FILE *f) { return in_sim() && f == sim_stdout && cur->p->mo.sink; }
size_t sim_h_fwrite(const void *p, size_t s, size_t n, FILE *f) {
  if (direct(f)) return fwrite_unlocked(p, s, n, f);
  return on_aux([=] { StreamLock l(f); need(p, s * n, "fwrite", false); return fwrite(p, s, n, my(f)); });
}
size_t sim_h_fwrite_unlocked(const void *p, size_t s, size_t n, FILE *f) { return sim_h_fwrite(p, s, n, f); }
int sim_h_fputs(const char *s, FILE *f) { return direct(f) ? fputs_unlocked(s, f) : on_aux([=] { StreamLock l(f); return fputs(s, f); }); }
int sim_h_fputc(int c, FILE *f) { return direct(f) ? fputc_unlocked(c, f) : on_aux([=] { StreamLock l(f); return fputc(c, f); }); }
int sim_h_putc(int c, FILE *f) { return sim_h_fputc(c, f); }
int sim_h__IO_putc(int c, FILE *f) { return sim_h_fputc(c, f); }
int sim_h_putc_unlocked(int c, FILE *f) { return sim_h_fputc(c, f); }
int sim_h_fputc_unlocked(int c, FILE *f) { return sim_h_fputc(c, f); }
int sim_h_putchar(int c) { return sim_h_fputc(c, sim_stdout); }
int sim_h_putchar_unlocked(int c) { return sim_h_fputc(c, sim_stdout); }
int sim_h_puts(const char *s) {
  return on_aux([=] { StreamLock l(sim_stdout); int r = fputs(s, sim_stdout); return r < 0 ? r : fputc('\n', sim_stdout); });
}
int sim_h_vfprintf(FILE *f, const char *m, va_list a) {
  va_list b;
  va_copy(b, a);
  int r = on_aux([&] { StreamLock l(f); return vfprintf(f, m, b); });
  va_end(b);
  return r;
}
int sim_h_fprintf(FILE *f, const char *m, ...) {
  va_list a;
  va_start(a, m);
  int r = sim_h_vfprintf(f, m, a);
  va_end(a);
  return r;
}
int sim_h___fprintf_chk(FILE *f, int, const char *m, ...) {
  va_list a;
  va_start(a, m);
  int r = sim_h_vfprintf(f, m, a);
  va_end(a);
  return r;
}
int sim_h_vprintf(const char *m, va_list a) { return sim_h_vfprintf(sim_stdout, m, a); }
int sim_h_printf(const char *m, ...) {
  va_list a;
  va_start(a, m);
  int r = sim_h_vfprintf(sim_stdout, m, a);
  va_end(a);
  return r;
}
int sim_h_vdprintf(int fd, const char *m, va_list a) {
  char b[4096];
  int n = vsnprintf(b, sizeof b, m, a);
  if (n < 0) return n;
  if (n >= (int)sizeof b) n = sizeof b - 1;
  int o = 0;
  while (o < n) {
    ssize_t r = sim_h_write(fd, b + o, n - o);
    if (r <= 0) return -1;
    o += (int)r;
  }
  return n;
}
int sim_h_dprintf(int fd, const char *m, ...) {
  va_list a;
  va_start(a, m);
  int r = sim_h_vdprintf(fd, m, a);
  va_end(a);
  return r;
}
// ------------------------------------------------------------------- locale
// Character classes and case of the process's locale. Every locale agrees about
// ASCII's classes; the upper half and the case of i differ.
struct Locale {
  unsigned short cls[384];
  int low[384], up[384];
  const unsigned short *pc = cls + 128;
  const int *pl = low + 128, *pu = up + 128;
};
static Locale *locales() {
  static Locale l[7];
  static bool made;
  if (made) return l;
  made = true;
  for (auto &x : l) {
    memcpy(x.cls, *__ctype_b_loc() - 128, sizeof x.cls);
    memcpy(x.low, *__ctype_tolower_loc() - 128, sizeof x.low);
    memcpy(x.up, *__ctype_toupper_loc() - 128, sizeof x.up);
  }
  auto set = [](Locale &x, int c, int cls) { x.cls[c + 128] = (unsigned short)cls; if (c > 127 && c < 255) x.cls[c - 128] = (unsigned short)cls; };
  auto pair = [&](Locale &x, int u, int d) {
    set(x, u, _ISupper | _ISalpha | _ISprint | _ISgraph | _ISalnum);
    set(x, d, _ISlower | _ISalpha | _ISprint | _ISgraph | _ISalnum);
    x.low[u + 128] = x.low[u - 128] = d;
    x.up[d + 128] = d == 255 ? u : (x.up[d - 128] = u);
  };
  for (int k : {1, 2, 3, 4}) {  // Latin-1 as on the BSDs, and its relatives
    set(l[k], 0xA0, _ISspace | _ISblank | _ISprint);
    set(l[k], 0x85, _ISspace | _IScntrl);
    for (int c = 0xA1; c < 0xC0; c++) set(l[k], c, _ISpunct | _ISprint | _ISgraph);
    for (int c = 0xC0; c < 0xDF; c++) if (c != 0xD7) pair(l[k], c, c + 32);
  }
  l[2].low['I' + 128] = 0xFD; l[2].up['i' + 128] = 0xDD;   // Turkish: the other one has a dot
  l[2].low[0xDD + 128] = l[2].low[0xDD - 128] = 'i'; l[2].up[0xFD + 128] = l[2].up[0xFD - 128] = 'I';
  for (int c = 0x80; c < 0xA0; c++) set(l[3], c, c & 1 ? _ISalpha | _ISprint | _ISgraph | _ISalnum : _ISpunct | _ISprint | _ISgraph);
  for (int c = 0xB0; c < 0xBA; c++) set(l[4], c, _ISdigit | _ISxdigit | _ISalnum | _ISprint | _ISgraph);
  for (int c = 0; c < 32; c++) pair(l[5], 0xE0 + c, 0xC0 + c);   // KOI8-R
  for (int c = 0x80; c < 0x100; c++) set(l[6], c, _ISspace | _ISprint);
  return l;
}
static Locale &locale() {
  static Locale *l = locales();
  if (!cur || !cur->in_lib) return l[0];
  u64 q;
  if (fault("setlocale", -1, &q)) cur->p->locale = (int)(q % 7);   // by another thread of the process
  return l[cur->p->locale];
}
const unsigned short **sim_h___ctype_b_loc(void) { return (const unsigned short **)&locale().pc; }
const int **sim_h___ctype_tolower_loc(void) { return (const int **)&locale().pl; }
const int **sim_h___ctype_toupper_loc(void) { return (const int **)&locale().pu; }
static int map_case(const int *m, int c) { return c >= -128 && c < 256 ? m[c] : c; }
int sim_h_tolower(int c) { return map_case(locale().pl, c); }
int sim_h_toupper(int c) { return map_case(locale().pu, c); }
int sim_h__tolower(int c) { return map_case(locale().pl, c); }
int sim_h__toupper(int c) { return map_case(locale().pu, c); }
#define CLS(f, bit) int sim_h_##f(int c) { return c >= -128 && c < 256 ? locale().pc[c] & (unsigned short)bit : 0; }
CLS(isspace, _ISspace) CLS(isblank, _ISblank) CLS(isupper, _ISupper) CLS(islower, _ISlower) CLS(isalpha, _ISalpha) CLS(isdigit, _ISdigit)
CLS(isxdigit, _ISxdigit) CLS(isalnum, _ISalnum) CLS(isprint, _ISprint) CLS(isgraph, _ISgraph) CLS(ispunct, _ISpunct) CLS(iscntrl, _IScntrl)
static int cmp_case(const char *a, const char *b, size_t n) {
  const int *m = locale().pl;
  for (size_t i = 0; i < n; i++) {
    on_aux([=] { need(a + i, 1, "strcasecmp", false); need(b + i, 1, "strcasecmp", false); });
    int x = m[(u8)a[i]], y = m[(u8)b[i]];
    if (x != y) return x - y;
    if (!a[i]) break;
  }
  return 0;
}
char *sim_h_setlocale(int, const char *name) {
  static char names[7][8] = {"C", "l1", "tr", "cp", "x4", "koi8", "x6"};
  yield_point();
  if (name)
    for (int i = 0;; i++) {
      if (i == 7) return nullptr;
      if (!strcmp(names[i], *name ? name : "C")) { cur->p->locale = i; break; }
    }
  return names[cur->p->locale];
}
int sim_h_strcasecmp(const char *a, const char *b) { return cmp_case(a, b, SIZE_MAX); }
int sim_h_strncasecmp(const char *a, const char *b, size_t n) { return cmp_case(a, b, n); }
char *sim_h_strerror(int e) {
  return (char *)on_aux([=]() -> const char * {
    const char *d = strerrordesc_np(e);
    if (d || !cur) return d ? d : strerror(e);
    snprintf(cur->errbuf, sizeof cur->errbuf, "Unknown error %d", e);
    return cur->errbuf;
  });
}
void sim_h_perror(const char *s) {
  int e = errno;
  sim_h_fprintf(sim_stderr, "%s%s%s\n", s ? s : "", s && *s ? ": " : "", sim_h_strerror(e));
}
int sim_h_fflush(FILE *f) {
  return on_aux([=]() -> int {
    if (!f) { int a = fflush(sim_stdout), b = fflush(sim_stderr); return a ? a : b; }
    StreamLock l(f);
    return fflush(f);
  });
}
int sim_h_fclose(FILE *f);
int sim_h_fileno(FILE *f) { return f == sim_stdout ? 1 : f == sim_stderr ? 2 : fileno(f); }
int sim_h_isatty(int) { errno = ENOTTY; return 0; }
// the random source through stdio
struct RF { int fd; };
static ssize_t rf_read(void *c, char *b, size_t n) { return do_read(((RF *)c)->fd, b, n); }
static int rf_close(void *c) { int fd = ((RF *)c)->fd; delete (RF *)c; return do_close(fd); }
static std::set<FILE *> rfiles;
FILE *sim_h_fopen(const char *path, const char *) {
  return on_aux([=]() -> FILE * {
    int fd = do_open(path);
    if (fd < 0) return nullptr;
    cookie_io_functions_t f = {rf_read, nullptr, nullptr, rf_close};
    FILE *fp = fopencookie(new RF{fd}, "r", f);
    rfiles.insert(fp);
    return fp;
  });
}
FILE *sim_h_fopen64(const char *p, const char *m) { return sim_h_fopen(p, m); }
FILE *sim_h_fdopen(int fd, const char *) {
  return on_aux([=]() -> FILE * {
    cookie_io_functions_t f = {rf_read, nullptr, nullptr, rf_close};
    return fopencookie(new RF{fd}, "r", f);
  });
}
size_t sim_h_fread(void *p, size_t s, size_t n, FILE *f) {
  return on_aux([=] { need(p, s * n, "fread", true); return fread(p, s, n, f); });
}
size_t sim_h_fread_unlocked(void *p, size_t s, size_t n, FILE *f) { return sim_h_fread(p, s, n, f); }
int sim_h_fgetc(FILE *f) { return on_aux([=] { return fgetc(f); }); }
int sim_h_getc(FILE *f) { return sim_h_fgetc(f); }
int sim_h_fclose(FILE *f) { return on_aux([=] { rfiles.erase(f); return fclose(f); }); }

// --------------------------------------------------------------- termination
int sim_h_atexit(void (*f)(void)) { if (cur) cur->p->atexit_fns.push_back(f); return 0; }
static void do_exit(int code, bool flush, const char *why) {
  if (!cur) _exit(code);
  if (flush) {
    while (!cur->p->atexit_fns.empty()) {
      auto f = cur->p->atexit_fns.back();
      cur->p->atexit_fns.pop_back();
      f();
    }
    on_aux([] { flush_streams(cur->p); });
  }
  proc_exit(code, why);
}
void sim_h_exit(int c) { do_exit(c, true, "exit"); }
void sim_h__exit(int c) { do_exit(c, false, "exit"); }
void sim_h__Exit(int c) { do_exit(c, false, "exit"); }
void sim_h_quick_exit(int c) { do_exit(c, false, "exit"); }
void sim_h_abort(void) {
  if (!in_sim()) abort();
  do_exit(134, false, "abort");
}
void sim_h___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
  if (!in_sim()) { fprintf(stderr, "assert %s\n", e); abort(); }
  on_aux([=] {
    std::string m = fmt("%s:%u: %s: Assertion `%s' failed.\n", f, l, fn, e);
    raw_write(cur->p->me, m.data(), m.size());
  });
  static std::string why;
  why = fmt("assert: %s (%s)", e, fn);
  do_exit(134, false, why.c_str());
}
int sim_h_raise(int s) {
  do_exit(128 + s, false, "signal");
  return 0;
}
int sim_h_kill(int, int s) { return sim_h_raise(s); }

// --------------------------------------------------- the curve library's API
static void note_secret_use(const secp256k1_context *c);
static void rd_chk(const void *p, size_t n) { if (in_sim()) need(p, n, "curve", false); }
static void wr_chk(const void *p, size_t n) { if (in_sim()) need(p, n, "curve", true); }
#define SECP(body) on_aux([&] { yield_point(); auto r_ = body; yield_point(); return r_; })
secp256k1_context *sim_h_secp256k1_context_create(unsigned flags) {
  return on_aux([&] {
    yield_point();
    secp256k1_context *c = secp256k1_context_create(flags);
    cur->p->ctx_seed.erase(c);
    yield_point();
    return c;
  });
}
void sim_h_secp256k1_context_destroy(secp256k1_context *c) {
  on_aux([&] {
    yield_point();
    if (c) cur->p->ctx_seed.erase(c);
    secp256k1_context_destroy(c);
  });
}
secp256k1_context *sim_h_secp256k1_context_clone(const secp256k1_context *c) {
  return on_aux([&] {
    secp256k1_context *n = secp256k1_context_clone(c);
    auto it = cur->p->ctx_seed.find(c);
    if (it != cur->p->ctx_seed.end()) cur->p->ctx_seed[n] = it->second;
    return n;
  });
}
int sim_h_secp256k1_context_randomize(secp256k1_context *c, const unsigned char *seed) {
  return on_aux([&] {
    yield_point();
    if (seed) {
      rd_chk(seed, 32);
      cur->p->ctx_seed[c] = {cur->call, Bytes((const char *)seed, 32)};
    } else cur->p->ctx_seed.erase(c);
    W->st.probes["blinding"]++;
    int r = secp256k1_context_randomize(c, seed);
    yield_point();
    return r;
  });
}
static void note_secret_use(const secp256k1_context *c) {
  if (!W->plan->k("blindcheck")) return;
  if (!cur->p->ctx_seed.count(c)) fail("unblinded", "a secret key is used with a context that was not blinded with a seed");
  W->st.probes["blinded_use"]++;
}
int sim_h_secp256k1_ec_pubkey_create(const secp256k1_context *c, secp256k1_pubkey *p, const unsigned char *k) {
  return SECP((rd_chk(k, 32), wr_chk(p, 64), note_secret_use(c), secp256k1_ec_pubkey_create(c, p, k)));
}
int sim_h_secp256k1_ecdsa_sign(const secp256k1_context *c, secp256k1_ecdsa_signature *s, const unsigned char *h, const unsigned char *k,
                               secp256k1_nonce_function f, const void *d) {
  if (cur && cur->trace) cur->trace->attempts++;
  return SECP((rd_chk(k, 32), rd_chk(h, 32), wr_chk(s, 64), note_secret_use(c), secp256k1_ecdsa_sign(c, s, h, k, f, d)));
}
int sim_h_secp256k1_ec_seckey_verify(const secp256k1_context *c, const unsigned char *k) {
  return SECP((rd_chk(k, 32), secp256k1_ec_seckey_verify(c, k)));
}
int sim_h_secp256k1_ec_privkey_tweak_add(const secp256k1_context *c, unsigned char *k, const unsigned char *t) {
  return SECP((rd_chk(t, 32), wr_chk(k, 32), secp256k1_ec_seckey_tweak_add(c, k, t)));
}
int sim_h_secp256k1_ec_seckey_tweak_add(const secp256k1_context *c, unsigned char *k, const unsigned char *t) {
  return sim_h_secp256k1_ec_privkey_tweak_add(c, k, t);
}
int sim_h_secp256k1_ec_pubkey_tweak_add(const secp256k1_context *c, secp256k1_pubkey *p, const unsigned char *t) {
  return SECP((rd_chk(t, 32), wr_chk(p, 64), secp256k1_ec_pubkey_tweak_add(c, p, t)));
}
int sim_h_secp256k1_ec_pubkey_parse(const secp256k1_context *c, secp256k1_pubkey *p, const unsigned char *in, size_t n) {
  return SECP((rd_chk(in, n), wr_chk(p, 64), secp256k1_ec_pubkey_parse(c, p, in, n)));
}
int sim_h_secp256k1_ec_pubkey_serialize(const secp256k1_context *c, unsigned char *o, size_t *n, const secp256k1_pubkey *p, unsigned f) {
  return SECP((rd_chk(p, 64), wr_chk(o, f & 0x100 ? 33 : 65), secp256k1_ec_pubkey_serialize(c, o, n, p, f)));
}
int sim_h_secp256k1_ecdsa_signature_parse_compact(const secp256k1_context *c, secp256k1_ecdsa_signature *s, const unsigned char *i) {
  return SECP((rd_chk(i, 64), wr_chk(s, 64), secp256k1_ecdsa_signature_parse_compact(c, s, i)));
}
int sim_h_secp256k1_ecdsa_signature_parse_der(const secp256k1_context *c, secp256k1_ecdsa_signature *s, const unsigned char *i, size_t n) {
  return SECP((rd_chk(i, n), wr_chk(s, 64), secp256k1_ecdsa_signature_parse_der(c, s, i, n)));
}
int sim_h_secp256k1_ecdsa_signature_serialize_compact(const secp256k1_context *c, unsigned char *o, const secp256k1_ecdsa_signature *s) {
  return SECP((rd_chk(s, 64), wr_chk(o, 64), secp256k1_ecdsa_signature_serialize_compact(c, o, s)));
}
int sim_h_secp256k1_ecdsa_signature_serialize_der(const secp256k1_context *c, unsigned char *o, size_t *n, const secp256k1_ecdsa_signature *s) {
  return SECP((rd_chk(s, 64), secp256k1_ecdsa_signature_serialize_der(c, o, n, s)));
}
int sim_h_secp256k1_ecdsa_signature_normalize(const secp256k1_context *c, secp256k1_ecdsa_signature *o, const secp256k1_ecdsa_signature *s) {
  return SECP((rd_chk(s, 64), secp256k1_ecdsa_signature_normalize(c, o, s)));
}
int sim_h_secp256k1_ecdsa_verify(const secp256k1_context *c, const secp256k1_ecdsa_signature *s, const unsigned char *h, const secp256k1_pubkey *p) {
  return SECP((rd_chk(s, 64), rd_chk(h, 32), rd_chk(p, 64), secp256k1_ecdsa_verify(c, s, h, p)));
}
int sim_h_secp256k1_ec_pubkey_negate(const secp256k1_context *c, secp256k1_pubkey *p) { return SECP(secp256k1_ec_pubkey_negate(c, p)); }
int sim_h_secp256k1_ec_pubkey_cmp(const secp256k1_context *c, const secp256k1_pubkey *a, const secp256k1_pubkey *b) {
  return SECP(secp256k1_ec_pubkey_cmp(c, a, b));
}
int sim_h_secp256k1_ec_pubkey_combine(const secp256k1_context *c, secp256k1_pubkey *o, const secp256k1_pubkey *const *i, size_t n) {
  return SECP(secp256k1_ec_pubkey_combine(c, o, i, n));
}
}
