// Controlled scheduler, happens-before race detector and explorer.
// The code under test and the harness are compiled with -fsanitize=thread, but
// instead of libtsan they are linked with this file, which implements the
// instrumentation call-backs and the pthread / futex entry points.  All threads
// are fibers on one kernel thread; every synchronisation operation is a
// scheduling point; the explorer enumerates all schedules (depth first, within
// a preemption bound) and prunes prefixes whose happens-before trace has been
// visited with at least as much budget left.
#include "mc.h"

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>
#include <iostream>
#include <map>
#include <set>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __libc_single_threaded;
}

namespace {

constexpr int MAXT = 12;
constexpr size_t STACK = 512 * 1024;

typedef uint64_t u64;
typedef uint32_t u32;

inline u64 mix(u64 a, u64 b) {
  u64 x = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
  x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull;
  x ^= x >> 27; x *= 0x94D049BB133111EBull;
  x ^= x >> 31;
  return x;
}

inline void raw_copy(void* d, void const* s, size_t n) {
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
}
inline void raw_set(void* d, int c, size_t n) {
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
}

// allocator that bypasses the tracked heap
template <typename T>
struct A {
  using value_type = T;
  A() = default;
  template <typename U> A(A<U> const&) {}
  T* allocate(size_t n) { return static_cast<T*>(__libc_malloc(n * sizeof(T))); }
  void deallocate(T* p, size_t) { __libc_free(p); }
  bool operator==(A const&) const { return true; }
};
template <typename T> using vec = std::vector<T, A<T>>;

struct VC {
  u32 c[MAXT];
  void clear() { for (auto& x : c) x = 0; }
  void join(VC const& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum Kind : int {
  K_START, K_LOAD, K_STORE, K_RMW, K_CASFAIL, K_FENCE, K_LOCK, K_TRYLOCK, K_UNLOCK,
  K_CWAIT, K_CWAKE, K_NOTIFY1, K_NOTIFYALL, K_CREATE, K_JOIN, K_EXIT, K_YIELD, K_EVENT,
  K_CHOOSE, K_RDLOCK, K_WRLOCK, K_RWUNLOCK, K_SEMWAIT, K_SEMPOST, K_ONCE, K_ONCEDONE, K_GUARD,
  K_GUARDDONE, K_FUTEXWAIT, K_FUTEXWAKE, K_SPURIOUS, K_DETACH
};
char const* const KN[] = {"start", "atomic-load", "atomic-store", "atomic-rmw", "cas-fail", "fence", "lock", "trylock",
  "unlock", "cond-wait", "cond-wake", "notify-one", "notify-all", "create", "join", "exit", "yield", "event", "choose",
  "rdlock", "wrlock", "rwunlock", "sem-wait", "sem-post", "once", "once-done", "guard", "guard-done", "futex-wait",
  "futex-wake", "spurious-wake", "detach"};

struct Obj {  // synchronisation object
  void* addr = nullptr;
  u32 gen = 0;
  u64 id = 0;
  u64 last_write = 0, reads = 0;
  VC rel;          // release clock
  bool has_rel = false;
  int owner = -1;  // mutex / writer
  int depth = 0;
  int readers = 0;
  u32 reader_mask = 0;
  long sem = 0;
  int once = 0;    // 0 no, 1 running, 2 done
};

struct Rec {  // access record
  u32 clk;
  uint8_t tid, mask, write, atomic;
  void* pc;
};
struct Shadow {
  u64 key = 0;
  u32 gen = 0;
  uint8_t n = 0;
  uint8_t freed = 0;
  Rec r[10];
};

enum FState { F_READY, F_DONE };

struct Pending {
  Kind k = K_START;
  void* obj = nullptr;
  void* obj2 = nullptr;
  bool timed = false;
};

struct Fiber {
  int id = 0;
  u64 canon = 0;
  void* sp = nullptr;
  char* stack = nullptr;
  FState st = F_READY;
  Pending p;
  bool waiting = false;  // in cond/futex wait queue, not yet notified
  bool timedout = false;
  bool yielded = false;
  bool detached = false, joined = false;
  VC vc, acq_fence, rel_fence;
  bool has_rel_fence = false;
  u64 last = 0;  // hash of last event
  u64 contrib = 0;
  u32 nchild = 0, nalloc = 0;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  char* tls = nullptr;
  struct Dtor { void (*f)(void*); void* o; };
  vec<Dtor> dtors;
  std::map<unsigned, void*, std::less<unsigned>, A<std::pair<unsigned const, void*>>> spec;
};

struct Alloc { size_t size; u64 id; bool freed; };

struct Node { int chosen; int n; };
struct TraceEv { int tid; Kind k; void* obj; u64 id; long val; };

struct Ignore { char* b; char* e; };

struct G {
  mc::options opt;
  bool active = false;
  int in_rt = 0;
  int cur = 0;
  Fiber f[MAXT];
  int nf = 0;
  void* host_sp = nullptr;
  u32 gen = 1;
  // sync objects
  vec<Obj> objs;      // open addressing
  vec<u32> used_objs;
  vec<Shadow> sh;
  u64 sh_used = 0;
  std::map<char*, Alloc, std::less<char*>, A<std::pair<char* const, Alloc>>> allocs;
  vec<void*> quarantine_pre;  // pre-execution blocks freed during an execution: never really freed
  // exploration
  vec<Node> path;
  size_t depth = 0, prefix = 0;
  vec<int> forced;
  bool replay = false;
  int preempts = 0, spurious = 0, weak = 0, consec = 0;
  u64 trace_sum = 0;
  size_t steps = 0;
  bool aborted = false;
  vec<TraceEv> trace;
  // visited: key -> min preempts
  vec<u64> vkeys;
  vec<uint8_t> vval;
  u64 vcount = 0;
  u64 executions = 0, complete = 0, pruned = 0, transitions = 0;
  u64 max_depth = 0;
  vec<mc::rec> log_;
  std::vector<mc::rec> log_copy;
  char* tlsblk = nullptr;
  size_t tlssz = 0;
  char* tlsinit = nullptr;
  // writable segments snapshot
  struct Seg { char* a; size_t n; char* copy; };
  vec<Seg> segs;
  vec<Ignore> ign;
  std::map<std::string, u64, std::less<std::string>, A<std::pair<std::string const, u64>>> outcomes;
  char outcome[256];
  char cfgname[256];
  char replay_path[512];
  double deadline = 0;
  bool timed_out = false;
  u64 clockv = 0;
  vec<char const*> samples;
  unsigned nkeys = 0;
};

G* g = nullptr;

struct RT { RT() { ++g->in_rt; } ~RT() { --g->in_rt; } };
inline bool on() { return g != nullptr && g->active && g->in_rt == 0; }
inline Fiber& cur() { return g->f[g->cur]; }

double now_s() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- reporting
void print_trace(FILE* o) {
  for (auto const& e : g->trace) fprintf(o, "  T%d %s obj=%llx val=%ld\n", e.tid, KN[e.k], (unsigned long long)(e.id & 0xffff), e.val);
}

[[noreturn]] void violation(char const* msg) {
  g->active = false;
  ++g->in_rt;
  if (g->replay_path[0]) {
    FILE* f = fopen(g->replay_path, "w");
    if (f) {
      fprintf(f, "config %s\nchoices", g->cfgname);
      for (size_t i = 0; i < g->depth && i < g->path.size(); ++i) fprintf(f, " %d", g->path[i].chosen);
      fprintf(f, "\n# %s\n", msg);
      print_trace(f);
      fclose(f);
    }
  }
  fprintf(stdout, "{\"config\":\"%s\",\"violation\":\"", g->cfgname);
  for (char const* p = msg; *p; ++p) if (*p == '"' || *p == '\\') fprintf(stdout, "\\%c", *p); else if (*p == '\n') fputs("\\n", stdout); else fputc(*p, stdout);
  fprintf(stdout, "\",\"executions\":%llu,\"states\":%llu,\"transitions\":%llu}\n", (unsigned long long)g->executions, (unsigned long long)g->vcount, (unsigned long long)g->transitions);
  if (g->replay) print_trace(stdout);
  fflush(stdout);
  _exit(1);
}
[[noreturn]] void violationf(char const* fmt, ...) {
  char b[1024];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  violation(b);
}
[[noreturn]] void internal(char const* msg) {
  g->active = false; ++g->in_rt;
  fprintf(stdout, "{\"config\":\"%s\",\"internal\":\"%s\"}\n", g->cfgname, msg);
  fflush(stdout);
  _exit(3);
}

// ---------------------------------------------------------------- contexts
extern "C" void mc_swap(void** save, void* to);
asm(R"(
.text
.globl mc_swap
.type mc_swap,@function
mc_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.globl mc_tramp
.type mc_tramp,@function
mc_tramp:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp,%ebp
  call mc_fiber_main
  ud2
  .cfi_endproc
)");
extern "C" void mc_tramp();

void to_host() {
  void* dummy;
  mc_swap(&dummy, g->host_sp);
  __builtin_unreachable();
}

void switch_to(int n) {
  int const o = g->cur;
  if (o == n) return;
  raw_copy(g->f[o].tls, g->tlsblk, g->tlssz);
  raw_copy(g->tlsblk, g->f[n].tls, g->tlssz);
  g->cur = n;
  mc_swap(&g->f[o].sp, g->f[n].sp);
}

// ---------------------------------------------------------------- identities
u64 ident(void* a) {
  char* p = static_cast<char*>(a);
  if (g->allocs.size()) {
    auto it = g->allocs.upper_bound(p);
    if (it != g->allocs.begin()) {
      --it;
      if (p < it->first + it->second.size) return mix(it->second.id, p - it->first);
    }
  }
  for (int i = 0; i < g->nf; ++i)
    if (p >= g->f[i].stack && p < g->f[i].stack + STACK) return mix(mix(g->f[i].canon, 77), g->f[i].stack + STACK - p);
  return mix(1, reinterpret_cast<u64>(p));
}

Obj& obj(void* a) {
  if (g->used_objs.size() * 2 > g->objs.size()) {  // grow
    vec<Obj> old; old.swap(g->objs);
    g->objs.resize(old.size() * 2);
    vec<u32> u; u.swap(g->used_objs);
    for (u32 i : u) {
      size_t h = mix(3, reinterpret_cast<u64>(old[i].addr)) & (g->objs.size() - 1);
      while (g->objs[h].gen == g->gen) h = (h + 1) & (g->objs.size() - 1);
      g->objs[h] = old[i];
      g->used_objs.push_back(h);
    }
  }
  size_t h = mix(3, reinterpret_cast<u64>(a)) & (g->objs.size() - 1);
  while (g->objs[h].gen == g->gen && g->objs[h].addr != a) h = (h + 1) & (g->objs.size() - 1);
  Obj& o = g->objs[h];
  if (o.gen != g->gen) {
    o = Obj{};
    o.rel.clear();
    o.addr = a;
    o.gen = g->gen;
    o.id = ident(a);
    g->used_objs.push_back(h);
  }
  return o;
}

// ---------------------------------------------------------------- race detection
Shadow& shadow(u64 key) {
  size_t const m = g->sh.size() - 1;
  size_t h = mix(5, key) & m;
  while (g->sh[h].gen == g->gen && g->sh[h].key != key) h = (h + 1) & m;
  Shadow& s = g->sh[h];
  if (s.gen != g->gen) {
    s.gen = g->gen; s.key = key; s.n = 0; s.freed = 0;
    if (++g->sh_used * 2 > g->sh.size()) {
      vec<Shadow> old; old.swap(g->sh);
      g->sh.resize(old.size() * 2);
      g->sh_used = 0;
      for (auto& x : old) if (x.gen == g->gen) {
        size_t h2 = mix(5, x.key) & (g->sh.size() - 1);
        while (g->sh[h2].gen == g->gen) h2 = (h2 + 1) & (g->sh.size() - 1);
        g->sh[h2] = x; ++g->sh_used;
      }
      return shadow(key);
    }
  }
  return s;
}

void race(Fiber& f, u64 key, Rec const& a, bool write, bool atomic, void* pc) {
  violationf("data race: T%d %s%s at pc %p conflicts with earlier %s%s by T%d at pc %p", f.id, atomic ? "atomic " : "", write ? "write" : "read", pc,
             a.atomic ? "atomic " : "", a.write == 2 ? "free" : a.write ? "write" : "read", a.tid, a.pc);
  (void)key;
}

void access1(Fiber& f, u64 key, uint8_t mask, int write, bool atomic, void* pc) {
  Shadow& s = shadow(key);
  if (s.freed & mask) violationf("use after free by T%d at pc %p", f.id, pc);
  int j = 0;
  bool stored = false;
  for (int i = 0; i < s.n; ++i) {
    Rec& r = s.r[i];
    bool drop = false;
    if (r.tid == f.id) {
      if ((r.mask & ~mask) == 0 && (r.atomic == atomic || !atomic) && (r.write <= write)) drop = true;
      else if ((mask & ~r.mask) == 0 && r.atomic == atomic && r.write == write) { r.clk = f.vc.c[f.id]; r.pc = pc; stored = true; }
    } else if (r.mask & mask) {
      if ((r.write || write) && !(r.atomic && atomic) && r.clk > f.vc.c[r.tid]) race(f, key, r, write, atomic, pc);
      if (write && (r.mask & ~mask) == 0 && !atomic && r.clk <= f.vc.c[r.tid]) drop = true;
    }
    if (!drop) { if (j != i) s.r[j] = r; ++j; }
  }
  s.n = j;
  if (!stored) {
    if (s.n == 10) { for (int i = 1; i < 10; ++i) s.r[i - 1] = s.r[i]; --s.n; }
    s.r[s.n++] = Rec{f.vc.c[f.id], (uint8_t)f.id, mask, (uint8_t)write, (uint8_t)atomic, pc};
  }
}

bool ignored(char* p) {
  for (auto const& i : g->ign) if (p >= i.b && p < i.e) return true;
  return false;
}

void access(void* a, size_t n, int write, bool atomic, void* pc) {
  if (!g->opt.data_races || n == 0) return;
  char* p = static_cast<char*>(a);
  if (ignored(p)) return;
  Fiber& f = cur();
  u64 k = reinterpret_cast<u64>(p) >> 3;
  unsigned off = reinterpret_cast<u64>(p) & 7;
  while (n) {
    unsigned m = std::min<size_t>(8 - off, n);
    access1(f, k, (uint8_t)(((1u << m) - 1) << off), write, atomic, pc);
    n -= m; off = 0; ++k;
  }
}

void fresh(void* a, size_t n) {  // newly allocated memory: forget history
  u64 b = reinterpret_cast<u64>(a) >> 3, e = (reinterpret_cast<u64>(a) + n + 7) >> 3;
  for (; b < e; ++b) {
    size_t const m = g->sh.size() - 1;
    size_t h = mix(5, b) & m;
    while (g->sh[h].gen == g->gen && g->sh[h].key != b) h = (h + 1) & m;
    if (g->sh[h].gen == g->gen) { g->sh[h].n = 0; g->sh[h].freed = 0; }
  }
}

// ---------------------------------------------------------------- events (trace hashing)
void ev(Kind k, void* o, bool write, long val = 0) {
  Fiber& f = cur();
  u64 h = mix(f.last ? f.last : f.canon, k + 100);
  u64 id = 0;
  if (o) {
    Obj& ob = obj(o);
    id = ob.id;
    h = mix(h, ob.id);
    h = mix(h, ob.last_write);
    if (write) { h = mix(h, ob.reads); ob.last_write = h; ob.reads = 0; }
    else ob.reads += h;
  }
  h = mix(h, val);
  f.last = h;
  u64 c = mix(f.canon, h);
  g->trace_sum += c - f.contrib;
  f.contrib = c;
  ++f.vc.c[f.id];
  g->trace.push_back(TraceEv{f.id, k, o, id, val});
  if (g->depth >= g->prefix) ++g->transitions;
  if (++g->steps > g->opt.max_steps) violationf("no termination: more than %zu steps in one execution (livelock)", g->opt.max_steps);
}

// ---------------------------------------------------------------- scheduling
bool visited(u64 key, int cost) {
  if (g->vcount * 2 >= g->vkeys.size()) {
    vec<u64> ok; ok.swap(g->vkeys);
    vec<uint8_t> ov; ov.swap(g->vval);
    g->vkeys.assign(ok.size() * 2, 0);
    g->vval.assign(ok.size() * 2, 0);
    for (size_t i = 0; i < ok.size(); ++i) if (ok[i]) {
      size_t h = ok[i] & (g->vkeys.size() - 1);
      while (g->vkeys[h]) h = (h + 1) & (g->vkeys.size() - 1);
      g->vkeys[h] = ok[i]; g->vval[h] = ov[i];
    }
  }
  if (!key) key = 1;
  size_t h = key & (g->vkeys.size() - 1);
  while (g->vkeys[h] && g->vkeys[h] != key) h = (h + 1) & (g->vkeys.size() - 1);
  if (g->vkeys[h] == key) {
    if (g->vval[h] <= cost) return true;
    g->vval[h] = cost;
    return false;
  }
  g->vkeys[h] = key; g->vval[h] = cost; ++g->vcount;
  return false;
}

[[noreturn]] void abort_exec() {
  g->aborted = true;
  to_host();
  __builtin_unreachable();
}

// decide among n alternatives at the current point of the path
int decide(int n) {
  if (g->depth < g->path.size()) {
    Node& nd = g->path[g->depth++];
    if (nd.n != n) internal("nondeterministic replay: number of alternatives changed");
    return nd.chosen;
  }
  int c = 0;
  if (g->replay && g->depth < g->forced.size()) { c = g->forced[g->depth]; if (c >= n) internal("replay does not fit"); }
  g->path.push_back(Node{c, n});
  ++g->depth;
  if (g->depth > g->max_depth) g->max_depth = g->depth;
  return c;
}
bool at_frontier() { return g->depth >= g->path.size() && !g->replay; }

bool enabled(Fiber& f) {
  if (f.st != F_READY) return false;
  if (f.waiting) return false;
  switch (f.p.k) {
    case K_LOCK: { Obj& o = obj(f.p.obj); return o.owner == -1; }
    case K_JOIN: return g->f[reinterpret_cast<long>(f.p.obj2)].st == F_DONE;
    case K_RDLOCK: { Obj& o = obj(f.p.obj); return o.owner == -1; }
    case K_WRLOCK: { Obj& o = obj(f.p.obj); return o.owner == -1 && o.readers == 0; }
    case K_SEMWAIT: return obj(f.p.obj).sem > 0;
    case K_ONCE: case K_GUARD: return obj(f.p.obj).once != 1;
    default: return true;
  }
}

struct Alt { int tid; int variant; int cost; };

// chooses the next fiber (called on the current fiber, or by a finished one)
void schedule() {
  Fiber& me = cur();
  bool const me_en = enabled(me);
  bool any_other = false;
  for (int i = 0; i < g->nf; ++i) if (i != g->cur && enabled(g->f[i])) any_other = true;
  if (me_en && any_other && ++g->consec > 300) me.yielded = true;
  bool const stay = me_en && !(me.yielded && any_other);
  Alt alts[2 * MAXT];
  int n = 0;
  int const pb = g->opt.preemptions;
  bool const may_preempt = pb < 0 || g->preempts < pb;
  bool const nopre = stay && ((me.p.k == K_UNLOCK && !g->opt.preempt_unlock) || me.p.k == K_START);
  if (stay) alts[n++] = {g->cur, 0, 0};
  if (!nopre && (!stay || may_preempt)) {
    bool un = false;
    for (int pass = 0; pass < 2 && n == (stay ? 1 : 0); ++pass) {
      for (int i = 0; i < g->nf; ++i) {
        if (i == g->cur) continue;
        if (g->f[i].yielded && pass == 0 && i != g->cur) { un = true; continue; }
        if (enabled(g->f[i])) alts[n++] = {i, 0, stay ? 1 : 0};
      }
      if (stay || !un) break;
    }
  }
  if (n == 0 && me_en) alts[n++] = {g->cur, 0, 0};
  if (!nopre && g->spurious < g->opt.spurious && (!stay || may_preempt)) {
    for (int i = 0; i < g->nf; ++i)
      if (g->f[i].waiting && g->f[i].p.k == K_CWAIT && n < 2 * MAXT && obj(g->f[i].p.obj2).owner == -1) alts[n++] = {i, 1, stay && i != g->cur ? 1 : 0};
  }
  if (n == 0) {  // timed waits may now expire
    for (int i = 0; i < g->nf; ++i)
      if (g->f[i].st == F_READY && g->f[i].waiting && g->f[i].p.timed && (g->f[i].p.k != K_CWAIT || obj(g->f[i].p.obj2).owner == -1)) alts[n++] = {i, 2, 0};
  }
  bool all_done = true;
  for (int i = 0; i < g->nf; ++i) if (g->f[i].st != F_DONE) all_done = false;
  if (n == 0) {
    if (all_done) to_host();
    char b[512]; int w = snprintf(b, sizeof b, "deadlock:");
    for (int i = 0; i < g->nf; ++i) if (g->f[i].st == F_READY) w += snprintf(b + w, sizeof b - w, " T%d blocked in %s;", i, KN[g->f[i].p.k]);
    violation(b);
  }
  // deadlock only avoidable by spurious wake-ups counts as deadlock
  { bool real = false; for (int i = 0; i < n; ++i) if (alts[i].variant == 0 || alts[i].variant == 2) real = true;
    if (!real) {
      bool timed = false; for (int i = 0; i < g->nf; ++i) if (g->f[i].st == F_READY && g->f[i].waiting && g->f[i].p.timed) timed = true;
      if (!timed) {
        char b[512]; int w = snprintf(b, sizeof b, "deadlock (lost wake-up):");
        for (int i = 0; i < g->nf; ++i) if (g->f[i].st == F_READY) w += snprintf(b + w, sizeof b - w, " T%d blocked in %s;", i, KN[g->f[i].p.k]);
        violation(b);
      }
    } }
  int c = 0;
  int enabled_total = 0;
  for (int i = 0; i < g->nf; ++i) if (enabled(g->f[i])) ++enabled_total;
  if (enabled_total > 1 || n > 1) {
    if (at_frontier()) {
      u64 key = mix(mix(g->trace_sum, stay ? g->f[g->cur].canon : 0), g->spurious * 16 + g->weak + (nopre ? 512 : 0));
      if (visited(key, pb < 0 ? 0 : g->preempts)) { ++g->pruned; abort_exec(); }
    }
    if (n > 1) c = decide(n);
  }
  Alt const& a = alts[c];
  g->preempts += a.cost;
  Fiber& nx = g->f[a.tid];
  if (a.variant == 1) { ++g->spurious; nx.waiting = false; nx.p.k = K_LOCK; nx.p.obj = nx.p.obj2; }
  if (a.variant == 2) { nx.waiting = false; nx.timedout = true; if (nx.p.k == K_CWAIT) { nx.p.k = K_LOCK; nx.p.obj = nx.p.obj2; } else nx.p.k = K_YIELD; }
  if (a.tid != g->cur) { g->consec = 0; for (int i = 0; i < g->nf; ++i) g->f[i].yielded = false; if (me.p.k == K_YIELD && me.st == F_READY) me.yielded = true; }
  switch_to(a.tid);
}

// announce a visible operation and wait until it is chosen
void point(Kind k, void* o = nullptr, void* o2 = nullptr) {
  Fiber& f = cur();
  f.p.k = k; f.p.obj = o; f.p.obj2 = o2; f.p.timed = false;
  schedule();
}

void acquire(Obj& o) { if (o.has_rel) cur().vc.join(o.rel); }
void release(Obj& o) { o.rel.join(cur().vc); o.has_rel = true; }

void do_lock(void* m) {
  for (;;) {
    Obj& o = obj(m);
    if (o.owner == g->cur) {
      auto kind = static_cast<pthread_mutex_t*>(m)->__data.__kind & 3;
      if (kind == PTHREAD_MUTEX_RECURSIVE) { ++o.depth; return; }
      violationf("self-deadlock: T%d locks a mutex it already holds", g->cur);
    }
    point(K_LOCK, m);
    Obj& o2 = obj(m);
    if (o2.owner == -1) { o2.owner = g->cur; o2.depth = 1; break; }
  }
  access(m, 8, 1, true, __builtin_return_address(0));
  ev(K_LOCK, m, true);
  acquire(obj(m));
}
void do_unlock(void* m, bool pt = true) {
  { Obj& o = obj(m);
    if (o.owner != g->cur) violationf("T%d unlocks a mutex it does not hold", g->cur);
    if (o.depth > 1) { --o.depth; return; } }
  if (pt) point(K_UNLOCK, m);
  access(m, 8, 1, true, __builtin_return_address(0));
  ev(K_UNLOCK, m, true);
  Obj& o = obj(m);
  release(o);
  o.owner = -1; o.depth = 0;
}

int do_cwait(void* c, void* m, bool timed) {
  // release and enqueue is one step
  { Obj& o = obj(m); if (o.owner != g->cur) violationf("T%d waits with a mutex it does not hold", g->cur); }
  point(K_CWAIT, c, m);
  access(c, 8, 1, true, __builtin_return_address(0));
  ev(K_CWAIT, c, true);
  ev(K_UNLOCK, m, true);
  { Obj& o = obj(m); release(o); o.owner = -1; o.depth = 0; }
  Fiber& f = cur();
  f.waiting = true; f.timedout = false;
  f.p.k = K_CWAIT; f.p.obj = c; f.p.obj2 = m; f.p.timed = timed;
  schedule();
  // woken, with the mutex free: wake-up and re-acquisition are one step
  bool const to = f.timedout;
  f.timedout = false;
  { Obj& o = obj(m); o.owner = g->cur; o.depth = 1; }
  access(m, 8, 1, true, __builtin_return_address(0));
  ev(K_CWAKE, c, true, to);
  ev(K_LOCK, m, true);
  acquire(obj(m));
  return to ? ETIMEDOUT : 0;
}

int choose_rt(int n) {
  if (n <= 1) return 0;
  if (at_frontier()) {
    u64 key = mix(mix(g->trace_sum, cur().canon), 0x5555 + g->spurious * 16 + g->weak);
    if (visited(key, g->opt.preemptions < 0 ? 0 : g->preempts)) { ++g->pruned; abort_exec(); }
  }
  return decide(n);
}

void do_notify(void* c, bool all) {
  point(all ? K_NOTIFYALL : K_NOTIFY1, c);
  access(c, 8, 1, true, __builtin_return_address(0));
  int w[MAXT], n = 0;
  for (int i = 0; i < g->nf; ++i) if (g->f[i].waiting && g->f[i].p.k == K_CWAIT && g->f[i].p.obj == c) w[n++] = i;
  int which = -1;
  if (!all && n) { ev(K_CHOOSE, c, true, n); which = choose_rt(n); }
  ev(all ? K_NOTIFYALL : K_NOTIFY1, c, true, which);
  for (int i = 0; i < n; ++i)
    if (all || i == which) { Fiber& x = g->f[w[i]]; x.waiting = false; x.p.k = K_LOCK; x.p.obj = x.p.obj2; }
}

void fiber_finish() {
  Fiber& f = cur();
  f.p.k = K_EXIT; f.p.obj = nullptr;
  ev(K_EXIT, nullptr, true);
  f.st = F_DONE;
  schedule();
  __builtin_unreachable();
}

extern "C" void mc_fiber_main() {
  Fiber& f = cur();
  --g->in_rt;
  f.ret = f.fn(f.arg);
  while (!f.dtors.empty()) {
    auto d = f.dtors.back();
    { RT r; f.dtors.pop_back(); }
    d.f(d.o);
  }
  ++g->in_rt;
  fiber_finish();
}

int new_fiber(void* (*fn)(void*), void* arg, u64 canon) {
  if (g->nf == MAXT) internal("too many threads");
  int id = g->nf++;
  Fiber& f = g->f[id];
  f.id = id; f.canon = canon; f.st = F_READY; f.waiting = f.timedout = f.yielded = f.detached = f.joined = false;
  f.vc.clear(); f.acq_fence.clear(); f.rel_fence.clear(); f.has_rel_fence = false;
  f.last = 0; f.contrib = 0; f.nchild = f.nalloc = 0;
  f.fn = fn; f.arg = arg; f.ret = nullptr;
  f.dtors.clear(); f.spec.clear();
  f.p = Pending{};
  if (!f.stack) {
    f.stack = static_cast<char*>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(f.stack, 4096, PROT_NONE);
    f.tls = static_cast<char*>(__libc_calloc(1, g->tlssz + 16));
  }
  raw_copy(f.tls, g->tlsinit, g->tlssz);
  void** sp = reinterpret_cast<void**>(f.stack + STACK - 64);
  *--sp = nullptr;  // end marker and alignment
  *--sp = nullptr;
  *--sp = reinterpret_cast<void*>(&mc_tramp);
  for (int i = 0; i < 6; ++i) *--sp = nullptr;
  f.sp = sp;
  f.vc.c[id] = 1;
  return id;
}

// ---------------------------------------------------------------- process set-up
int phdr_cb(struct dl_phdr_info* info, size_t, void*) {
  if (info->dlpi_name && info->dlpi_name[0]) return 0;  // only the executable
  for (int i = 0; i < info->dlpi_phnum; ++i) {
    auto const& ph = info->dlpi_phdr[i];
    if (ph.p_type == PT_TLS) {
      size_t al = ph.p_align ? ph.p_align : 1;
      g->tlssz = (ph.p_memsz + al - 1) / al * al;
      unsigned long fs;
      asm("movq %%fs:0,%0" : "=r"(fs));
      g->tlsblk = reinterpret_cast<char*>(fs - g->tlssz);
    } else if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) {
      G::Seg s;
      s.a = reinterpret_cast<char*>(info->dlpi_addr + ph.p_vaddr);
      s.n = ph.p_memsz;
      s.copy = nullptr;
      g->segs.push_back(s);
    } else if (ph.p_type == PT_GNU_RELRO) {
      g->ign.push_back({reinterpret_cast<char*>(info->dlpi_addr + ph.p_vaddr), reinterpret_cast<char*>(info->dlpi_addr + ph.p_vaddr + ph.p_memsz)});
    }
  }
  return 1;
}

void snapshot() {
  for (auto& s : g->segs) {
    // skip the RELRO part (read-only after start-up)
    for (auto const& r : g->ign) if (s.a < r.e && s.a + s.n > r.e && s.a >= r.b - 4096) { size_t d = ((reinterpret_cast<u64>(r.e) + 4095) & ~4095ull) - reinterpret_cast<u64>(s.a); s.a += d; s.n -= d; }
    s.copy = static_cast<char*>(__libc_malloc(s.n));
  }
  g->ign.clear();
  auto ig = [](void* p, size_t n) { g->ign.push_back({static_cast<char*>(p), static_cast<char*>(p) + n}); };
  ig(&std::cout, sizeof std::cout); ig(&std::cerr, sizeof std::cerr); ig(&std::clog, sizeof std::clog); ig(&std::cin, sizeof std::cin);
  ig(g->tlsblk, g->tlssz);  // swapped per thread, so never shared
  for (auto& s : g->segs) raw_copy(s.copy, s.a, s.n);
  g->tlsinit = static_cast<char*>(__libc_malloc(g->tlssz + 16));
  raw_copy(g->tlsinit, g->tlsblk, g->tlssz);
}
void restore() {
  for (auto& s : g->segs) raw_copy(s.a, s.copy, s.n);
  raw_copy(g->tlsblk, g->tlsinit, g->tlssz);
}

void* main_fiber(void* b) { (*static_cast<std::function<void()> const*>(b))(); return nullptr; }

void run_once(std::function<void()> const* body) {
  restore();
  ++g->gen;
  g->used_objs.clear();
  g->sh_used = 0;
  g->nf = 0; g->cur = 0; g->depth = 0; g->prefix = g->path.size();
  g->preempts = g->spurious = g->weak = g->consec = 0;
  g->trace_sum = 0; g->steps = 0; g->aborted = false;
  g->trace.clear(); g->log_.clear(); g->clockv = 0; g->nkeys = 0;
  raw_copy(g->outcome, "", 1);
  new_fiber(main_fiber, const_cast<std::function<void()>*>(body), 0xABCDEF);
  raw_copy(g->tlsblk, g->f[0].tls, g->tlssz);
  g->active = true;
  g->in_rt = 1;
  mc_swap(&g->host_sp, g->f[0].sp);
  g->active = false;
  g->in_rt = 0;
  if (!g->aborted) {
    ++g->complete;
    for (int i = 1; i < g->nf; ++i) if (!g->f[i].joined && !g->f[i].detached) violationf("thread T%d was never joined", i);
  }
  // free everything the execution allocated
  for (auto const& a : g->allocs) __libc_free(a.first);
  g->allocs.clear();
  ++g->executions;
  raw_copy(g->tlsblk, g->tlsinit, g->tlssz);
}

void on_signal(int s) {
  char b[128];
  snprintf(b, sizeof b, "crash: signal %d (%s) in T%d", s, s == SIGSEGV ? "segmentation fault" : s == SIGABRT ? "abort / std::terminate" : s == SIGFPE ? "arithmetic" : "fatal", g->cur);
  violation(b);
}

}  // namespace

// ================================================================ API
namespace mc {
void fail(char const* fmt, ...) {
  RT r;
  char b[1024];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  violation(b);
}
int choose(int n) {
  if (!on()) return 0;
  RT r;
  ev(K_CHOOSE, nullptr, true, n);
  int c = choose_rt(n);
  ev(K_CHOOSE, nullptr, true, 1000 + c);
  return c;
}
void event(int o) {
  if (!on()) return;
  RT r;
  void* a = reinterpret_cast<void*>(static_cast<long>(0x100 + o * 8));
  point(K_EVENT, a);
  ev(K_EVENT, a, true);
}
int self() { return g->cur; }
void step(int tag, long a, long b) { if (!on()) return; RT r; g->log_.push_back({g->cur, tag, a, b}); }
std::vector<rec> const& log() { RT r; g->log_copy.assign(g->log_.begin(), g->log_.end()); return g->log_copy; }
long count(int tag) { long n = 0; for (auto const& x : g->log_) n += x.tag == tag; return n; }
long count(int tag, long a) { long n = 0; for (auto const& x : g->log_) n += x.tag == tag && x.a == a; return n; }
int live_threads() { int n = 0; for (int i = 1; i < g->nf; ++i) n += g->f[i].st != F_DONE; return n; }
int created_threads() { return g->nf - 1; }
bool other_enabled() { RT r; for (int i = 0; i < g->nf; ++i) if (i != g->cur && enabled(g->f[i])) return true; return false; }
void outcome(std::string const& s) { RT r; snprintf(g->outcome, sizeof g->outcome, "%s", s.c_str()); }
}  // namespace mc

// ================================================================ instrumentation
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RA __builtin_return_address(0)
#define ACC(N)                                                                                   \
  void __tsan_read##N(void* a) { if (on()) { RT r; access(a, N, 0, false, RA); } }               \
  void __tsan_write##N(void* a) { if (on()) { RT r; access(a, N, 1, false, RA); } }              \
  void __tsan_unaligned_read##N(void* a) { if (on()) { RT r; access(a, N, 0, false, RA); } }     \
  void __tsan_unaligned_write##N(void* a) { if (on()) { RT r; access(a, N, 1, false, RA); } }    \
  void __tsan_volatile_read##N(void* a) { if (on()) { RT r; access(a, N, 0, false, RA); } }      \
  void __tsan_volatile_write##N(void* a) { if (on()) { RT r; access(a, N, 1, false, RA); } }     \
  void __tsan_unaligned_volatile_read##N(void* a) { if (on()) { RT r; access(a, N, 0, false, RA); } } \
  void __tsan_unaligned_volatile_write##N(void* a) { if (on()) { RT r; access(a, N, 1, false, RA); } }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, size_t n) { if (on()) { RT r; access(a, n, 0, false, RA); } }
void __tsan_write_range(void* a, size_t n) { if (on()) { RT r; access(a, n, 1, false, RA); } }
void __tsan_vptr_update(void** a, void* v) { if (on() && *a != v) { RT r; access(a, 8, 1, false, RA); } }
void __tsan_vptr_read(void** a) { if (on()) { RT r; access(a, 8, 0, false, RA); } }

enum { R_RELAXED = 0, R_CONSUME, R_ACQUIRE, R_RELEASE, R_ACQREL, R_SEQ };
}

namespace {
bool is_acq(int mo) { mo &= 0xff; return mo == R_CONSUME || mo == R_ACQUIRE || mo == R_ACQREL || mo == R_SEQ; }
bool is_rel(int mo) { mo &= 0xff; return mo == R_RELEASE || mo == R_ACQREL || mo == R_SEQ; }

void at_load(void* a, int mo) {
  Obj& o = obj(a);
  if (o.has_rel) { if (is_acq(mo)) cur().vc.join(o.rel); else cur().acq_fence.join(o.rel); }
}
void at_store(void* a, int mo, bool rmw) {
  Obj& o = obj(a);
  if (!rmw) { o.rel.clear(); o.has_rel = false; }
  if (is_rel(mo)) { o.rel.join(cur().vc); o.has_rel = true; }
  else if (cur().has_rel_fence) { o.rel.join(cur().rel_fence); o.has_rel = true; }
}
template <typename T>
T a_load(T volatile* a, int mo, void* pc) {
  if (!on()) return *a;
  RT r;
  void* p = const_cast<T*>(a);
  point(K_LOAD, p);
  access(p, sizeof(T), 0, true, pc);
  T v = *a;
  ev(K_LOAD, p, false);
  at_load(p, mo);
  return v;
}
template <typename T>
void a_store(T volatile* a, T v, int mo, void* pc) {
  if (!on()) { *a = v; return; }
  RT r;
  void* p = const_cast<T*>(a);
  point(K_STORE, p);
  access(p, sizeof(T), 1, true, pc);
  ev(K_STORE, p, true, (long)v);
  at_store(p, mo, false);
  *a = v;
}
template <typename T, typename F>
T a_rmw(T volatile* a, int mo, void* pc, F f) {
  if (!on()) { T o = *a; *a = f(o); return o; }
  RT r;
  void* p = const_cast<T*>(a);
  point(K_RMW, p);
  access(p, sizeof(T), 1, true, pc);
  T o = *a;
  ev(K_RMW, p, true);
  at_load(p, mo);
  at_store(p, mo, true);
  *a = f(o);
  return o;
}
template <typename T>
bool a_cas(T volatile* a, T* c, T v, int mo, int fmo, bool weak, void* pc) {
  if (!on()) { if (*a == *c) { *a = v; return true; } *c = *a; return false; }
  RT r;
  void* p = const_cast<T*>(a);
  point(K_RMW, p);
  access(p, sizeof(T), 1, true, pc);
  T o = *a;
  bool ok = o == *c;
  if (ok && weak && g->weak < g->opt.weak_fail) {
    ev(K_CHOOSE, p, false);
    if (choose_rt(2) == 1) { ++g->weak; ok = false; }
  }
  if (ok) {
    ev(K_RMW, p, true, 1);
    at_load(p, mo);
    at_store(p, mo, true);
    *a = v;
    return true;
  }
  ev(K_CASFAIL, p, false);
  at_load(p, fmo);
  *c = o;
  return false;
}
}  // namespace

extern "C" {
#define ATOM(N, T)                                                                                              \
  T __tsan_atomic##N##_load(T const volatile* a, int mo) { return a_load(const_cast<T volatile*>(a), mo, RA); } \
  void __tsan_atomic##N##_store(T volatile* a, T v, int mo) { a_store(a, v, mo, RA); }                          \
  T __tsan_atomic##N##_exchange(T volatile* a, T v, int mo) { return a_rmw(a, mo, RA, [v](T) { return v; }); }  \
  T __tsan_atomic##N##_fetch_add(T volatile* a, T v, int mo) { return a_rmw(a, mo, RA, [v](T o) { return (T)(o + v); }); }   \
  T __tsan_atomic##N##_fetch_sub(T volatile* a, T v, int mo) { return a_rmw(a, mo, RA, [v](T o) { return (T)(o - v); }); }   \
  T __tsan_atomic##N##_fetch_and(T volatile* a, T v, int mo) { return a_rmw(a, mo, RA, [v](T o) { return (T)(o & v); }); }   \
  T __tsan_atomic##N##_fetch_or(T volatile* a, T v, int mo) { return a_rmw(a, mo, RA, [v](T o) { return (T)(o | v); }); }    \
  T __tsan_atomic##N##_fetch_xor(T volatile* a, T v, int mo) { return a_rmw(a, mo, RA, [v](T o) { return (T)(o ^ v); }); }   \
  T __tsan_atomic##N##_fetch_nand(T volatile* a, T v, int mo) { return a_rmw(a, mo, RA, [v](T o) { return (T)~(o & v); }); } \
  int __tsan_atomic##N##_compare_exchange_strong(T volatile* a, T* c, T v, int mo, int f) { return a_cas(a, c, v, mo, f, false, RA); } \
  int __tsan_atomic##N##_compare_exchange_weak(T volatile* a, T* c, T v, int mo, int f) { return a_cas(a, c, v, mo, f, true, RA); }    \
  T __tsan_atomic##N##_compare_exchange_val(T volatile* a, T c, T v, int mo, int f) { T e = c; a_cas(a, &e, v, mo, f, false, RA); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t) ATOM(128, unsigned __int128)

void __tsan_atomic_thread_fence(int mo) {
  if (!on()) return;
  RT r;
  point(K_FENCE);
  ev(K_FENCE, reinterpret_cast<void*>(0x80), true, mo);
  Fiber& f = cur();
  if (is_acq(mo)) f.vc.join(f.acq_fence);
  if (is_rel(mo)) { f.rel_fence = f.vc; f.has_rel_fence = true; }
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- memory
static void track(void* p, size_t n) {
  RT r;
  Fiber& f = cur();
  fresh(p, n);
  g->allocs[static_cast<char*>(p)] = Alloc{n, mix(mix(f.canon, 991), ++f.nalloc), false};
}
void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  if (p && on()) track(p, n ? n : 1);
  return p;
}
void* calloc(size_t a, size_t b) {
  void* p = __libc_calloc(a, b);
  if (p && on()) track(p, a * b != 0 ? a * b : 1);
  return p;
}
static bool tracked_free(void* p) {
  RT r;
  auto it = g->allocs.find(static_cast<char*>(p));
  if (it == g->allocs.end()) return true;  // allocated before the execution: keep it (restored by the snapshot)
  if (it->second.freed) violationf("double free by T%d", g->cur);
  access(p, it->second.size, 2, false, RA);
  for (u64 k = reinterpret_cast<u64>(p) >> 3; k < (reinterpret_cast<u64>(p) + it->second.size + 7) >> 3; ++k) shadow(k).freed = 0xff;
  it->second.freed = true;
  return true;
}
void free(void* p) {
  if (!p) return;
  if (on()) { tracked_free(p); return; }
  if (g && g->active) {
    // runtime or library code inside an execution: tracked blocks are released at the end
    if (g->allocs.count(static_cast<char*>(p))) return;
  }
  __libc_free(p);
}
void* realloc(void* p, size_t n) {
  if (!on()) return __libc_realloc(p, n);
  if (!p) return malloc(n);
  void* q = malloc(n);
  size_t old = 0;
  { RT r; auto it = g->allocs.find(static_cast<char*>(p)); old = it == g->allocs.end() ? n : it->second.size; }
  raw_copy(q, p, std::min(old, n));
  free(p);
  return q;
}
void* memalign(size_t al, size_t n) {
  void* p = __libc_memalign(al, n);
  if (p && on()) track(p, n ? n : 1);
  return p;
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** o, size_t al, size_t n) { *o = memalign(al, n); return *o ? 0 : ENOMEM; }

void* memcpy(void* __restrict d, void const* __restrict s, size_t n) {
  if (on()) { RT r; access(const_cast<void*>(s), n, 0, false, RA); access(d, n, 1, false, RA); }
  raw_copy(d, s, n);
  return d;
}
void* memmove(void* d, void const* s, size_t n) {
  if (on()) { RT r; access(const_cast<void*>(s), n, 0, false, RA); access(d, n, 1, false, RA); }
  char* dd = static_cast<char*>(d);
  char const* ss = static_cast<char const*>(s);
  if (dd <= ss || dd >= ss + n) raw_copy(d, s, n);
  else { volatile char* x = dd; while (n--) x[n] = ss[n]; }
  return d;
}
void* memset(void* d, int c, size_t n) {
  if (on()) { RT r; access(d, n, 1, false, RA); }
  raw_set(d, c, n);
  return d;
}

// ---------------------------------------------------------------- threads
int pthread_create(pthread_t* t, pthread_attr_t const*, void* (*fn)(void*), void* arg) {
  if (!g || !g->active) internal("thread created outside an execution");
  RT r;
  point(K_CREATE);
  Fiber& f = cur();
  int id = new_fiber(fn, arg, mix(f.canon, 4000 + ++f.nchild));
  ev(K_CREATE, nullptr, true, id);
  g->f[id].vc.join(cur().vc);
  g->f[id].last = mix(cur().last, 31337);
  *t = static_cast<pthread_t>(id + 1);
  return 0;
}
int pthread_join(pthread_t t, void** ret) {
  if (!g || !g->active) return EINVAL;
  RT r;
  int id = static_cast<int>(t) - 1;
  if (id < 0 || id >= g->nf) return ESRCH;
  if (id == g->cur) return EDEADLK;
  if (g->f[id].joined || g->f[id].detached) violationf("thread joined twice");
  point(K_JOIN, nullptr, reinterpret_cast<void*>(static_cast<long>(id)));
  ev(K_JOIN, nullptr, true, static_cast<long>(g->f[id].last));
  cur().vc.join(g->f[id].vc);
  g->f[id].joined = true;
  if (ret) *ret = g->f[id].ret;
  return 0;
}
int pthread_detach(pthread_t t) {
  if (!g || !g->active) return EINVAL;
  int id = static_cast<int>(t) - 1;
  if (id >= 0 && id < g->nf) g->f[id].detached = true;
  return 0;
}
pthread_t pthread_self() { return g && g->active ? static_cast<pthread_t>(g->cur + 1) : 1; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int pthread_setname_np(pthread_t, char const*) { return 0; }
int sched_yield() {
  if (!on()) return 0;
  RT r;
  point(K_YIELD);
  ev(K_YIELD, nullptr, true);
  return 0;
}
int nanosleep(struct timespec const*, struct timespec*) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, struct timespec const*, struct timespec*) { return sched_yield(); }
int usleep(useconds_t) { return sched_yield(); }
int get_nprocs() { return g ? static_cast<int>(g->opt.workers) : 1; }
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (on()) { ts->tv_sec = 1700000000; ts->tv_nsec = static_cast<long>(++g->clockv % 1000000000); return 0; }
  return static_cast<int>(syscall(SYS_clock_gettime, c, ts));
}

int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const* a) {
  raw_set(m, 0, sizeof *m);
  if (a) m->__data.__kind = *reinterpret_cast<int const*>(a) & 3;
  if (on()) { RT r; Obj& o = obj(m); o.owner = -1; o.depth = 0; }
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (on()) { RT r; if (obj(m).owner != -1) violationf("mutex destroyed while locked"); access(m, 8, 1, false, RA); }
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (on()) { RT r; do_lock(m); } return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (on()) { RT r; do_unlock(m); } return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) return 0;
  RT r;
  point(K_TRYLOCK, m);
  access(m, 8, 1, true, RA);
  Obj& o = obj(m);
  if (o.owner != -1) {
    if (o.owner == g->cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++o.depth; return 0; }
    ev(K_TRYLOCK, m, false, 0);
    return EBUSY;
  }
  ev(K_TRYLOCK, m, true, 1);
  acquire(obj(m));
  obj(m).owner = g->cur; obj(m).depth = 1;
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, struct timespec const*) { return pthread_mutex_trylock(m) == 0 ? 0 : ETIMEDOUT; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, struct timespec const*) { return pthread_mutex_trylock(m) == 0 ? 0 : ETIMEDOUT; }
int pthread_mutexattr_init(pthread_mutexattr_t* a) { raw_set(a, 0, sizeof *a); return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) { *reinterpret_cast<int*>(a) = t; return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) { return 0; }

int pthread_cond_init(pthread_cond_t* c, pthread_condattr_t const*) { raw_set(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
  if (on()) {
    RT r;
    for (int i = 0; i < g->nf; ++i) if (g->f[i].waiting && g->f[i].p.k == K_CWAIT && g->f[i].p.obj == c) violationf("condition variable destroyed while T%d waits on it", i);
    access(c, 8, 1, false, RA);
  }
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (on()) { RT r; do_cwait(c, m, false); } return 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, struct timespec const*) { if (on()) { RT r; return do_cwait(c, m, true); } return 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, struct timespec const*) { if (on()) { RT r; return do_cwait(c, m, true); } return 0; }
int pthread_cond_signal(pthread_cond_t* c) { if (on()) { RT r; do_notify(c, false); } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (on()) { RT r; do_notify(c, true); } return 0; }

int pthread_rwlock_init(pthread_rwlock_t* m, pthread_rwlockattr_t const*) { raw_set(m, 0, sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!on()) return 0;
  RT r;
  if (obj(m).owner == g->cur) violationf("self-deadlock on a shared mutex by T%d", g->cur);
  point(K_RDLOCK, m);
  ev(K_RDLOCK, m, true);
  acquire(obj(m));
  ++obj(m).readers; obj(m).reader_mask |= 1u << g->cur;
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!on()) return 0;
  RT r;
  if (obj(m).owner == g->cur || (obj(m).reader_mask >> g->cur & 1)) violationf("self-deadlock on a shared mutex by T%d", g->cur);
  point(K_WRLOCK, m);
  ev(K_WRLOCK, m, true);
  acquire(obj(m));
  obj(m).owner = g->cur;
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  if (!on()) return 0;
  RT r;
  point(K_TRYLOCK, m);
  ev(K_TRYLOCK, m, true);
  if (obj(m).owner != -1) return EBUSY;
  acquire(obj(m)); ++obj(m).readers; obj(m).reader_mask |= 1u << g->cur;
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  if (!on()) return 0;
  RT r;
  point(K_TRYLOCK, m);
  ev(K_TRYLOCK, m, true);
  if (obj(m).owner != -1 || obj(m).readers) return EBUSY;
  acquire(obj(m)); obj(m).owner = g->cur;
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!on()) return 0;
  RT r;
  point(K_RWUNLOCK, m);
  ev(K_RWUNLOCK, m, true);
  Obj& o = obj(m);
  release(o);
  if (o.owner == g->cur) o.owner = -1;
  else { --o.readers; o.reader_mask &= ~(1u << g->cur); }
  return 0;
}

int sem_init(sem_t* s, int, unsigned v) { if (on()) { RT r; obj(s).sem = v; } return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_wait(sem_t* s) {
  if (!on()) return 0;
  RT r;
  point(K_SEMWAIT, s);
  ev(K_SEMWAIT, s, true);
  acquire(obj(s)); --obj(s).sem;
  return 0;
}
int sem_trywait(sem_t* s) {
  if (!on()) return 0;
  RT r;
  point(K_TRYLOCK, s);
  ev(K_TRYLOCK, s, true);
  if (obj(s).sem <= 0) { errno = EAGAIN; return -1; }
  acquire(obj(s)); --obj(s).sem;
  return 0;
}
int sem_post(sem_t* s) {
  if (!on()) return 0;
  RT r;
  point(K_SEMPOST, s);
  ev(K_SEMPOST, s, true);
  release(obj(s)); ++obj(s).sem;
  return 0;
}

int pthread_once(pthread_once_t* c, void (*fn)(void)) {
  if (!on()) { if (*c != 2) { *c = 2; fn(); } return 0; }
  { RT r;
    if (*c == 2) { ev(K_ONCE, c, false); acquire(obj(c)); return 0; }
    point(K_ONCE, c);
    ev(K_ONCE, c, true);
    acquire(obj(c));
    if (*c == 2) return 0;
    obj(c).once = 1; }
  try { fn(); } catch (...) { { RT r; obj(c).once = 0; } throw; }
  { RT r; ev(K_ONCEDONE, c, true); release(obj(c)); obj(c).once = 2; *c = 2; }
  return 0;
}

int __cxa_guard_acquire(char* gd) {
  if (!on()) { if (gd[0]) return 0; gd[1] = 1; return 1; }
  RT r;
  point(K_GUARD, gd);
  if (gd[0]) { ev(K_GUARD, gd, false); acquire(obj(gd)); return 0; }
  if (obj(gd).once == 1) violationf("recursive static initialisation");
  ev(K_GUARD, gd, true);
  obj(gd).once = 1;
  return 1;
}
void __cxa_guard_release(char* gd) {
  if (!on()) { gd[0] = 1; return; }
  RT r;
  ev(K_GUARDDONE, gd, true);
  release(obj(gd));
  obj(gd).once = 2;
  gd[0] = 1;
}
void __cxa_guard_abort(char* gd) {
  if (!on()) { gd[0] = 0; return; }
  RT r;
  ev(K_GUARDDONE, gd, true, 1);
  obj(gd).once = 0;
}
int __cxa_thread_atexit(void (*f)(void*), void* o, void*) {
  if (on()) { RT r; cur().dtors.push_back({f, o}); }
  return 0;
}
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }  // statics are re-created per execution, never destroyed

int pthread_key_create(pthread_key_t* k, void (*)(void*)) { *k = g ? ++g->nkeys : 1; return 0; }
int pthread_key_delete(pthread_key_t) { return 0; }
void* pthread_getspecific(pthread_key_t k) { if (!on()) return nullptr; RT r; auto it = cur().spec.find(k); return it == cur().spec.end() ? nullptr : it->second; }
int pthread_setspecific(pthread_key_t k, void const* v) { if (!on()) return 0; RT r; cur().spec[k] = const_cast<void*>(v); return 0; }

long syscall(long n, ...) noexcept {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && on()) {
    RT r;
    int op = static_cast<int>(b) & 127;
    void* ad = reinterpret_cast<void*>(a);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point(K_FUTEXWAIT, ad);
      if (*reinterpret_cast<int volatile*>(ad) != static_cast<int>(c)) { ev(K_FUTEXWAIT, ad, false, 1); errno = EAGAIN; return -1; }
      ev(K_FUTEXWAIT, ad, true, 0);
      Fiber& me = cur();
      me.waiting = true; me.timedout = false; me.p.k = K_FUTEXWAIT; me.p.obj = ad; me.p.timed = d != 0;
      schedule();
      bool to = me.timedout; me.timedout = false;
      ev(K_FUTEXWAKE, ad, true, 2 + to);
      if (to) { errno = ETIMEDOUT; return -1; }
      return 0;
    } else if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      point(K_FUTEXWAKE, ad);
      ev(K_FUTEXWAKE, ad, true);
      long woken = 0;
      for (int i = 0; i < g->nf && woken < c; ++i) if (g->f[i].waiting && g->f[i].p.k == K_FUTEXWAIT && g->f[i].p.obj == ad) { g->f[i].waiting = false; g->f[i].p.k = K_YIELD; ++woken; }
      return woken;
    }
    return 0;
  }
  long ret;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) { errno = static_cast<int>(-ret); return -1; }
  return ret;
}
}  // extern "C"

// ================================================================ driver
namespace {
bool next_path() {
  while (!g->path.empty()) {
    Node& n = g->path.back();
    if (n.chosen + 1 < n.n) { ++n.chosen; return true; }
    g->path.pop_back();
  }
  return false;
}
}  // namespace

int main(int argc, char** argv) {
  g = new (mmap(nullptr, sizeof(G), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)) G();
  __libc_single_threaded = 0;
  std::string prop, cfg, tier = "quick", replay, out;
  double limit = 0;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") prop = nx();
    else if (a == "--config") cfg = nx();
    else if (a == "--tier") tier = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--replay-out") out = nx();
    else if (a == "--limit") limit = atof(nx().c_str());
    else if (a == "--list") list = true;
  }
  vec<int> forced;
  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r");
    if (!f) { fprintf(stderr, "no replay file\n"); return 3; }
    char buf[1 << 16];
    while (fgets(buf, sizeof buf, f)) {
      if (!strncmp(buf, "config ", 7)) { cfg = buf + 7; while (!cfg.empty() && (cfg.back() == '\n')) cfg.pop_back(); }
      else if (!strncmp(buf, "choices", 7)) { char* p = buf + 7; char* e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; forced.push_back(v); p = e; } }
    }
    fclose(f);
  }
  auto all = mc::configs(prop);
  if (list) {
    for (auto const& c : all) if (c.tier == 0 || tier == "thorough") printf("%s\n", c.name.c_str());
    return 0;
  }
  mc::config* c = nullptr;
  for (auto& x : all) if (x.name == cfg) c = &x;
  if (!c) { fprintf(stderr, "no such config: %s\n", cfg.c_str()); return 3; }
  g->opt = c->opt;
  snprintf(g->cfgname, sizeof g->cfgname, "%s", cfg.c_str());
  snprintf(g->replay_path, sizeof g->replay_path, "%s", out.c_str());
  static char alt[65536];
  stack_t ss{}; ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 65536;
  (void)alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  static char obuf[1 << 16];
  setvbuf(stdout, static_cast<char*>(mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)), _IOFBF, 1 << 16);
  (void)obuf;
  printf("%s", "");
  struct nullbuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(char const*, std::streamsize n) override { return n; } };
  std::clog.rdbuf(new nullbuf);  // diagnostics of the code under test go nowhere
  std::cout << "" << std::flush; std::clog << "" << std::flush;
  { struct tm t; time_t z = 0; gmtime_r(&z, &t); char b[64]; strftime(b, 64, "%FT%TZ%z", &t); }
  g->objs.resize(256);
  g->sh.resize(1 << 12);
  g->vkeys.assign(1 << 12, 0);
  g->vval.assign(1 << 12, 0);
  g->trace.reserve(1 << 15);
  dl_iterate_phdr(phdr_cb, nullptr);
  if (!g->tlsblk) internal("no TLS segment");
  double const t0 = now_s();
  auto* body = new std::function<void()>(c->body);
  if (!replay.empty()) {
    g->replay = true;
    g->forced = forced;
    snapshot();
    run_once(body);
    printf("{\"config\":\"%s\",\"replay\":\"no violation\"}\n", g->cfgname);
    print_trace(stdout);
    fflush(stdout);
    _exit(0);
  }
  snapshot();
  vec<int> sample0;
  std::string* sample_trace = new std::string();
  u64 nsample = 0;
  bool more = true;
  while (more) {
    run_once(body);
    if (!g->aborted) {
      ++g->outcomes[g->outcome];
      if (nsample < 2 && (g->complete == 1 || g->complete == 50)) {
        ++nsample;
        *sample_trace += "schedule:";
        int last = -1, cnt = 0;
        for (auto const& e : g->trace) { if (e.tid != last) { if (cnt) *sample_trace += "x" + std::to_string(cnt); *sample_trace += " T" + std::to_string(e.tid); last = e.tid; cnt = 0; } ++cnt; }
        *sample_trace += "x" + std::to_string(cnt) + "; ";
      }
    }
    more = next_path();
    if (more && limit > 0 && (g->executions & 63) == 0 && now_s() - t0 > limit) { g->timed_out = true; break; }
  }
  printf("{\"config\":\"%s\",\"ok\":true,\"executions\":%llu,\"complete\":%llu,\"pruned\":%llu,\"states\":%llu,\"transitions\":%llu,\"max_choices\":%llu,\"exhaustive\":%s,\"preemption_bound\":%d,\"spurious\":%d,\"wall\":%.2f,\"sample\":\"%s\",\"outcomes\":{",
         g->cfgname, (unsigned long long)g->executions, (unsigned long long)g->complete, (unsigned long long)g->pruned, (unsigned long long)g->vcount,
         (unsigned long long)g->transitions, (unsigned long long)g->max_depth, g->timed_out ? "false" : "true", g->opt.preemptions, g->opt.spurious, now_s() - t0, sample_trace->c_str());
  bool first = true;
  for (auto const& [k, v] : g->outcomes) { printf("%s\"%s\":%llu", first ? "" : ",", k.c_str(), (unsigned long long)v); first = false; }
  printf("}}\n");
  fflush(stdout);
  _exit(0);
}
