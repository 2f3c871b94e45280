// System call faults for exhaustive enumeration.
//
// A seccomp filter turns every file related system call of this process into
// SIGSYS; the handler performs it (through a trampoline the filter lets pass)
// or, at the positions named by the armed plan, fails it or delivers less than
// asked for.  It also keeps the books on the descriptors and file mappings the
// code under test opens and releases.  Nothing depends on which library
// functions the code under test uses.
#pragma once
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstddef>
#include <cstring>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>
#include "seq.h"

extern "C" long seq_raw_syscall(long nr, long a, long b, long c, long d, long e, long f);
extern "C" char seq_raw_syscall_end;
__asm__(
    ".text\n.p2align 6\n.globl seq_raw_syscall\n.type seq_raw_syscall,@function\nseq_raw_syscall:\n"
    "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\nsyscall\nret\n"
    ".globl seq_raw_syscall_end\nseq_raw_syscall_end:\n");

namespace sysf {
enum fault { IO_ERROR, INTERRUPTED, SHORT, OTHER_ERROR, FAULTS };
struct plan { int at; int kind; };

inline constexpr int MAXFD = 1024, MAXMAPS = 64;
struct books {
  bool armed = false;
  char prefix[256] = {};
  std::size_t prefix_len = 0;
  plan plans[4] = {};
  int n_plans = 0, calls = 0, injected = 0;
  bool open[MAXFD] = {}, closed[MAXFD] = {};
  int open_fds = 0, maps = 0;
  struct { unsigned long a, n; } map[MAXMAPS] = {};
  bool double_close = false, bad_unmap = false, write_fault = false;
  struct { unsigned long a, n; } gone[MAXMAPS] = {};
  int n_gone = 0;
  char trace[2000] = {};
  int trace_len = 0;
};
inline books B;

#define SYSF_RAW __attribute__((no_sanitize("address", "undefined"))) inline

SYSF_RAW bool ours(char const* p) {
  if (!p) return false;
  for (std::size_t i = 0; i != B.prefix_len; ++i)
    if (p[i] != B.prefix[i]) return false;
  return true;
}
SYSF_RAW bool tracked(long fd) { return fd >= 0 && fd < MAXFD && B.open[fd]; }
SYSF_RAW void say(char const* what, char const* how) {
  for (auto s : {what, how})
    for (; *s && B.trace_len + 1 < static_cast<int>(sizeof B.trace); ++s) B.trace[B.trace_len++] = *s;
  B.trace[B.trace_len] = 0;
}

SYSF_RAW void handler(int, siginfo_t* si, void* ctx) {
  auto* const g = static_cast<ucontext_t*>(ctx)->uc_mcontext.gregs;
  int const saved = errno;
  long const nr = si->si_syscall;
  long a[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
  enum { NONE, OPEN, STAT, SEEK, READ, WRITE, MAP, CLOSE, UNMAP, OTHER } k = NONE;
  char const* what = "";
  if (B.armed) switch (nr) {
    case SYS_open: case SYS_creat: if (ours(reinterpret_cast<char const*>(a[0]))) k = OPEN; what = " open"; break;
    case SYS_openat: if (ours(reinterpret_cast<char const*>(a[1]))) k = OPEN; what = " open"; break;
    case SYS_stat: case SYS_lstat: if (ours(reinterpret_cast<char const*>(a[0]))) k = STAT; what = " stat"; break;
    case SYS_newfstatat: case SYS_statx: if (tracked(a[0]) || ours(reinterpret_cast<char const*>(a[1]))) k = STAT; what = " stat"; break;
    case SYS_fstat: if (tracked(a[0])) k = STAT; what = " stat"; break;
    case SYS_lseek: if (tracked(a[0])) k = SEEK; what = " seek"; break;
    case SYS_read: case SYS_pread64: case SYS_readv: case SYS_preadv: if (tracked(a[0])) k = READ; what = " read"; break;
    case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: if (tracked(a[0])) k = WRITE; what = " write"; break;
    case SYS_mmap: if (!(a[3] & MAP_ANONYMOUS) && tracked(static_cast<int>(a[4]))) k = MAP; what = " mmap"; break;
    case SYS_ftruncate: case SYS_fsync: case SYS_fdatasync: if (tracked(a[0])) k = OTHER; what = " sync"; break;
    case SYS_close: if (tracked(a[0])) k = CLOSE; what = " close"; break;
  }
  if (nr == SYS_munmap) k = UNMAP;
  int kind = -1;
  if (k != NONE && k != UNMAP) {
    ++B.calls;
    for (int i = 0; i < B.n_plans; ++i)
      if (B.plans[i].at == B.calls) kind = B.plans[i].kind;
    say(what, kind == IO_ERROR ? "!error" : kind == INTERRUPTED ? "!interrupted" : kind == SHORT ? "!short" : kind == OTHER_ERROR ? "!other" : "");
  }
  bool done = false;
  long r = 0;
  if (kind >= 0) {
    ++B.injected;
    long const err = kind == INTERRUPTED ? -EINTR : -EIO;
    switch (k) {
      case OPEN: r = kind == OTHER_ERROR ? -EMFILE : kind == SHORT ? -EACCES : err; done = true; break;
      case READ:
        if (kind == OTHER_ERROR) { r = 0; done = true; }  // premature end
        else if (kind == SHORT && (nr == SYS_read || nr == SYS_pread64) && a[2] > 1) a[2] = a[2] / 2;
        else if (kind == SHORT && a[2] > 1) a[2] = 1;     // first of several blocks only
        else { r = err; done = true; }
        break;
      case WRITE:
        if (kind == OTHER_ERROR) { r = -ENOSPC; done = true; }
        else if (kind == SHORT && (nr == SYS_write || nr == SYS_pwrite64) && a[2] > 1) a[2] = a[2] / 2;
        else if (kind == SHORT && a[2] > 1) a[2] = 1;
        else { r = err; done = true; }
        B.write_fault = true;
        break;
      case MAP: r = kind == OTHER_ERROR ? -ENODEV : kind == IO_ERROR ? -ENOMEM : kind == SHORT ? -EACCES : -EAGAIN; done = true; break;
      case CLOSE: break;  // released, then the error is reported
      default: r = err; done = true;
    }
  }
  if (!done) r = seq_raw_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (B.armed) {
    if (k == OPEN && r >= 0 && r < MAXFD) { B.open[r] = true; B.closed[r] = false; ++B.open_fds; }
    if (k == CLOSE) { B.open[a[0]] = false; B.closed[a[0]] = true; --B.open_fds; }
    if (nr == SYS_close && k != CLOSE && a[0] >= 0 && a[0] < MAXFD && B.closed[a[0]]) B.double_close = true;
    if (k == MAP && r >= 0 && B.maps < MAXMAPS) {
      B.map[B.maps++] = {static_cast<unsigned long>(r), static_cast<unsigned long>(a[1])};
    }
    if (nr == SYS_mmap && r >= 0) {
      for (int i = 0; i < B.n_gone;) {
        if (B.gone[i].a >= static_cast<unsigned long>(r) && B.gone[i].a < static_cast<unsigned long>(r + a[1])) B.gone[i] = B.gone[--B.n_gone];
        else ++i;
      }
    }
    if (k == UNMAP && r == 0) {
      auto const u = static_cast<unsigned long>(a[0]);
      bool found = false;
      for (int i = 0; i < B.maps; ++i)
        if (B.map[i].a == u) {
          found = true;
          auto const pages = [](unsigned long n) { return (n + 4095) / 4096; };
          if (pages(B.map[i].n) != pages(static_cast<unsigned long>(a[1]))) B.bad_unmap = true;
          B.map[i] = B.map[--B.maps];
          if (B.n_gone < MAXMAPS) B.gone[B.n_gone++] = {u, 0};
          break;
        }
      if (!found)
        for (int i = 0; i < B.n_gone; ++i) if (B.gone[i].a == u) B.bad_unmap = true;
    }
    if (kind >= 0 && k == CLOSE) r = kind == INTERRUPTED ? -EINTR : -EIO;
  }
  g[REG_RAX] = r;
  errno = saved;
}

inline void install() {
  static bool const once = [] {
    auto const& d = seq::scratch();
    std::memcpy(B.prefix, d.data(), std::min(d.size(), sizeof B.prefix - 1));
    B.prefix_len = std::min(d.size(), sizeof B.prefix - 1);
    struct sigaction sa{};
    sa.sa_sigaction = handler;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, nullptr);
    auto const lo = reinterpret_cast<unsigned long>(&seq_raw_syscall);
    std::vector<sock_filter> f;
    auto const ld = [&](unsigned off) { f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, off)); };
    ld(offsetof(seccomp_data, instruction_pointer) + 4);
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, static_cast<unsigned>(lo >> 32), 0, 4));
    ld(offsetof(seccomp_data, instruction_pointer));
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JGE | BPF_K, static_cast<unsigned>(lo), 0, 2));
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JGT | BPF_K, static_cast<unsigned>(lo) + 64, 1, 0));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    ld(offsetof(seccomp_data, nr));
    for (unsigned nr : {SYS_open, SYS_creat, SYS_openat, SYS_stat, SYS_lstat, SYS_newfstatat, SYS_statx, SYS_fstat, SYS_lseek, SYS_read, SYS_pread64, SYS_readv, SYS_preadv, SYS_write, SYS_pwrite64, SYS_writev, SYS_pwritev, SYS_mmap, SYS_munmap, SYS_ftruncate, SYS_fsync, SYS_fdatasync, SYS_close}) {
      f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 1));
      f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
    }
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    sock_fprog p{static_cast<unsigned short>(f.size()), f.data()};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) != 0) { perror("seccomp"); _exit(3); }
    return true;
  }();
  (void)once;
}

inline void reset() {
  auto const len = B.prefix_len;
  char keep[sizeof B.prefix];
  std::memcpy(keep, B.prefix, sizeof keep);
  B = books{};
  std::memcpy(B.prefix, keep, sizeof keep);
  B.prefix_len = len;
}
// starts a run of the code under test with the given faults
inline void arm(std::vector<plan> const& p) {
  B.calls = B.injected = 0;
  B.write_fault = false;
  B.trace_len = 0;
  B.trace[0] = 0;
  B.n_plans = static_cast<int>(p.size());
  std::copy(p.begin(), p.end(), B.plans);
  B.armed = true;
}
inline void disarm() { B.armed = false; B.n_plans = 0; }
struct paused {  // for the harness's own look at the files
  paused() : was{B.armed} { B.armed = false; }
  ~paused() { B.armed = was; }
  bool was;
};
inline void check_books(char const* when) {
  if (B.double_close) seq::fail("%s: a descriptor was closed twice (%s)", when, B.trace);
  if (B.bad_unmap) seq::fail("%s: a mapping was released twice or not in full (%s)", when, B.trace);
  if (B.open_fds != 0) seq::fail("%s: %d descriptor(s) left open (%s)", when, B.open_fds, B.trace);
  if (B.maps != 0) seq::fail("%s: %d mapping(s) left (%s)", when, B.maps, B.trace);
}

// runs fn without faults, then with every placement and kind of up to max faults
template <typename Fn>
void enumerate(int const max, Fn&& fn) {
  std::vector<plan> p;
  for (;;) {
    reset();
    fn(p);
    auto const calls = B.calls;
    auto const from = p.empty() ? 1 : p.back().at + 1;
    if (static_cast<int>(p.size()) == max || calls < from) return;
    auto const k = seq::pick(calls - from + 2);
    if (k == 0) return;
    p.push_back({from + k - 1, seq::pick(FAULTS)});
  }
}
}  // namespace sysf
