#include "seq.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <exception>
#include <iostream>
#include <sys/mman.h>
#include <sys/time.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <fcntl.h>

extern "C" {
void __sanitizer_set_death_callback(void (*)());
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
char const* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=1:max_uar_stack_size_log=16:abort_on_error=0:exitcode=97:allocator_may_return_null=0:hard_rss_limit_mb=3500:quarantine_size_mb=16:malloc_context_size=12:handle_abort=0:symbolize=1:detect_odr_violation=0"; }
char const* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
}

namespace seq {
namespace {
struct node { int chosen, n; };
constexpr int MAXD = 4096;
struct state {
  node path[MAXD];
  int len = 0;       // nodes on the path
  int depth = 0;     // picks taken in the current execution
};
state st;
std::vector<int> forced;
bool replaying = false, rec = false, skipped = false, interesting = false, leak_check = true, in_exec = false;
int shards = 1, shard = 0, shard_depth = 2;
unsigned long long executions = 0, nodes = 0, edges = 0, ntriv = 0, prefix_no = 0, ops = 0, skipped_n = 0;
int max_depth = 0;
std::string notes, cfg, out_path;
long live = 0;
struct skip {};

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

std::string esc(std::string const& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r;
}

[[noreturn]] void violation(char const* msg) {
  in_exec = false;
  if (skipped) _exit(3);
  if (!out_path.empty()) {
    if (auto* f = fopen(out_path.c_str(), "w")) {
      fprintf(f, "config %s\nchoices", cfg.c_str());
      for (int i = 0; i < st.depth; ++i) fprintf(f, " %d", replaying ? (i < (int)forced.size() ? forced[i] : 0) : st.path[i].chosen);
      fprintf(f, "\nviolation %s\n", esc(msg).c_str());
      fclose(f);
    }
  }
  fflush(stdout);
  dprintf(1, "{\"config\":\"%s\",\"violation\":\"%s\",\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"notes\":\"%s\"}\n", esc(cfg).c_str(), esc(msg).c_str(), executions, nodes, edges, esc(notes).c_str());
  _exit(1);
}

void on_death() {
  if (in_exec) violation("memory error or undefined behaviour (sanitizer report on stderr)");
}
void on_abort(int s) {
  if (in_exec) violation(s == SIGABRT ? "abort / std::terminate" : s == SIGFPE ? "arithmetic exception" : "fatal signal");
  _exit(3);
}
unsigned long long last_seen = ~0ULL;
int ticks = 0, wall_ticks = 0;
void on_tick(int) {
  if (!in_exec) return;
  if (last_seen != executions) { last_seen = executions; ticks = 0; return; }
  if (++ticks >= 15) violation("no termination: one execution used more than 15 s of processor time");
}
void on_wall(int) {
  static unsigned long long seen = ~0ULL;
  if (in_exec && seen == executions) { if (++wall_ticks >= 6) violation("no termination: one execution took more than 60 s"); }
  else { seen = executions; wall_ticks = 0; }
  alarm(10);
}
bool hooks_on = false;
void on_malloc(const volatile void*, size_t) { if (hooks_on) ++live; }
void on_free(const volatile void* p) { if (hooks_on && p) --live; }
}  // namespace

int pick(int n) {
  if (n <= 0) { fprintf(stderr, "pick(%d)\n", n); _exit(3); }
  if (skipped) throw skip{};
  int const d = st.depth++;
  if (d >= MAXD) { fprintf(stderr, "choice vector too long\n"); _exit(3); }
  if (replaying) {
    int c = d < (int)forced.size() ? forced[d] : 0;
    if (c >= n) { fprintf(stderr, "replay does not fit\n"); _exit(3); }
    return c;
  }
  if (d >= st.len) {
    st.path[d] = {0, n};
    st.len = d + 1;
    ++nodes; ++edges;
    if (st.len > max_depth) max_depth = st.len;
  } else if (st.path[d].n != n) {
    fprintf(stderr, "harness not deterministic: pick(%d) was pick(%d) at depth %d\n", n, st.path[d].n, d);
    _exit(3);
  }
  if (shards > 1 && d == shard_depth - 1) {
    if (d + 1 == st.len && prefix_no++ % static_cast<unsigned>(shards) != static_cast<unsigned>(shard)) { skipped = true; throw skip{}; }
  }
  return st.path[d].chosen;
}

void fail(char const* fmt, ...) {
  char b[2048];
  va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  violation(b);
}
bool recording() { return rec; }
void note(char const* fmt, ...) {
  if (!rec) return;
  hooks_on = false;
  char b[1024];
  va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (!notes.empty()) notes += "; ";
  if (notes.size() < 4000) notes += b;
  hooks_on = true;
}
void nontrivial() { interesting = true; }
void op() { ++ops; }
void check_leaks(bool b) { leak_check = b; }
long live_allocations() { return live; }
std::string text(int max, std::string_view alphabet) {
  std::string s;
  for (int i = 0; i < max; ++i) {
    int c = pick(static_cast<int>(alphabet.size()) + 1);
    if (c == 0) break;
    s += alphabet[static_cast<std::size_t>(c - 1)];
  }
  return s;
}
std::string quote(std::string_view s) {
  std::string r = "'";
  if (s.size() > 400) return quote(s.substr(0, 40)) + "...(" + std::to_string(s.size()) + " bytes)";
  for (unsigned char c : s) {
    if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t"; else if (c == '\\') r += "\\\\";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r + "'";
}
std::string show(std::vector<std::string> const& v) {
  std::string r = "[";
  for (auto const& x : v) { if (r.size() > 1) r += ' '; if (r.size() > 1500) return r + "... (" + std::to_string(v.size()) + " values)]"; r += quote(x.size() > 60 ? x.substr(0, 60) : x); }
  return r + "]";
}
std::string const& scratch() {
  static std::string const dir = [] {
    auto const* e = getenv("MC_SCRATCH");
    std::string d = std::string{e ? e : "/tmp"} + "/mc.XXXXXX";
    if (!mkdtemp(d.data())) { perror("mkdtemp"); _exit(3); }
    return d;
  }();
  return dir;
}
std::string put_file(std::string const& name, std::string_view content) {
  auto const p = scratch() + "/" + name;
  int const fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  if (fd < 0) { perror("open"); _exit(3); }
  while (!content.empty()) {
    auto const n = ::write(fd, content.data(), content.size());
    if (n <= 0) { perror("write"); _exit(3); }
    content.remove_prefix(static_cast<std::size_t>(n));
  }
  ::close(fd);
  return p;
}
bool get_file(std::string const& path, std::string& content) {
  content.clear();
  int const fd = ::open(path.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return false;
  char b[4096];
  for (;;) { auto const n = ::read(fd, b, sizeof b); if (n <= 0) break; content.append(b, static_cast<std::size_t>(n)); }
  ::close(fd);
  return true;
}
}  // namespace seq

using namespace seq;

static void run_once(config const& c) {
  st.depth = 0; skipped = false; interesting = false; leak_check = c.leaks;
  notes.clear();
  long const before = live;
  long const objs = obj::live;
  hooks_on = true; in_exec = true;
  try {
    errno = ERANGE;  // whatever was left over by earlier code
    c.body();
  } catch (skip const&) {
    skipped = true;
  } catch (std::exception const& e) {
    static char b[512];
    snprintf(b, sizeof b, "unexpected exception: %s", e.what());
    if (!skipped) violation(b);
  } catch (...) {
    if (!skipped) violation("unexpected exception of unknown type");
  }
  in_exec = true;
  long const after = live;
  hooks_on = false;
  if (!skipped) {
    if (obj::live != objs) fail("%ld objects were not destroyed", obj::live - objs);
    if (leak_check && after > before) {
      // lazily created statics: only a repeated loss is a leak
      static int retry = 0;
      if (retry == 0) { retry = 1; auto const r = replaying; (void)r; auto const sv = notes; int const d = st.depth; run_once(c); (void)d; retry = 0; return; }
      fail("%ld allocations were not released", after - before);
    }
  }
  in_exec = false;
}

static bool next_path() {
  st.len = st.depth;
  while (st.len > 0) {
    node& n = st.path[st.len - 1];
    if (n.chosen + 1 < n.n) { ++n.chosen; ++edges; return true; }
    --st.len;
  }
  return false;
}

int main(int argc, char** argv) {
  std::string prop, tier = "quick", replay;
  double limit = 0;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") prop = nx();
    else if (a == "--config") cfg = nx();
    else if (a == "--tier") tier = nx();
    else if (a == "--shard") { auto s = nx(); shard = atoi(s.c_str()); shards = atoi(s.substr(s.find('/') + 1).c_str()); }
    else if (a == "--replay") replay = nx();
    else if (a == "--replay-out") out_path = nx();
    else if (a == "--limit") limit = atof(nx().c_str());
    else if (a == "--list") list = true;
  }
  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r");
    if (!f) { fprintf(stderr, "no replay file\n"); return 3; }
    static char buf[1 << 17];
    while (fgets(buf, sizeof buf, f)) {
      if (!strncmp(buf, "config ", 7)) { cfg = buf + 7; while (!cfg.empty() && cfg.back() == '\n') cfg.pop_back(); }
      else if (!strncmp(buf, "choices", 7)) { char *p = buf + 7, *e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; forced.push_back((int)v); p = e; } }
    }
    fclose(f);
    replaying = true;
    rec = true;
  }
  auto all = configs(prop);
  if (list) {
    for (auto const& c : all) if (c.tier == 0 || tier == "thorough") printf("%d %s\n", c.shards, c.name.c_str());
    return 0;
  }
  config const* c = nullptr;
  for (auto const& x : all) if (x.name == cfg) c = &x;
  if (!c) { fprintf(stderr, "no such config: %s\n", cfg.c_str()); return 3; }
  notes.reserve(8192);
  shard_depth = c->shard_depth;
  struct nullbuf : std::streambuf { int overflow(int ch) override { return ch == EOF ? 0 : ch; } std::streamsize xsputn(char const*, std::streamsize n) override { return n; } };
  static nullbuf nb;
  std::clog.rdbuf(&nb);
  __sanitizer_set_death_callback(on_death);
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  for (int s : {SIGABRT}) signal(s, on_abort);
  struct sigaction sa{};
  sa.sa_flags = SA_RESTART;
  sa.sa_handler = on_tick; sigaction(SIGPROF, &sa, nullptr);
  sa.sa_handler = on_wall; sigaction(SIGALRM, &sa, nullptr);
  itimerval tv{{1, 0}, {1, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
  alarm(10);
  double const t0 = now();
  if (replaying) {
    run_once(*c);
    printf("{\"config\":\"%s\",\"replay\":\"no violation\",\"notes\":\"%s\"}\n", esc(cfg).c_str(), esc(notes).c_str());
    return 0;
  }
  std::vector<std::string> samples;
  bool timed_out = false;
  unsigned long long next_sample = 1;
  for (;;) {
    rec = executions + 1 >= next_sample && samples.size() < 4;
    run_once(*c);
    if (skipped) ++skipped_n;
    else {
      ++executions;
      if (interesting) ++ntriv;
      if (rec) { samples.push_back(notes); next_sample = next_sample * 37 + 11; }
    }
    if (!next_path()) break;
    if (limit > 0 && (executions & 255) == 0 && now() - t0 > limit) { timed_out = true; break; }
  }
  printf("{\"config\":\"%s\",\"ok\":true,\"shard\":\"%d/%d\",\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"operations\":%llu,\"nontrivial\":%llu,\"max_choices\":%d,\"exhaustive\":%s,\"wall\":%.2f,\"samples\":[", esc(cfg).c_str(), shard, shards, executions, nodes + executions, edges, ops, ntriv, max_depth, timed_out ? "false" : "true", now() - t0);
  for (std::size_t i = 0; i < samples.size(); ++i) printf("%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
  printf("]}\n");
  fflush(stdout);
  _exit(0);
}
