// Harnesses for the parallel loops (C03, C04).
#include "mc.h"
#include "utl/parallel_for.h"
#include <deque>
#include <list>
#include <memory>
#include <stdexcept>
#include <string>

void mc::log_line::on_log(std::string const&) {}

namespace {
enum { JOB, PROG, TLC, TLD, FLAG, AFTER, THREW };
enum variant { RUN, TLS, VEC, CVEC, DEQ, LIST, DESC };
char const* const names[] = {"run", "threadlocal", "vector", "const-vector", "deque", "list", "described"};

struct job_error {
  std::size_t idx;
  int kind;
};

// what jobs throw: objects of no hierarchy, of the standard one (more derived than any handler expects) and plain values
struct std_error : std::invalid_argument {
  explicit std_error(job_error const e) : std::invalid_argument{"job failed"}, e{e} {}
  job_error e;
};
[[noreturn]] void raise(std::size_t const i, int const kind) {
  switch (i % 3) {
    case 0: throw job_error{i, kind};
    case 1: throw std_error{{i, kind}};
    default: throw static_cast<long>(2 * i + static_cast<std::size_t>(kind));
  }
}
job_error identify() {
  try { throw; }
  catch (job_error const& e) { return e; }
  catch (std_error const& e) { MC_CHECK(e.what() == std::string{"job failed"}, "the exception of job %zu was changed", e.e.idx); return e.e; }
  catch (long const x) { return {static_cast<std::size_t>(x) / 2, static_cast<int>(x % 2)}; }
  catch (std::exception const& e) { mc::fail("an exception no job has thrown: %s", e.what()); }
}

struct per_thread {
  per_thread() : owner{mc::self()}, jobs{0} { mc::step(TLC, owner); }
  per_thread(per_thread const& o) : owner{mc::self()}, jobs{o.jobs} { mc::step(TLC, owner); }
  per_thread& operator=(per_thread const&) { mc::fail("per-thread object overwritten"); }
  ~per_thread() {
    MC_CHECK(owner == mc::self(), "per-thread object of T%d destroyed on T%d", owner, mc::self());
    mc::step(TLD, owner, jobs);
    owner = -1;
  }
  int owner;
  int jobs;
};

// its destruction marks the end of a worker that had a failing job
struct end_of_worker {
  bool threw = false;
  ~end_of_worker() {
    if (threw) {
      mc::event(1);
      mc::step(FLAG, mc::self());
    }
  }
};
thread_local end_of_worker eow;

struct param {
  variant v;
  int n;
  unsigned fail_job = 0, fail_prog = 0;  // bit masks
  bool cont = false;
  bool progress = true;
  bool watch_stop = false;
  bool default_args = false;
};

struct run_state {
  param p;
  std::unique_ptr<int[]> data, prog;
  std::vector<std::pair<int const*, int>> unused;

  void job(std::size_t i) {
    MC_CHECK(i < static_cast<std::size_t>(p.n), "job index %zu of %d", i, p.n);
    MC_CHECK(mc::count(JOB, static_cast<long>(i)) == 0, "job %zu run twice", i);
    if (p.watch_stop) {
      mc::event(1);
      auto flagged = false;
      auto after = 0;
      for (auto const& r : mc::log()) {
        if (r.tag == FLAG) flagged = true;
        if (r.tag == FLAG) MC_CHECK(r.tid != mc::self(), "worker that failed starts a further job");
        if (flagged && r.tag == JOB && r.tid == mc::self()) ++after;
      }
      MC_CHECK(after == 0, "worker starts a second job after the failure was flagged");
    }
    mc::step(JOB, static_cast<long>(i));
    data[i] += 1;
    if ((p.fail_job >> i) & 1U) {
      eow.threw = p.watch_stop;
      mc::step(THREW, static_cast<long>(i));
      raise(i, 0);
    }
  }
  void progress(std::size_t i) {
    MC_CHECK(i < static_cast<std::size_t>(p.n), "progress index %zu of %d", i, p.n);
    MC_CHECK(mc::count(JOB, static_cast<long>(i)) == 1, "progress for job %zu that has not been run", i);
    MC_CHECK(((p.fail_job >> i) & 1U) == 0, "progress for failed job %zu", i);
    MC_CHECK(mc::count(PROG, static_cast<long>(i)) == 0, "progress for job %zu twice", i);
    MC_CHECK(data[i] == 1, "progress before the end of job %zu", i);
    mc::step(PROG, static_cast<long>(i));
    prog[i] += 1;
    if ((p.fail_prog >> i) & 1U) {
      eow.threw = p.watch_stop;
      mc::step(THREW, static_cast<long>(i));
      raise(i, 1);
    }
  }
};

template <typename C>
utl::errors_t over(C& c, run_state& s, utl::parallel_error_strategy st) {
  auto f = [&](auto& x) {
    static_assert(std::is_same_v<decltype(x), decltype(*c.begin())>);
    auto i = std::size_t{0};
    auto found = false;
    for (auto& y : c) {
      if (&y == &x) { found = true; break; }
      ++i;
    }
    MC_CHECK(found, "function called with something that is no element of the container");
    s.job(i);
  };
  if (!s.p.progress) {
    if (s.p.default_args) return utl::parallel_for(c, f);
    return utl::parallel_for(c, f, utl::noop_progress_update{}, st);
  }
  if (s.p.default_args) return utl::parallel_for(c, f, [&](std::size_t i) { s.progress(i); });
  return utl::parallel_for(c, f, [&](std::size_t i) { s.progress(i); }, st);
}

utl::errors_t call(run_state& s) {
  auto const n = static_cast<std::size_t>(s.p.n);
  auto const st = s.p.cont ? utl::parallel_error_strategy::CONTINUE_EXEC : utl::parallel_error_strategy::QUIT_EXEC;
  auto job = [&](std::size_t i) { s.job(i); };
  auto tjob = [&](per_thread& t, std::size_t i) {
    MC_CHECK(t.owner == mc::self(), "per-thread object of T%d handed to T%d", t.owner, mc::self());
    ++t.jobs;
    s.job(i);
  };
  auto prog = [&](std::size_t i) { s.progress(i); };
  switch (s.p.v) {
    case RUN:
      if (s.p.default_args) return s.p.progress ? utl::parallel_for_run(n, job, prog) : utl::parallel_for_run(n, job);
      return s.p.progress ? utl::parallel_for_run(n, job, prog, st) : utl::parallel_for_run(n, job, utl::noop_progress_update{}, st);
    case TLS:
      if (s.p.default_args) return s.p.progress ? utl::parallel_for_run_threadlocal<per_thread>(n, tjob, prog) : utl::parallel_for_run_threadlocal<per_thread>(n, tjob);
      return s.p.progress ? utl::parallel_for_run_threadlocal<per_thread>(n, tjob, prog, st) : utl::parallel_for_run_threadlocal<per_thread>(n, tjob, utl::noop_progress_update{}, st);
    case VEC: { std::vector<int> v(n, 7); return over(v, s, st); }
    case CVEC: { std::vector<int> const v(n, 7); return over(v, s, st); }
    case DEQ: { std::deque<int> v(n, 7); return over(v, s, st); }
    case LIST: { std::list<int> const v(n, 7); return over(v, s, st); }
    case DESC: {
      std::vector<int> const v(n, 7);
      auto f = [&](int const& x) {
        MC_CHECK(&x >= v.data() && &x < v.data() + n, "function called with something that is no element of the container");
        s.job(static_cast<std::size_t>(&x - v.data()));
      };
      return s.p.progress ? utl::parallel_for("desc", v, 2, f, prog, st) : s.p.default_args ? utl::parallel_for("desc", v, 1, f) : utl::parallel_for("desc", v, 3, f, utl::noop_progress_update{}, st);
    }
  }
  __builtin_unreachable();
}

void run(param const p, unsigned workers) {
  run_state s{p, std::make_unique<int[]>(p.n + 1), std::make_unique<int[]>(p.n + 1), {}};
  auto const n = p.n;
  auto const any_fail = ((p.fail_job | p.fail_prog) & ((1U << n) - 1)) != 0;
  auto threw = false;
  try {
    auto const errors = call(s);
    MC_CHECK(mc::live_threads() == 0, "workers still running after return");
    if (!p.cont) MC_CHECK(mc::count(THREW) == 0, "a job threw but the call returned");
    for (auto i = 0; i != n; ++i) {
      MC_CHECK(s.data[i] == 1 && mc::count(JOB, i) == 1, "job %d run %d times", i, s.data[i]);
      auto const jf = (p.fail_job >> i) & 1U;
      if (p.progress) MC_CHECK(s.prog[i] == (jf ? 0 : 1) && mc::count(PROG, i) == (jf ? 0 : 1), "progress for job %d called %d times", i, s.prog[i]);
    }
    auto expected = 0;
    for (auto i = 0; i != n; ++i) {
      auto const jf = ((p.fail_job >> i) & 1U) != 0;
      auto const pf = !jf && p.progress && ((p.fail_prog >> i) & 1U) != 0;
      auto hits = 0;
      for (auto const& [idx, ex] : errors) {
        if (idx != static_cast<std::size_t>(i)) continue;
        ++hits;
        MC_CHECK(ex != nullptr, "error entry of job %d without exception", i);
        try {
          std::rethrow_exception(ex);
        } catch (...) {
          auto const e = identify();
          MC_CHECK(e.idx == idx && e.kind == (jf ? 0 : 1), "error entry of job %d holds the exception of job %zu", i, e.idx);
        }
      }
      MC_CHECK(hits == (jf || pf ? 1 : 0), "%d error entries for job %d", hits, i);
      expected += jf || pf;
    }
    MC_CHECK(errors.size() == static_cast<std::size_t>(expected), "%zu error entries instead of %d", errors.size(), expected);
  } catch (...) {
    auto const e = identify();
    threw = true;
    MC_CHECK(!p.cont, "exception although errors were to be collected");
    MC_CHECK(mc::live_threads() == 0, "workers still running after the exception");
    MC_CHECK(mc::count(THREW, static_cast<long>(e.idx)) == 1, "exception of a job that did not throw");
    for (auto i = 0; i != n; ++i) MC_CHECK(s.data[i] == mc::count(JOB, i) && s.data[i] <= 1, "job %d run %d times", i, s.data[i]);
  }
  MC_CHECK(threw == (!p.cont && any_fail && mc::count(THREW) != 0), "failure of a job was lost");
  MC_CHECK(any_fail || !threw, "exception without failing job");
  if (!threw && !p.cont) MC_CHECK(mc::count(THREW) == 0, "failure of a job was lost");
  MC_CHECK(workers == 0 || n == 0 || mc::created_threads() >= 1, "no worker");
  if (p.v == TLS) {
    auto used = 0L;
    for (auto t = 1; t <= mc::created_threads(); ++t) {
      auto jobs = 0L;
      for (auto const& r : mc::log()) jobs += r.tag == JOB && r.tid == t;
      used += jobs;
      MC_CHECK(mc::count(TLC, t) <= 1 && mc::count(TLC, t) == mc::count(TLD, t), "per-thread object created %ld and destroyed %ld times on T%d", mc::count(TLC, t), mc::count(TLD, t), t);
      MC_CHECK(jobs == 0 || mc::count(TLC, t) == 1, "worker without its own object");
      for (auto const& r : mc::log()) if (r.tag == TLD && r.tid == t) MC_CHECK(r.b == jobs, "per-thread object saw %ld of %ld jobs of its worker", r.b, jobs);
    }
    MC_CHECK(mc::count(TLC) == mc::count(TLD), "per-thread objects created and destroyed differ");
  }
}

// loops over many jobs: every stride-th job fails (0: none), in turn in the job and in its progress callback
void many(variant const v, std::size_t const n, std::size_t const stride, bool const cont) {
  std::vector<int> ran(n, 0), prog(n, 0);
  auto const fails = [&](std::size_t i) { return stride != 0 && i % stride == stride - 1; };
  auto const in_job = [&](std::size_t i) { return stride != 0 && (i / stride) % 2 == 0; };
  auto const job = [r = ran.data(), n, &fails, &in_job](std::size_t const i) {
    MC_CHECK(i < n, "job index %zu of %zu", i, n);
    ++r[i];
    if (fails(i) && in_job(i)) raise(i, 0);
  };
  auto const progress = [p = prog.data(), n, &fails, &in_job](std::size_t const i) {
    MC_CHECK(i < n, "progress index %zu of %zu", i, n);
    ++p[i];
    if (fails(i) && !in_job(i)) raise(i, 1);
  };
  auto const st = cont ? utl::parallel_error_strategy::CONTINUE_EXEC : utl::parallel_error_strategy::QUIT_EXEC;
  auto errors = utl::errors_t{};
  auto threw = false;
  try {
    switch (v) {
      case RUN: errors = utl::parallel_for_run(n, job, progress, st); break;
      case TLS:
        errors = utl::parallel_for_run_threadlocal<per_thread>(n, [&](per_thread& t, std::size_t i) {
          MC_CHECK(t.owner == mc::self(), "per-thread object of T%d handed to T%d", t.owner, mc::self());
          job(i);
        }, progress, st);
        break;
      case VEC: { std::vector<int> c(n, 7); errors = utl::parallel_for(c, [&](int& x) { job(static_cast<std::size_t>(&x - c.data())); }, progress, st); break; }
      case CVEC: { std::vector<int> const c(n, 7); errors = utl::parallel_for(c, [&](int const& x) { job(static_cast<std::size_t>(&x - c.data())); }, progress, st); break; }
      case DESC: { std::vector<int> const c(n, 7); errors = utl::parallel_for("desc", c, 1000000, [&](int const& x) { job(static_cast<std::size_t>(&x - c.data())); }, progress, st); break; }
      default: mc::fail("no such variant");
    }
  } catch (...) {
    auto const e = identify();
    threw = true;
    MC_CHECK(!cont && fails(e.idx) && ran[e.idx] == 1, "exception of job %zu", e.idx);
  }
  MC_CHECK(mc::live_threads() == 0, "workers still running");
  MC_CHECK(threw == (!cont && stride != 0 && n >= stride), "failure of a job was lost");
  if (threw) {
    for (auto i = std::size_t{0}; i != n; ++i) MC_CHECK(ran[i] <= 1 && prog[i] <= ran[i], "job %zu run %d times", i, ran[i]);
    return;
  }
  for (auto i = std::size_t{0}; i != n; ++i) {
    MC_CHECK(ran[i] == 1, "job %zu of %zu run %d times", i, n, ran[i]);
    MC_CHECK(prog[i] == (fails(i) && in_job(i) ? 0 : 1), "progress for job %zu of %zu called %d times", i, n, prog[i]);
  }
  std::vector<int> hits(n, 0);
  for (auto const& [idx, ex] : errors) {
    MC_CHECK(idx < n && ex != nullptr && fails(idx) && ++hits[idx] == 1, "error entry for job %zu", idx);
    try {
      std::rethrow_exception(ex);
    } catch (...) {
      auto const e = identify();
      MC_CHECK(e.idx == idx && e.kind == (in_job(idx) ? 0 : 1), "error entry of job %zu holds the exception of job %zu", idx, e.idx);
    }
  }
  MC_CHECK(errors.size() == (stride == 0 ? 0 : n / stride), "%zu error entries for %zu jobs", errors.size(), n);
}
}  // namespace

namespace mc {
std::vector<config> configs(std::string const& prop) {
  std::vector<config> v;
  auto add_many = [&](int tier, variant var, unsigned workers, int pb, std::size_t n, std::size_t stride = 0, bool cont = true) {
    options o; o.workers = workers; o.preemptions = pb; o.max_steps = 40'000'000;
    v.push_back({std::string(names[var]) + " many jobs workers=" + std::to_string(workers) + " n=" + std::to_string(n) + (stride != 0 ? " failing every " + std::to_string(stride) : "") + (prop == "C04" ? cont ? " continue" : " quit" : "") + " pb=" + std::to_string(pb), o,
                 [=] { many(var, n, stride, cont); }, tier});
  };
  auto add = [&](int tier, unsigned workers, int pb, param p) {
    options o; o.workers = workers; o.preemptions = pb;
    auto name = std::string(names[p.v]) + " workers=" + std::to_string(workers) + " n=" + std::to_string(p.n);
    if (p.fail_job | p.fail_prog) name += " failing_jobs=" + std::to_string(p.fail_job) + " failing_progress=" + std::to_string(p.fail_prog);
    if (prop == "C04") name += p.cont ? " continue" : " quit";
    if (!p.progress) name += " no-progress";
    if (p.default_args) name += " defaults";
    if (p.watch_stop) name += " watch-stop";
    name += " pb=" + std::to_string(pb);
    v.push_back({name, o, [p, workers] { run(p, workers); }, tier});
  };
  auto const P = [](variant v, int n, unsigned fj = 0, unsigned fp = 0, bool cont = false, bool progress = true) { param p{v, n}; p.fail_job = fj; p.fail_prog = fp; p.cont = cont; p.progress = progress; return p; };
  auto const W = [](param p) { p.watch_stop = true; return p; };
  auto const D = [](param p) { p.default_args = true; return p; };
  if (prop == "C03") {
    for (auto var : {RUN, TLS, VEC, CVEC, DESC}) {
      add_many(0, var, 1, 0, 70000); add_many(0, var, 1, 0, 300); add_many(0, var, 2, 0, 300); add_many(0, var, 2, 1, 20); add_many(0, var, 4, 0, 8); add_many(1, var, 5, 0, 9); add_many(1, var, 2, 1, 300);
    }
    for (auto var : {RUN, TLS, VEC, CVEC, DEQ, LIST, DESC}) {
      for (auto w : {0U, 1U, 2U, 3U}) add(0, w, w == 3 ? 2 : 3, P(var, 0));
      add(0, 0, 3, P(var, 2));
      add(0, 1, -1, P(var, 3));
      add(0, 2, var == RUN || var == TLS ? -1 : 3, P(var, 1));
      add(0, 2, 3, P(var, 2));
      add(0, 2, 2, P(var, 3));
      add(0, 2, 2, P(var, 3, 0, 0, true));
      add(0, 2, 2, P(var, 2, 0, 0, false, false));
      add(0, 2, 2, D(P(var, 2, 0, 0, false, false)));
      if (var != DESC) add(0, 2, 2, D(P(var, 2)));
      add(0, 3, 2, P(var, 2));
      add(0, 3, 1, P(var, 4));
      add(0, 2, -1, P(var, 2));
      add(0, 2, 4, P(var, 4));
      add(0, 3, 3, P(var, 3));
      add(0, 3, 2, P(var, 5));
      add(0, 4, 2, P(var, 4));
      add(1, 3, -1, P(var, 3));
      add(1, 2, -1, P(var, 6));
      add(1, 4, 3, P(var, 4));
      add(1, 5, 2, P(var, 4));
    }
  }
  if (prop == "C04") {
    for (auto var : {RUN, TLS, VEC, CVEC, DESC}) {
      add_many(0, var, 1, 0, 70000, 1); add_many(0, var, 1, 0, 70000, 69999); add_many(0, var, 1, 0, 70000, 69999, false); add_many(0, var, 1, 0, 300, 7); add_many(0, var, 2, 0, 300, 3); add_many(0, var, 2, 0, 300, 30, false); add_many(0, var, 2, 1, 20, 2); add_many(0, var, 2, 1, 20, 18, false); add_many(0, var, 4, 0, 8, 2); add_many(1, var, 4, 0, 20, 2); add_many(1, var, 3, 1, 20, 6, false);
    }
    for (auto var : {RUN, TLS, VEC, CVEC, DEQ, LIST, DESC}) {
      auto const main = var == RUN || var == TLS;
      for (auto cont : {true, false}) {
        add(0, 1, -1, P(var, 3, 1, 0, cont));
        add(0, 1, -1, P(var, 3, 4, 1, cont));
        add(0, 0, 2, P(var, 2, 2, 0, cont));
        for (auto m = 1U; m != 8; ++m) {
          if (!main && m != 3 && m != 6) continue;
          add(0, 2, 2, P(var, 3, m, 0, cont));
          add(0, 2, 4, P(var, 3, m, 7U & ~m, cont));
          add(0, 3, 2, P(var, 3, m, 0, cont));
        }
        add(0, 2, 2, P(var, 3, 1, 2, cont));
        add(0, 2, 2, P(var, 3, 0, 5, cont));
        add(0, 2, main ? 3 : 2, P(var, 2, 3, 0, cont));
        add(0, 2, 2, P(var, 2, 2, 0, cont, false));
        if (main) { add(0, 3, 1, P(var, 3, 7, 0, cont)); add(0, 3, 1, P(var, 4, 5, 2, cont)); }
        add(0, 2, -1, P(var, 2, 3, 0, cont));
        add(0, 3, 3, P(var, 2, 3, 0, cont));
        add(0, 2, 3, P(var, 5, 0x15, 0x0a, cont));
        add(1, 2, -1, P(var, 4, 0x5, 0x2, cont));
        add(1, 3, -1, P(var, 2, 3, 0, cont));
        add(1, 3, 4, P(var, 3, 7, 0, cont));
        add(1, 4, 2, P(var, 4, 6, 1, cont));
      }
      add(0, 2, 2, D(P(var, 2, 1, 0, false, false)));
      if (var != DESC) add(0, 2, 2, D(P(var, 2, 1, 2, false, true)));
      add(0, 1, 2, W(P(var, 4, 1)));
      add(0, 2, 1, W(P(var, 4, 1)));
      add(0, 2, 2, W(P(var, 4, 2, 0, false, false)));
      add(0, 2, 2, W(P(var, 4, 0, 1)));
      if (main) add(0, 3, 1, W(P(var, 5, 1)));
      add(0, 3, 2, W(P(var, 5, 1)));
      add(0, 2, 3, W(P(var, 5, 6)));
      add(0, 3, 2, W(P(var, 6, 2, 1)));
      add(1, 3, 4, W(P(var, 6, 2, 1)));
      add(1, 4, 2, W(P(var, 6, 2, 1)));
      add(1, 2, -1, W(P(var, 5, 2)));
    }
  }
  return v;
}
}  // namespace mc
