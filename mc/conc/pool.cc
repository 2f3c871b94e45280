// Harnesses for the thread pool (C01, C02).
#include "mc.h"
#include "utl/thread_pool.h"
#include <cstdio>
#include <sstream>
#include <memory>

namespace {
enum { JOB, BATCH_DONE, INIT, FINI, REFUSED, CTOR };

std::string str(std::vector<int> const& v) {
  std::string s = "[";
  for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x);
  return s + "]";
}

// batches on one pool; every job writes its own plain slot which the caller
// reads after execute() has returned (visibility is checked by the race detector)
void run_batches(std::vector<int> const& sizes, bool hooks, bool reentrant) {
  std::vector<std::vector<int>> data;
  for (auto n : sizes) data.emplace_back(n + 1, 0);
  auto shared_total = std::vector<int>(sizes.size(), 0);
  {
    auto init = [] { mc::step(INIT, mc::self()); };
    auto fini = [] { mc::step(FINI, mc::self()); };
    auto pool = hooks ? std::make_unique<utl::thread_pool>(init, fini) : std::make_unique<utl::thread_pool>();
    for (auto b = 0; b != static_cast<int>(sizes.size()); ++b) {
      auto const n = sizes[b];
      auto d = data[b].data();
      // per-batch payload destroyed right after execute(): a late job of this batch would touch freed memory
      auto payload = std::make_unique<int>(b * 100);
      auto pp = payload.get();
      pool->execute(n, [=, &pool](std::size_t const i) {
        MC_CHECK(i < static_cast<std::size_t>(n), "job index %zu passed to batch of %d", i, n);
        d[i] += 1 + *pp;
        mc::step(JOB, b, static_cast<long>(i));
        if (reentrant && i == 0) {
          auto refused = false;
          try {
            pool->execute(1, [](std::size_t) { mc::fail("re-entrant batch was run"); });
          } catch (std::exception const&) {
            refused = true;
          }
          MC_CHECK(refused, "re-entrant submission was not refused");
        }
      });
      MC_CHECK(mc::count(JOB, b) == n, "batch %d of %d jobs: %ld jobs ran before the submission returned", b, n, mc::count(JOB, b));
      for (auto i = 0; i != n; ++i) MC_CHECK(d[i] == 1 + b * 100, "batch %d: job %d ran %d times", b, i, d[i] > 0 ? d[i] / (1 + b * 100) : 0);
      *pp = -1;
    }
    for (auto b = 0; b != static_cast<int>(sizes.size()); ++b) MC_CHECK(mc::count(JOB, b) == sizes[b], "late job in batch %d", b);
    if (hooks) MC_CHECK(mc::count(FINI) == 0, "finalizer ran before destruction");
  }
  MC_CHECK(mc::live_threads() == 0, "workers alive after destruction");
  for (auto b = 0; b != static_cast<int>(sizes.size()); ++b) MC_CHECK(mc::count(JOB, b) == sizes[b], "job of batch %d ran during destruction", b);
}

// as run_batches for large batches, every batch with its own data of the same size plus its own number
void many_jobs(int const batches, int const n) {
  auto pool = utl::thread_pool{};
  for (auto b = 0; b != batches; ++b) {
    auto const count = n + (b % 3 == 1 ? 1 : 0);
    std::vector<int> data(count, 0);
    auto d = data.data();
    pool.execute(count, [=](std::size_t const i) {
      MC_CHECK(i < static_cast<std::size_t>(count), "job index %zu passed to batch of %d", i, count);
      d[i] += b + 1;
    });
    for (auto i = 0; i != count; ++i) MC_CHECK(data[i] == b + 1, "batch %d of %d jobs: job %d ran %d times", b, count, i, data[i] / (b + 1));
  }
}

// hooks: initializer once per worker before its jobs, finalizer once after
void lifecycle(std::vector<int> const& sizes, bool nested_empty = false) {
  std::vector<int> slot(16, 0);  // per worker plain data, written by hooks and jobs of that worker only
  auto total = std::make_unique<int>(0);
  {
    auto s = slot.data();
    auto pool = utl::thread_pool{[s] {
                                   mc::step(INIT, mc::self());
                                   MC_CHECK(s[mc::self()] == 0, "initializer ran twice or after a job");
                                   s[mc::self()] = 1;
                                 },
                                 [s] {
                                   mc::step(FINI, mc::self());
                                   MC_CHECK(s[mc::self()] == 1, "finalizer without initializer or twice");
                                   s[mc::self()] = 2;
                                 }};
    for (auto n : sizes) {
      auto const before = mc::count(JOB);
      pool.execute(n, [s, nested_empty, &pool](std::size_t const i) {
        MC_CHECK(s[mc::self()] == 1, "job on a worker that is not initialized or already finalized");
        mc::step(JOB, mc::self());
        if (nested_empty && i == 0) {  // an empty batch is no batch: nothing runs, nothing is refused
          try {
            pool.execute(0, [](std::size_t) { mc::fail("job of an empty batch was run"); });
          } catch (std::exception const&) {
            mc::fail("empty batch was refused");
          }
        }
      });
      MC_CHECK(mc::count(JOB) == before + n, "wrong number of jobs");
    }
  }
  MC_CHECK(mc::live_threads() == 0, "workers alive after destruction");
  MC_CHECK(mc::created_threads() >= 1, "no worker at all");
  for (auto t = 1; t <= mc::created_threads(); ++t) {
    MC_CHECK(mc::count(INIT, t) == 1, "initializer ran %ld times on worker %d", mc::count(INIT, t), t);
    MC_CHECK(mc::count(FINI, t) == 1, "finalizer ran %ld times on worker %d", mc::count(FINI, t), t);
    MC_CHECK(slot[t] == 2, "hook effects not visible after destruction");
  }
}
}  // namespace

namespace mc {
std::vector<config> configs(std::string const& p) {
  std::vector<config> v;
  auto add = [&](int tier, char const* kind, unsigned workers, std::vector<int> sizes, int pb, int spurious, std::function<void()> body) {
    options o; o.workers = workers; o.preemptions = pb; o.spurious = spurious;
    v.push_back({std::string(kind) + " workers=" + std::to_string(workers) + " batches=" + str(sizes) + " pb=" + std::to_string(pb) + " spurious=" + std::to_string(spurious), o, std::move(body), tier});
  };
  if (p == "C01") {
    auto b = [&](int tier, unsigned w, std::vector<int> s, int pb, int sp, bool re = false) {
      add(tier, re ? "reentrant" : "batches", w, s, pb, sp, [=] { run_batches(s, false, re); });
    };
    b(0, 1, {1}, -1, 1); b(0, 1, {2, 1}, -1, 1); b(0, 1, {0, 2, 3}, -1, 0); b(0, 0, {2}, 3, 0);
    b(0, 2, {1}, -1, 0); b(0, 2, {2}, 3, 1); b(0, 2, {1, 1}, 3, 0); b(0, 2, {2, 1}, 3, 0); b(0, 2, {1, 2}, 2, 1); b(0, 2, {1, 3, 1}, 2, 0); b(0, 2, {3, 0, 2}, 2, 0); b(0, 2, {1, 1, 1, 1}, 1, 0); b(1, 2, {1, 1, 1, 1}, 2, 0);
    b(0, 3, {2}, 2, 0); b(0, 3, {1, 2}, 1, 0); b(1, 3, {1, 2}, 2, 0); b(0, 3, {4}, 1, 0); b(0, 2, {5, 4}, 1, 1);
    b(0, 1, {1}, -1, 0, true); b(0, 2, {2}, 2, 0, true); b(0, 2, {1, 2}, 2, 0, true);
    // many jobs, many batches, many workers (no preemptions: every order of the blocking operations only)
    auto many = [&](int tier, unsigned w, int batches, int n, int pb) {
      options o; o.workers = w; o.preemptions = pb; o.max_steps = 40'000'000;
      v.push_back({"many jobs workers=" + std::to_string(w) + " batches=" + std::to_string(batches) + "x" + std::to_string(n) + " pb=" + std::to_string(pb), o, [=] { many_jobs(batches, n); }, tier});
    };
    many(0, 1, 1, 70000, 0); many(0, 1, 300, 1, 0); many(0, 1, 2, 300, 0); many(0, 2, 1, 300, 0); many(0, 2, 2, 20, 1); many(0, 4, 1, 8, 0); many(0, 5, 1, 1, 0);
    many(1, 2, 3, 20, 1); many(1, 1, 70000, 1, 0); many(1, 3, 1, 300, 0); many(1, 6, 1, 12, 0); many(1, 4, 2, 20, 0);
    b(1, 2, {1, 1}, -1, 0); b(1, 2, {2}, -1, 1); b(1, 2, {2, 1}, 4, 1); b(1, 2, {1, 2, 1}, 3, 1); b(1, 3, {2, 1}, 3, 0); b(1, 3, {3}, 3, 0); b(1, 3, {1, 3}, 2, 1); b(1, 4, {2, 2}, 2, 0); b(1, 2, {3, 2, 1}, 3, 0); b(1, 2, {1, 1, 1, 1, 1}, 3, 0); b(1, 2, {2, 2}, 3, 0, true);
  }
  if (p == "C02") {
    auto b = [&](int tier, unsigned w, std::vector<int> s, int pb, int sp) { add(tier, "lifecycle", w, s, pb, sp, [=] { lifecycle(s); }); };
    b(0, 1, {}, -1, 2); b(0, 2, {}, -1, 1); b(0, 3, {}, 3, 1); b(0, 4, {}, 2, 0); b(0, 1, {0}, -1, 1); b(0, 1, {1}, -1, 1); b(0, 1, {2, 0, 1}, -1, 1); b(0, 0, {}, 3, 0); b(0, 0, {1}, 3, 0);
    auto ne = [&](int tier, unsigned w, std::vector<int> s, int pb, int sp) { add(tier, "lifecycle with nested empty batches", w, s, pb, sp, [=] { lifecycle(s, true); }); };
    ne(0, 1, {1, 1}, -1, 0); ne(0, 2, {2}, 2, 0); ne(1, 2, {1, 2}, 3, 1);
    b(0, 2, {0, 0}, -1, 0); b(0, 2, {1}, 3, 1); b(0, 2, {2}, 3, 0); b(0, 2, {1, 1}, 2, 1); b(0, 3, {1}, 2, 0); b(0, 3, {2, 1}, 1, 0); b(1, 3, {2, 1}, 2, 0);
    b(1, 2, {1}, -1, 1); b(1, 3, {}, -1, 1); b(1, 4, {}, 4, 0); b(1, 2, {1, 1}, 4, 1); b(1, 3, {2}, 3, 1); b(1, 2, {3, 1}, 3, 1); b(1, 4, {1}, 3, 0);
  }
  return v;
}
}  // namespace mc
