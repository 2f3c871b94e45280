// Harnesses for concurrent progress updates (C05) and the progress registry (C07).
#include "mc.h"
#include "utl/progress_tracker.h"
#include <algorithm>
#include <cmath>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

namespace {
enum { CB, OBS };

// ------------------------------------------------------------------ C05
struct op {
  char k;  // i increment, m monotonic, a absolute, I increment_fn, M update_fn
  std::size_t v;
};
using script = std::vector<op>;

struct bounds {
  float lo, hi, mod;
  std::size_t in_high;
};

float out_of(bounds const& b, std::size_t in) {  // exact for the bounds used here
  auto const ratio = b.in_high == 0 ? 1.0 : static_cast<double>(in) / static_cast<double>(b.in_high);
  auto const x = b.lo + std::round((b.hi - b.lo) * ratio / b.mod) * b.mod;
  return static_cast<float>(std::min<double>(std::max<double>(x, b.lo), b.hi));
}

void apply(std::size_t& in, op const& o) {
  switch (o.k) {
    case 'i': in += o.v; break;
    case 'I': in += 1; break;
    case 'm': case 'M': in = std::max(in, o.v); break;
    case 'a': in = o.v; break;
  }
}

void finals(std::vector<script> const& s, std::vector<std::size_t>& pos, std::size_t in, std::set<std::size_t>& res) {
  auto done = true;
  for (auto t = 0U; t != s.size(); ++t) {
    if (pos[t] == s[t].size()) continue;
    done = false;
    auto x = in;
    apply(x, s[t][pos[t]]);
    ++pos[t];
    finals(s, pos, x, res);
    --pos[t];
  }
  if (done) res.insert(in);
}

void concurrent_updates(bounds const b, std::vector<script> const& threads, std::size_t initial, bool observer, bool status_cb) {
  auto monotone = true;
  for (auto const& t : threads) for (auto const& o : t) monotone = monotone && o.k != 'a';
  auto configured = false;
  auto t = std::make_unique<utl::progress_tracker>([&](utl::progress_tracker const& x) {
    if (!configured) return;
    mc::step(CB, static_cast<long>(mc::self()));
    auto const o = x.out_.load();
    MC_CHECK(o >= b.lo && o <= b.hi, "output %f outside its bounds", static_cast<double>(o));
    if (status_cb) {
      std::lock_guard<std::mutex> l{x.mutex_};
      MC_CHECK(x.status_ == "busy", "status changed");
    }
  });
  if (status_cb) t->status("busy");
  t->out_bounds(b.lo, b.hi).out_mod(b.mod).in_high(b.in_high);
  t->update(initial);
  MC_CHECK(t->out_ == out_of(b, initial), "wrong output after a sequential update");
  configured = true;
  auto const out0 = t->out_.load();

  std::vector<std::thread> th;
  for (auto const& s : threads) {
    th.emplace_back([&] {
      auto last = b.lo;
      for (auto const& o : s) {
        switch (o.k) {
          case 'i': if (o.v == 1) t->increment(); else t->increment(o.v); break;
          case 'I': t->increment_fn()(); break;
          case 'm': t->update_monotonic(o.v); break;
          case 'M': t->update_fn()(o.v); break;
          case 'a': t->update(o.v); break;
        }
        if (monotone) {
          auto const now = t->out_.load();
          MC_CHECK(now >= last, "output went back from %f to %f", static_cast<double>(last), static_cast<double>(now));
          last = now;
        }
      }
    });
  }
  if (observer) {
    th.emplace_back([&] {
      auto const x = t->out_.load();
      auto const y = t->out_.load();
      MC_CHECK(x >= b.lo && x <= b.hi && y >= b.lo && y <= b.hi, "output outside its bounds");
      MC_CHECK(!monotone || y >= x, "output went back from %f to %f", static_cast<double>(x), static_cast<double>(y));
    });
  }
  for (auto& x : th) x.join();

  std::set<std::size_t> allowed;
  std::vector<std::size_t> pos(threads.size(), 0);
  finals(threads, pos, initial, allowed);
  auto const in = t->in_.load();
  auto const out = t->out_.load();
  MC_CHECK(allowed.count(in) == 1, "final input %zu is no result of the updates in any order", in);
  MC_CHECK(out == out_of(b, in), "final output %f instead of %f for input %zu", static_cast<double>(out), static_cast<double>(out_of(b, in)), in);
  auto const cbs = mc::count(CB);
  if (monotone) {
    std::set<float> distinct;
    for (auto i = initial; i <= in; ++i) distinct.insert(out_of(b, i));
    MC_CHECK(cbs <= static_cast<long>(distinct.size()) - 1, "%ld callbacks for at most %zu output changes", cbs, distinct.size() - 1);
  }
  MC_CHECK(out == out0 || cbs >= 1, "output changed without a callback");
  mc::outcome("in=" + std::to_string(in) + " out=" + std::to_string(static_cast<int>(out)) + " callbacks=" + std::to_string(cbs));
}

std::string name(bounds const& b, std::vector<script> const& s, std::size_t init) {
  std::ostringstream o;
  o << "out=" << b.lo << ".." << b.hi << "/" << b.mod << " in_high=" << b.in_high << " start=" << init << " threads=";
  for (auto const& t : s) {
    o << "[";
    for (auto const& x : t) o << x.k << x.v << " ";
    o << "]";
  }
  return o.str();
}

// ------------------------------------------------------------------ C07
struct null_out : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { mc::step(OBS, static_cast<long>(std::count(s, s + n, '\n'))); return n; }
};

enum act { GET_A, GET_B, ACT_A, ACT_B, ACTIVE, ACTIVE_OR_A, ACTIVE_OR_B, CLEAR, UPD_A, INC_A, STATUS_A, PRINT, BOUNDS_A, UPD_B, HOLD_UPD };
char const* const act_names[] = {"get(a)", "get(b)", "activate(a)", "activate(b)", "active", "active-or-activate(a)", "active-or-activate(b)", "clear", "update(a)", "increment(a)", "status(a)", "print", "bounds(a)", "update(b)", "update(held)"};

// Abstract registry: a generation counter per clear; identities are compared within the harness.
// Every call is atomic; the result must be explainable by some order of the calls.
struct call {
  act a;
  long res;  // pointer identity (as number) or -1 for exception, 0 for none
};

struct abs_state {
  std::map<std::string, long> m;  // name -> identity
  long active = 0;
};

// tries to order the calls such that all results match; identities of newly created trackers are learnt
bool explain(std::vector<std::vector<call>> const& c, std::vector<std::size_t>& pos, abs_state const& s, std::set<long> const& used) {
  auto all_done = true;
  for (auto t = 0U; t != c.size(); ++t) {
    if (pos[t] == c[t].size()) continue;
    all_done = false;
    auto const& x = c[t][pos[t]];
    auto n = s;
    auto u = used;
    auto ok = true;
    auto get = [&](std::string const& nm) -> long {
      auto it = n.m.find(nm);
      if (it != end(n.m)) return it->second;
      if (u.count(x.res) != 0 || x.res <= 0) return -2;  // a new tracker must have a new identity
      u.insert(x.res);
      n.m[nm] = x.res;
      return x.res;
    };
    switch (x.a) {
      case GET_A: ok = get("a") == x.res; break;
      case GET_B: ok = get("b") == x.res; break;
      case ACT_A: ok = (n.active = get("a")) == x.res; break;
      case ACT_B: ok = (n.active = get("b")) == x.res; break;
      case ACTIVE: ok = x.res == (n.active == 0 ? -1 : n.active); break;
      case ACTIVE_OR_A: case ACTIVE_OR_B:
        if (n.active == 0) n.active = get(x.a == ACTIVE_OR_A ? "a" : "b");
        ok = n.active == x.res;
        break;
      case CLEAR: n = {}; break;
      default: break;
    }
    if (!ok) continue;
    ++pos[t];
    auto const r = explain(c, pos, n, u);
    --pos[t];
    if (r) return true;
  }
  return all_done;
}

void registry(std::vector<std::vector<act>> const& threads, bool visible, bool warm) {
  null_out out;
  auto* const old = std::cout.rdbuf(&out);
  auto run = [&] {
    auto ids = std::map<utl::progress_tracker*, long>{};
    std::vector<std::vector<std::pair<act, utl::progress_tracker_ptr>>> res(threads.size());
    std::vector<std::vector<char>> ex(threads.size());
    auto held = warm ? utl::get_global_progress_trackers().get_tracker("held") : nullptr;
    std::vector<std::thread> th;
    for (auto t = 0U; t != threads.size(); ++t) {
      res[t].reserve(8);
      ex[t].reserve(8);
      th.emplace_back([&, t] {
        for (auto const a : threads[t]) {
          utl::progress_tracker_ptr p;
          auto failed = false;
          auto& g = utl::get_global_progress_trackers();
          switch (a) {
            case GET_A: p = g.get_tracker("a"); break;
            case GET_B: p = g.get_tracker("b"); break;
            case ACT_A: p = utl::activate_progress_tracker("a"); break;
            case ACT_B: p = utl::activate_progress_tracker("b"); break;
            case ACTIVE: try { p = utl::get_active_progress_tracker(); MC_CHECK(p != nullptr, "no tracker, no exception"); } catch (std::exception const&) { failed = true; } break;
            case ACTIVE_OR_A: p = utl::get_active_progress_tracker_or_activate("a"); break;
            case ACTIVE_OR_B: p = utl::get_active_progress_tracker_or_activate("b"); break;
            case CLEAR: g.clear(); break;
            case PRINT: g.print(); break;
            case HOLD_UPD: held->update(70); MC_CHECK(held->in_ == 70 && held->out_ == 70.F, "held tracker unusable"); break;
            case UPD_A: p = g.get_tracker("a"); p->update(40); break;
            case INC_A: p = g.get_tracker("a"); p->increment(5); break;
            case UPD_B: p = g.get_tracker("b"); p->update(60); break;
            case STATUS_A: p = g.get_tracker("a"); p->status("x" + std::to_string(t)); break;
            case BOUNDS_A: p = g.get_tracker("a"); p->in_high(200); break;
          }
          auto const as = a == UPD_A || a == INC_A || a == STATUS_A || a == BOUNDS_A ? GET_A : a == UPD_B ? GET_B : a;
          res[t].emplace_back(as, std::move(p));
          ex[t].push_back(failed);
        }
      });
    }
    for (auto& x : th) x.join();
    std::vector<std::vector<call>> calls(threads.size());
    for (auto t = 0U; t != threads.size(); ++t)
      for (auto i = 0U; i != res[t].size(); ++i) {
        auto* p = res[t][i].second.get();
        auto const id = p == nullptr ? 0L : ids.emplace(p, static_cast<long>(ids.size()) + 1).first->second;
        calls[t].push_back({res[t][i].first, ex[t][i] ? -1L : id});
      }
    std::vector<std::size_t> pos(threads.size(), 0);
    auto s = abs_state{};
    MC_CHECK(explain(calls, pos, s, {}), "results of the registry operations match no order of the calls");
    if (held) MC_CHECK(held->in_ == 0 || held->in_ == 70, "held tracker changed");
    auto o = std::string{};
    for (auto const& t : calls) { for (auto const& c : t) o += std::to_string(c.res) + " "; o += "| "; }
    mc::outcome(o);
  };
  if (visible) {
    utl::global_progress_bars bars{false};
    run();
  } else {
    run();
  }
  if (visible) {
    auto failed = false;
    try { utl::get_active_progress_tracker(); } catch (std::exception const&) { failed = true; }
    MC_CHECK(failed, "active tracker survives the progress-bar scope");
    MC_CHECK(utl::get_global_progress_trackers().silent_, "silent mode not restored");
    MC_CHECK(utl::get_global_progress_trackers().trackers_.empty(), "trackers survive the progress-bar scope");
  }
  std::cout.rdbuf(old);
}
}  // namespace

namespace mc {
std::vector<config> configs(std::string const& prop) {
  std::vector<config> v;
  if (prop == "C05") {
    auto add = [&](int tier, int pb, int weak, bounds b, std::vector<script> s, std::size_t init = 0, bool obs = false, bool scb = false) {
      options o; o.preemptions = pb; o.weak_fail = weak;
      v.push_back({name(b, s, init) + (obs ? " observer" : "") + (scb ? " locking-callback" : "") + " pb=" + std::to_string(pb) + (weak ? " weak-failures=" + std::to_string(weak) : ""), o, [=] { concurrent_updates(b, s, init, obs, scb); }, tier});
    };
    bounds const pct{0, 100, 1, 100}, quarter{0, 100, 25, 4}, part{30, 50, 2, 8}, coarse{0, 100, 50, 8}, zero{10, 20, 1, 0}, one{0, 8, 1, 8};
    op const i1{'i', 1}, i2{'i', 2}, i3{'i', 3}, I{'I', 1}, m1{'m', 1}, m2{'m', 2}, m3{'m', 3}, M4{'M', 4}, a1{'a', 1}, a2{'a', 2}, a0{'a', 0}, a7{'a', 7}, i40{'i', 40}, m90{'m', 90}, i80{'i', 80};
    for (auto const& b : {quarter, part, one}) {
      add(0, -1, 0, b, {{i1}, {i1}});
      add(0, -1, 0, b, {{i1, i1}, {i2}});
      add(0, -1, 1, b, {{m1}, {m2}});
      add(0, -1, 1, b, {{m2, m3}, {m1}});
      add(0, -1, 1, b, {{m3}, {i1, I}});
      add(0, -1, 0, b, {{i1}, {i2}}, 0, true);
      add(0, 3, 1, b, {{m1, M4}, {m2, m3}});
      add(0, 3, 0, b, {{i1, i1}, {i1, i1}});
      add(0, 3, 1, b, {{i1}, {m2}, {I}});
      add(0, 3, 0, b, {{i1}, {i1}, {i1}});
      add(0, 2, 1, b, {{m1}, {m2}, {m3}}, 0, true);
      add(0, -1, 0, b, {{a1}, {a2}});
      add(0, -1, 0, b, {{a2, a0}, {a1}});
      add(0, 4, 0, b, {{a2}, {a0}, {a1}});
      add(0, 4, 0, b, {{a1, a2}, {i1}});
      add(0, 3, 1, b, {{a7, m2}, {a0, i1}}, 3);
      add(0, 3, 0, b, {{a1, a7}, {a2, a0}});
      add(0, 2, 0, b, {{i1}, {i1}}, 0, false, true);
      add(1, -1, 1, b, {{i1, i1}, {m2, m3}});
      add(1, -1, 0, b, {{a2, a0}, {a1, a7}});
      add(1, 4, 0, b, {{i1}, {i1}, {i1}}, 0, true);
      add(1, 4, 1, b, {{m1, m3}, {m2}, {i1}});
      add(1, 3, 0, b, {{a1}, {a2}, {a0, i1}});
      add(1, 3, 0, b, {{i1}, {i1}, {i1}, {i1}});
      add(1, 4, 0, b, {{i1, i1, i1}, {i2, I}});
    }
    add(0, -1, 0, coarse, {{i1}, {i1}}); add(0, -1, 0, coarse, {{i1, i1}, {i2}}, 1); add(0, 3, 0, coarse, {{i3}, {i2}, {m3}}, 2);
    add(0, -1, 0, zero, {{i1}, {m2}}, 1); add(0, -1, 0, zero, {{i1}, {i1}}, 1, true);
    add(0, -1, 0, pct, {{i40, i80}, {m90}}); add(0, -1, 0, pct, {{i80}, {i40}}, 10, true); add(0, 3, 0, pct, {{a1, i80}, {m90, i40}});
  }
  if (prop == "C07") {
    auto add = [&](int tier, int pb, std::vector<std::vector<act>> s, bool visible, bool warm) {
      options o; o.preemptions = pb;
      auto n = std::string(visible ? "visible" : "silent") + (warm ? " warm" : " cold");
      for (auto const& t : s) { n += " ["; for (auto a : t) n += std::string(act_names[a]) + " "; n += "]"; }
      v.push_back({n + " pb=" + std::to_string(pb), o, [=] { registry(s, visible, warm); }, tier});
    };
    // all pairs of single operations, all pairs against a two-operation thread
    std::vector<act> const acts = {GET_A, GET_B, ACT_A, ACT_B, ACTIVE, ACTIVE_OR_A, ACTIVE_OR_B, CLEAR, UPD_A, INC_A, STATUS_A, PRINT, UPD_B, HOLD_UPD};
    for (auto x : acts) for (auto y : acts) {
      if (y >= x) {
        add(0, -1, {{x}, {y}}, false, x == HOLD_UPD || y == HOLD_UPD);
        add(0, 2, {{x}, {y}}, true, true);
      add(1, 4, {{x}, {y}}, true, true);
        add(0, 3, {{ACT_A, x}, {y, ACTIVE}}, false, true);
        add(0, 2, {{UPD_A, x}, {y, CLEAR}}, true, true);
      add(1, 3, {{UPD_A, x}, {y, CLEAR}}, true, true);
        add(1, -1, {{ACT_A, x}, {y, ACTIVE_OR_B}}, true, true);
      }
      add(1, 3, {{x, y}, {CLEAR, x}}, true, true);
      add(1, 2, {{x}, {y}, {CLEAR}}, true, true);
      add(1, 3, {{x, y}, {STATUS_A, ACTIVE_OR_A}}, true, true);
    }
    add(0, 2, {{GET_A}, {GET_A}, {GET_A}}, false, false);
    add(0, 2, {{ACTIVE_OR_A}, {ACTIVE_OR_B}, {ACTIVE}}, false, false);
    add(0, 2, {{UPD_A}, {UPD_B}, {PRINT}}, true, true);
    add(0, 2, {{STATUS_A}, {CLEAR}, {UPD_A}}, true, true);
    add(0, -1, {{GET_A, BOUNDS_A, STATUS_A}}, true, true);
    add(0, 3, {{BOUNDS_A}, {STATUS_A, PRINT}}, true, true);
  }
  return v;
}
}  // namespace mc
