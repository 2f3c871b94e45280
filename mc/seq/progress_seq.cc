// Progress tracker semantics (C06) and the global registry used by one thread (C07).
#include "seq.h"
#include <cmath>
#include <iostream>
#include <map>
#include <optional>
#include <sstream>
#include <streambuf>
#include "utl/progress_tracker.h"

using seq::pick;
using seq::quote;
using utl::progress_tracker;

namespace {
// ------------------------------------------------------------ C06
struct params {
  std::string status; bool show = true;
  float lo = 0.F, hi = 100.F, mod = 1.F;
  std::size_t high = 100;
  bool bounds_eq(params const& o) const { return lo == o.lo && hi == o.hi && mod == o.mod && high == o.high; }
  bool operator==(params const& o) const { return bounds_eq(o) && status == o.status && show == o.show; }
};

struct rig {
  rig() : t{[this](progress_tracker const& x) { callback(x); }} {}
  progress_tracker t;
  params p;
  std::size_t in = 0;
  bool complete_if_zero = false;
  int calls = 0;
  bool aborted = false;  // a chain was refused
  int nested = 0;  // reconfigure from within the callback, once
  bool in_chain = false;
  std::vector<float> outs;

  params read() const { return {t.status_, t.show_progress_, t.out_low_, t.out_high_, t.out_mod_, t.in_high_}; }

  void callback(progress_tracker const& x) {
    SEQ_CHECK(&x == &t, "the callback got another tracker");
    ++calls;
    SEQ_CHECK(!in_chain, "the callback ran before the end of the configuration chain");
    auto const free = x.mutex_.try_lock();
    SEQ_CHECK(free, "the callback runs with the tracker's lock held");
    x.mutex_.unlock();
    outs.push_back(x.out_);
    if (nested != 0) {
      --nested;
      t.show_progress(!t.show_progress_);
      p.show = !p.show;
    }
  }

  // the output may be any of: the exact formula, with ties rounded either way
  void check_output(char const* when) const {
    auto const o = t.out_.load();
    SEQ_CHECK(t.in_ == in, "%s: input is %zu, expected %zu", when, t.in_.load(), in);
    SEQ_CHECK(!std::isnan(o), "%s: the output is NaN", when);
    SEQ_CHECK(o >= p.lo && o <= p.hi, "%s: output %g outside [%g, %g]", when, o, p.lo, p.hi);
    if (p.high == 0 && in == 0) return;
    auto const ratio = p.high == 0 ? 1.L : static_cast<long double>(in) / static_cast<long double>(p.high);
    auto const x = (static_cast<long double>(p.hi) - p.lo) * ratio / p.mod;
    auto ok = false;
    long double want = 0;
    for (auto const d : {0.L, -1e-4L, 1e-4L}) {
      want = std::min<long double>(p.hi, std::max<long double>(p.lo, p.lo + std::roundl(x + d) * p.mod));
      ok |= std::fabs(static_cast<double>(want - o)) <= 1e-4 * std::max(1., std::fabs(static_cast<double>(want)));
      if (ok) break;
    }
    SEQ_CHECK(ok, "%s: output %g for input %zu of %zu, bounds [%g, %g], step %g; expected %g", when, o, in, p.high, p.lo, p.hi, p.mod, static_cast<double>(want));
  }
};

float const LO[] = {0.F, 10.F, 5.F, -10.F, 0.F, 30.F};
float const HI[] = {100.F, 30.F, 5.F, 10.F, 10.F, 10.F};

// one setter; go on with the rest of the chain
struct chain {
  rig& r;
  params before = r.p, cur = r.p, at_throw;
  std::vector<int> plan;
  bool transient = false;

  static constexpr auto SETTERS = 24;
  void setter(int const s, params& q) const {
    switch (s) {
      case 0: q.status = "a"; break;
      case 1: q.status = ""; break;
      case 2: q.show = false; break;
      case 3: q.show = true; break;
      case 4: q.lo = 0; q.hi = 100; q.mod = 1; q.high = 100; break;
      case 5: case 6: case 7: case 8: case 9: case 10: q.lo = LO[s - 5]; q.hi = HI[s - 5]; break;
      case 11: q.mod = 1.F; break;
      case 12: q.mod = 5.F; break;
      case 13: q.mod = 0.5F; break;
      case 14: q.mod = 0.F; break;
      case 15: q.mod = -1.F; break;
      case 16: q.high = 0; break;
      case 17: q.high = 1; break;
      case 18: q.high = 7; break;
      case 19: q.high = 100; break;
      case 20: q.high = 3000000000000ULL; break;
      case 21: q.status = "b"; break;
      case 22: q.status = std::string(300, 'a'); break;
      case 23: q.lo = 40.F; q.hi = 100.F; break;
    }
  }
  static bool invalid(int const s) { return s == 10 || s == 14 || s == 15; }
  template <typename U>
  progress_tracker::tracker_update call(U& u, int const s) const {
    switch (s) {
      case 0: return u.status("a");
      case 1: return u.status("");
      case 2: return u.show_progress(false);
      case 3: return u.show_progress(true);
      case 4: return u.reset_bounds();
      case 5: case 6: case 7: case 8: case 9: case 10: return u.out_bounds(LO[s - 5], HI[s - 5]);
      case 11: return u.out_mod(1.F);
      case 12: return u.out_mod(5.F);
      case 13: return u.out_mod(0.5F);
      case 14: return u.out_mod(0.F);
      case 15: return u.out_mod(-1.F);
      case 16: return u.in_high(0);
      case 17: return u.in_high(1);
      case 18: return u.in_high(7);
      case 19: return u.in_high(100);
      case 20: return u.in_high(3000000000000ULL);
      case 21: return u.status("b");
      case 22: return u.status(std::string(300, 'a'));
      default: return u.out_bounds(40, 100);
    }
  }
  static char const* name(int const s) {
    static char const* const N[] = {"status(a)", "status()", "show_progress(false)", "show_progress(true)", "reset_bounds", "out_bounds(0,100)", "out_bounds(10,30)", "out_bounds(5,5)", "out_bounds(-10,10)", "out_bounds(0,10)", "out_bounds(30,10)", "out_mod(1)", "out_mod(5)", "out_mod(0.5)", "out_mod(0)", "out_mod(-1)", "in_high(0)", "in_high(1)", "in_high(7)", "in_high(100)", "in_high(3e12)", "status(b)", "status(300 characters)", "out_bounds(40,100)"};
    return N[s];
  }
  void go(progress_tracker::tracker_update u, std::size_t const k) {
    if (k == plan.size()) { r.in_chain = false; return; }
    go(call(u, plan[k]), k + 1);
  }

  void run(int const length, bool const few) {
    static int const FEW[] = {0, 4, 6, 7, 12, 14, 16, 18, 20};
    for (auto i = 0; i < length; ++i) {
      plan.push_back(few ? FEW[pick(9)] : pick(SETTERS));
      if (seq::recording()) seq::note("%s%s", i ? "  ." : "", name(plan.back()));
    }
    seq::op();
    auto throws = -1;
    for (auto i = 0; i < length; ++i) {
      if (invalid(plan[static_cast<std::size_t>(i)])) { throws = i; break; }
      auto const old = cur;
      setter(plan[static_cast<std::size_t>(i)], cur);
      transient |= !(cur == old);
    }
    auto const calls = r.calls;
    auto const in = r.in;
    auto const out = r.t.out_.load();
    auto thrown = false;
    r.in_chain = throws < 0;  // an aborted chain ends where it is aborted
    try {
      go(call(r.t, plan[0]), 1);
    } catch (std::exception const&) {
      thrown = true;
      r.aborted = true;
      r.in_chain = false;
    }
    SEQ_CHECK(thrown == (throws >= 0), thrown ? "a valid configuration was refused" : "a contradictory configuration was accepted");
    auto const reported = r.calls - calls - (r.calls > calls ? nested_used() : 0);
    auto const have = r.read();
    auto const want = with_nested(cur), unchanged = with_nested(before);
    SEQ_CHECK(have == want || (throws >= 0 && have == unchanged), "the configuration does not hold the values set (status %s, show %d, bounds [%g, %g], step %g, input range %zu)",
              quote(have.status).c_str(), have.show, have.lo, have.hi, have.mod, have.high);
    auto const effective = have == want ? cur : before;
    auto const changed = !(effective == before);
    SEQ_CHECK(reported <= 1, "one chain triggered %d callbacks", reported);
    if (changed) SEQ_CHECK(reported == 1, "the chain changed something but triggered no callback");
    if (!transient) SEQ_CHECK(reported == 0, "the chain changed nothing but triggered a callback");
    auto const reset = r.t.in_ == 0 && r.t.out_ == effective.lo;
    auto const kept = r.t.in_ == in && r.t.out_ == out;
    auto const bounds_changed = !effective.bounds_eq(before);
    if (bounds_changed) SEQ_CHECK(reset, "changed bounds: input %zu and output %g were not reset to 0 and %g", r.t.in_.load(), r.t.out_.load(), effective.lo);
    else if (!transient) SEQ_CHECK(kept, "nothing changed but input %zu -> %zu, output %g -> %g", in, r.t.in_.load(), out, r.t.out_.load());
    else SEQ_CHECK(kept || reset, "input %zu -> %zu, output %g -> %g", in, r.t.in_.load(), out, r.t.out_.load());
    r.p = r.read();
    if (reset && (bounds_changed || transient)) r.in = 0;
    if (bounds_changed) seq::nontrivial();
    auto const free = r.t.mutex_.try_lock();
    SEQ_CHECK(free, "the tracker is still locked after the chain");
    r.t.mutex_.unlock();
  }
  int armed = r.nested;
  int nested_used() const { return armed - r.nested; }
  params with_nested(params q) const { if (nested_used()) q.show = !q.show; return q; }
};

std::size_t const IN[] = {0, 1, 3, 50, 250, 1500000000000ULL, 7, 99};

void update(rig& r, bool const all_kinds, int const values) {
  auto const kind = pick(all_kinds ? 6 : 3);
  auto const x = kind < 4 ? IN[pick(values)] : 1;
  auto const calls = r.calls;
  auto const out = r.t.out_.load();
  auto const armed = r.nested;
  seq::op();
  static char const* const N[] = {"update", "increment", "update_monotonic", "update_fn", "increment_fn", "increment()"};
  if (seq::recording()) seq::note("%s %zu", N[kind], x);
  switch (kind) {
    case 0: r.t.update(x); r.in = x; break;
    case 1: r.t.increment(x); r.in += x; break;
    case 2: r.t.update_monotonic(x); r.in = std::max(r.in, x); break;
    case 3: r.t.update_fn()(x); r.in = std::max(r.in, x); break;
    case 4: r.t.increment_fn()(); ++r.in; break;
    default: r.t.increment(); ++r.in;
  }
  r.check_output(N[kind]);
  auto const changed = out != r.t.out_;
  auto const reported = r.calls - calls - (armed - r.nested);
  SEQ_CHECK(reported == (changed ? 1 : 0), "output %g -> %g, %d callbacks", out, r.t.out_.load(), reported);
  if (changed) {
    SEQ_CHECK(r.outs[r.outs.size() - 1] == r.t.out_, "the callback saw the output %g, not %g", r.outs.back(), r.t.out_.load());
    seq::nontrivial();
  }
  SEQ_CHECK(r.read() == r.p, "an update changed the configuration");
}

void start(rig& r) {
  SEQ_CHECK(r.t.in_ == 0 && r.t.out_ == 0.F, "a new tracker is not at 0");
  SEQ_CHECK(r.read() == r.p, "a new tracker has unexpected bounds");
}

void configure_and_update(int const first, int const updates, int const second, int const then, bool const nested, bool const full) {
  rig r;
  start(r);
  r.nested = nested ? 1 : 0;
  if (first) chain{r}.run(first, false);
  for (auto i = 0; i < (r.aborted ? std::min(updates, 1) : updates); ++i) update(r, i == 0, full ? 8 : 6);
  if (second) chain{r}.run(second, !full);
  for (auto i = 0; i < (r.aborted && second ? 0 : then); ++i) update(r, false, full ? 8 : 6);
  SEQ_CHECK(r.t.status_ == r.p.status, "status lost");
}

// counts up to n, step by step, in one of several ways
void many_updates() {
  rig r;
  static std::size_t const HIGH[] = {300, 70000, 5'000'000'000ULL, 3, 100};
  static std::size_t const START[] = {0, 4'999'930'000ULL};
  auto const h = pick(5), bounds = pick(4), kind = pick(5);
  auto const from = START[h == 2 ? 1 : 0], high = HIGH[h];
  auto const n = std::max<std::size_t>(70010, 0) / (h == 0 || h == 4 ? 200 : h == 3 ? 10000 : 1);
  if (seq::recording()) seq::note("input up to %zu, bounds %d, kind %d: %zu updates from %zu", high, bounds, kind, n, from);
  r.p.high = high;
  switch (bounds) {
    case 0: break;
    case 1: r.p.lo = 10; r.p.hi = 30; break;
    case 2: r.p.mod = 0.125F; break;
    default: r.p.lo = -100; r.p.hi = 100; r.p.mod = 7;
  }
  r.t.in_high(high).out_bounds(r.p.lo, r.p.hi).out_mod(r.p.mod);
  if (from) { r.t.update(from); r.in = from; }
  auto const up = r.t.update_fn();
  auto const inc = r.t.increment_fn();
  for (auto i = std::size_t{1}; i <= n; ++i) {
    auto const calls = r.calls;
    auto const out = r.t.out_.load();
    switch (kind) {
      case 0: r.t.increment(); break;
      case 1: inc(); break;
      case 2: r.t.update(from + i); break;
      case 3: up(from + i); break;
      default: r.t.update_monotonic(from + i); if (i % 7 == 0) r.t.update_monotonic(i % 3);
    }
    r.in = from + i;
    r.check_output("counting");
    auto const changed = out != r.t.out_;
    SEQ_CHECK(r.calls - calls == (changed ? 1 : 0), "output %g -> %g, %d callbacks", out, r.t.out_.load(), r.calls - calls);
    SEQ_CHECK(out <= r.t.out_, "output %g -> %g while counting up", out, r.t.out_.load());
  }
  seq::op();
  seq::nontrivial();
}

// ------------------------------------------------------------ C07
struct capture : std::streambuf {
  int_type overflow(int_type c) override { if (c != traits_type::eof()) s += static_cast<char>(c); return c; }
  std::streamsize xsputn(char const* p, std::streamsize n) override { s.append(p, static_cast<std::size_t>(n)); return n; }
  std::string s;
};
struct redirect {
  redirect(std::streambuf* b) : old{std::cout.rdbuf(b)} {}
  ~redirect() { std::cout.rdbuf(old); }
  std::streambuf* old;
};

struct held { utl::progress_tracker_ptr p; std::string name; float out = 0; std::string status; bool show = true; };

void check_print(std::string const& text, std::map<std::string, held*> const& reg, unsigned& height) {
  unsigned up = 0;
  std::string plain;
  for (auto i = std::size_t{0}; i < text.size(); ++i) {
    if (text[i] != '\x1b') { plain += text[i]; continue; }
    auto j = i + 1;
    std::string arg;
    if (j < text.size() && text[j] == '[') ++j;
    while (j < text.size() && (isdigit(static_cast<unsigned char>(text[j])) || text[j] == ';')) arg += text[j++];
    if (j < text.size() && text[j] == 'A') up += arg.empty() ? 1U : static_cast<unsigned>(atoi(arg.c_str()));
    i = j;
  }
  std::vector<std::string> lines;
  for (std::size_t b = 0; b < plain.size();) {
    auto const e = plain.find('\n', b);
    SEQ_CHECK(e != std::string::npos, "unfinished line printed: %s", quote(plain).c_str());
    lines.push_back(plain.substr(b, e - b));
    b = e + 1;
  }
  SEQ_CHECK(lines.size() == reg.size(), "%zu lines printed for %zu registered trackers: %s", lines.size(), reg.size(), quote(plain).c_str());
  SEQ_CHECK(up == height, "the cursor moved up %u lines after %u lines were printed", up, height);
  auto i = std::size_t{0};
  for (auto const& [name, h] : reg) {
    auto const& l = lines[i++];
    auto b = l.find_first_not_of(' ');
    SEQ_CHECK(b != std::string::npos && l.compare(b, name.size() + 1, name + ":") == 0, "line %zu is %s, expected the tracker %s", i, quote(l).c_str(), name.c_str());
    auto rest = l.substr(b + name.size() + 1);
    if (!h->status.empty()) SEQ_CHECK(rest.size() >= h->status.size() && rest.compare(rest.size() - h->status.size(), std::string::npos, h->status) == 0, "line %s does not show the status %s", quote(l).c_str(), h->status.c_str());
    rest.resize(rest.size() - h->status.size());
    auto const pc = rest.find('%');
    SEQ_CHECK((pc != std::string::npos) == h->show, "line %s: percentage %s", quote(l).c_str(), h->show ? "missing" : "shown");
    if (pc != std::string::npos) {
      auto d = pc;
      while (d > 0 && isdigit(static_cast<unsigned char>(rest[d - 1]))) --d;
      SEQ_CHECK(rest.substr(d, pc - d) == std::to_string(static_cast<int>(h->out)), "line %s shows another percentage than %d", quote(l).c_str(), static_cast<int>(h->out));
    }
    if (h->show && h->status.empty()) SEQ_CHECK(rest.find('|') == std::string::npos && rest.find("old") == std::string::npos, "line %s shows a status", quote(l).c_str());
  }
  height = static_cast<unsigned>(reg.size());
}

void registry(int const depth, bool const prepared = false) {
  auto& g = utl::get_global_progress_trackers();
  g.clear();
  g.silent_ = true;
  capture cap;
  redirect red{&cap};
  std::vector<std::unique_ptr<held>> all;          // every tracker ever seen, kept alive
  std::map<std::string, held*> reg;                // registered
  held* active = nullptr;
  bool silent = true;
  unsigned height = 0;
  std::vector<std::pair<std::unique_ptr<utl::global_progress_bars>, bool>> scopes;
  static std::string const NAMES[] = {"beta", "alpha", "alpha2"};

  auto const known = [&](utl::progress_tracker_ptr const& p) -> held* {
    for (auto const& h : all) if (h->p == p) return h.get();
    return nullptr;
  };
  auto const lookup = [&](std::string const& name, utl::progress_tracker_ptr const& p, char const* what) -> held* {
    SEQ_CHECK(p != nullptr, "%s gave no tracker", what);
    auto const it = reg.find(name);
    auto* const k = known(p);
    if (it != reg.end()) { SEQ_CHECK(k == it->second, "%s(%s) gave another tracker than before", what, name.c_str()); return k; }
    SEQ_CHECK(k == nullptr, "%s(%s) gave the tracker of another name or of before clearing", what, name.c_str());
    all.push_back(std::make_unique<held>(held{p, name}));
    return reg[name] = all.back().get();
  };
  auto const cleared = [&] { reg.clear(); active = nullptr; height = 0; };

  if (prepared) {
    lookup("beta", g.get_tracker("beta"), "get_tracker");
    lookup("alpha", g.get_tracker("alpha"), "get_tracker");
    scopes.emplace_back(std::make_unique<utl::global_progress_bars>(), true);
    silent = false;
  }
  for (auto i = 0; i < depth; ++i) {
    auto const choice = pick(7);
    cap.s.clear();
    auto changed = false;
    seq::op();
    switch (choice) {
      case 0: {
        auto const& n = NAMES[pick(3)];
        if (seq::recording()) seq::note("get_tracker %s", n.c_str());
        lookup(n, g.get_tracker(n), "get_tracker");
        break;
      }
      case 1: {
        auto const& n = NAMES[pick(2)];
        if (seq::recording()) seq::note("activate %s", n.c_str());
        active = lookup(n, utl::activate_progress_tracker(n), "activate_progress_tracker");
        break;
      }
      case 2: {
        if (all.empty()) { seq::note("activate nothing"); utl::activate_progress_tracker(utl::progress_tracker_ptr{}); active = nullptr; break; }
        auto const h = pick(2) ? all.front().get() : all.back().get();
        if (seq::recording()) seq::note("activate tracker object %s", h->name.c_str());
        auto const p = utl::activate_progress_tracker(h->p);
        SEQ_CHECK(p == h->p, "activating a tracker returned another");
        active = h;
        break;
      }
      case 3: {
        if (seq::recording()) seq::note("get active or activate alpha");
        auto const p = utl::get_active_progress_tracker_or_activate(NAMES[1]);
        if (active) SEQ_CHECK(p == active->p, "activate-on-demand did not return the active tracker");
        else active = lookup(NAMES[1], p, "get_active_progress_tracker_or_activate");
        break;
      }
      case 4: {
        if (pick(2)) {
          if (seq::recording()) seq::note("clear");
          g.clear();
          cleared();
        } else if (scopes.size() < 2) {
          auto const s = seq::flip();
          if (seq::recording()) seq::note("open scope, silent %d", s);
          scopes.emplace_back(std::make_unique<utl::global_progress_bars>(s), silent);
          silent = s;
        } else { return; }
        break;
      }
      case 5: {
        if (scopes.empty()) return;
        if (seq::recording()) seq::note("close scope");
        scopes.back().first.reset();
        silent = scopes.back().second;
        scopes.pop_back();
        cleared();
        break;
      }
      case 6: {
        if (all.empty()) return;
        auto const h = pick(2) ? all.front().get() : all.back().get();
        switch (pick(3)) {
          case 0: {
            auto const x = static_cast<std::size_t>(pick(2) ? 100 : 37);
            if (seq::recording()) seq::note("update %s to %zu", h->name.c_str(), x);
            changed = h->out != static_cast<float>(x);
            h->out = static_cast<float>(x);
            h->p->update(x);
            break;
          }
          case 1: {
            auto const s = std::string{pick(2) ? "old x" : ""};
            if (seq::recording()) seq::note("status of %s: %s", h->name.c_str(), s.c_str());
            changed = h->status != s;
            h->status = s;
            h->p->status(s);
            break;
          }
          default:
            if (seq::recording()) seq::note("hide progress of %s", h->name.c_str());
            changed = h->show;
            h->show = false;
            h->p->show_progress(false);
        }
        break;
      }
    }
    // observable state
    if (changed && !silent) { check_print(cap.s, reg, height); seq::nontrivial(); }
    else SEQ_CHECK(cap.s.empty(), "printed %s without reason", quote(cap.s).c_str());
    SEQ_CHECK(g.silent_ == silent, "silent mode is %d, expected %d", g.silent_, silent);
    utl::progress_tracker_ptr a;
    auto thrown = false;
    if (active != nullptr || i + 1 == depth) try { a = utl::get_active_progress_tracker(); } catch (std::exception const&) { thrown = true; }
    if (active != nullptr || i + 1 == depth) SEQ_CHECK(thrown == (active == nullptr), thrown ? "there is an active tracker but asking for it fails" : "there is no active tracker but asking for it succeeds");
    if (active != nullptr) SEQ_CHECK(a == active->p, "another tracker than %s is active", active->name.c_str());
    SEQ_CHECK(g.trackers_.size() == reg.size(), "%zu trackers registered, expected %zu", g.trackers_.size(), reg.size());
    for (auto const& h : all) SEQ_CHECK(h->p->out_ == h->out && h->p->status_ == h->status && h->p->show_progress_ == h->show, "tracker %s lost its state", h->name.c_str());
  }
  while (!scopes.empty()) {
    scopes.back().first.reset();
    silent = scopes.back().second;
    scopes.pop_back();
    SEQ_CHECK(g.silent_ == silent, "closing a scope left silent mode %d, expected %d", g.silent_, silent);
  }
  g.clear();
}

// what is printed for unusual names, statuses and numbers of trackers
void lines() {
  auto& g = utl::get_global_progress_trackers();
  g.clear();
  g.silent_ = true;
  capture cap;
  redirect red{&cap};
  static std::string const NAMES[] = {"a name longer than twelve characters", "n", "exactly12chr", "thirteenchars", "{}", "%d\\", "Z", "name with spaces", "\xc3\xa4\xc3\xb6\xc3\xbc", std::string(200, 'x'), "a", "A"};
  static std::string const STATUS[] = {"", "{}", "%s %d", "reading a very long file name which does not fit into a small string", "100 of 200", "\xc3\xa4", " | x", std::string(300, 's')};
  static float const OUT[] = {0.F, 0.4F, 0.6F, 1.F, 9.F, 10.F, 37.5F, 99.F, 99.9F, 100.F, 250.F};
  static int const COUNT[] = {1, 2, 9, 10, 12, 101, 300};
  std::map<std::string, std::unique_ptr<held>> own;
  std::map<std::string, held*> reg;
  unsigned height = 0;
  auto const count = COUNT[pick(7)];
  for (auto i = 0; i < count; ++i) {
    auto const name = count == 1 ? NAMES[pick(12)] : i < 12 ? NAMES[i] : "tracker " + std::to_string(i * 37 % 1000);
    auto p = g.get_tracker(name);
    own[name] = std::make_unique<held>(held{p, name});
    reg[name] = own[name].get();
  }
  SEQ_CHECK(g.trackers_.size() == static_cast<std::size_t>(count), "%zu trackers registered, expected %d", g.trackers_.size(), count);
  auto scope = utl::global_progress_bars{false};
  auto const print = [&](bool const changed, char const* what) {
    if (changed) check_print(cap.s, reg, height);
    else SEQ_CHECK(cap.s.empty(), "%s: printed %s without reason", what, quote(cap.s).c_str());
    cap.s.clear();
  };
  auto* const h = pick(2) ? reg.begin()->second : reg.rbegin()->second;
  auto const s = STATUS[pick(8)];
  auto const out = OUT[pick(11)];
  auto const first = pick(2);
  seq::op();
  if (seq::recording()) seq::note("%d trackers; %s: status %s, output %g", count, h->name.c_str(), quote(s).c_str(), out);
  auto const status = [&] {
    auto const changed = h->status != s;
    h->status = s;
    h->p->status(s);
    print(changed, "status");
  };
  if (first) status();
  auto const bounds = out > 100.F ? 300.F : 100.F;
  auto const in_high = std::size_t{bounds > 100.F ? 300U : 1000U};
  h->p->out_bounds(0.F, bounds).in_high(in_high).out_mod(0.1F);
  h->out = 0;
  print(true, "bounds");
  h->p->update(bounds > 100.F ? 250 : static_cast<std::size_t>(out * 10.F + 0.5F));
  auto const now = h->p->out_.load();
  SEQ_CHECK(std::fabs(now - out) < 0.01F, "output %g instead of %g", now, out);
  h->out = now;
  print(now != 0.F, "update");
  if (!first) status();
  h->show = false;
  h->p->show_progress(false);
  print(true, "hide");
  h->show = true;
  h->p->show_progress(true);
  print(true, "show");
  h->p->show_progress(true);
  print(false, "show again");
  seq::nontrivial();
  g.clear();
}
}  // namespace

std::vector<seq::config> seq::configs(std::string const& prop) {
  std::vector<config> c;
  auto const c06 = [&](int a, int b, int d, int e, int shards, bool nested = false, bool full = false) {
    c.push_back({"chain of " + std::to_string(a) + ", " + std::to_string(b) + " updates, chain of " + std::to_string(d) + ", " + std::to_string(e) + " updates" + (nested ? ", reconfiguration from the callback" : "") + (full ? ", all values" : ""),
                 [=] { configure_and_update(a, b, d, e, nested, full); }, full ? 1 : 0, shards});
  };
  if (prop == "C06") {
    c.push_back({"counting up to 70000", many_updates, 0, 8});
    c06(0, 4, 0, 0, 8);
    c06(1, 3, 0, 0, 8);
    c06(2, 1, 1, 1, 24);
    c06(3, 1, 0, 0, 16);
    c06(1, 2, 1, 1, 24);
    c06(0, 1, 3, 1, 8);
    c06(1, 2, 1, 0, 8, true);
    c06(2, 1, 0, 1, 8, true);
    for (auto const n : {false, true}) {
      c06(3, 2, 0, 1, 80, n, true);
      c06(2, 1, 1, 1, 80, n, true);
      c06(1, 2, 1, 1, 80, n, true);
      c06(1, 4, 0, 0, 80, n, true);
      c06(0, 5, 0, 0, 40, n, true);
    }
  }
  if (prop == "C07") {
    c.push_back({"names, statuses, numbers of trackers", lines, 0, 8});
    for (auto const n : {1, 2, 3, 4}) c.push_back({"registry, scopes, printing: " + std::to_string(n) + " operations", [n] { registry(n); }});
    c.push_back({"two trackers in a printing scope, then 4 operations", [] { registry(4, true); }, 0, 48});
    c.push_back({"two trackers in a printing scope, then 6 operations", [] { registry(6, true); }, 1, 192});
    c.push_back({"registry, scopes, printing: 5 operations", [] { registry(5); }, 0, 48});
    c.push_back({"registry, scopes, printing: 6 operations", [] { registry(6); }, 1, 96});
    c.push_back({"registry, scopes, printing: 7 operations", [] { registry(7); }, 1, 96});
  }
  return c;
}
