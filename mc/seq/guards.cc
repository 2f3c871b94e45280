// Scope guards (R02) and generators (R03).
#include "seq.h"
#include <algorithm>
#include <concepts>
#include <functional>
#include <optional>
#include <vector>
#include "utl/generator.h"
#include "utl/raii.h"

using seq::obj;
using seq::pick;

namespace {
std::vector<int> ran;  // ids of the cleanups that ran, in order
int times(int const id) { return static_cast<int>(std::count(begin(ran), end(ran), id)); }

struct functor {
  explicit functor(int i) : id{i} {}
  void operator()() { ran.push_back(id.get()); }
  obj id;
};
struct move_only {
  explicit move_only(int i) : id{new int{i}} {}
  void operator()() { SEQ_CHECK(id != nullptr, "a cleanup ran on a moved-from function"); ran.push_back(*id); }
  std::unique_ptr<int> id;
};
struct wrapped {
  static std::function<void()> make(int i) { return [i, o = obj{i}] { ran.push_back(i); o.check(); }; }
};

// ------------------------------------------------------------ R02: guards handed over
template <typename Fn, typename Make>
void guards(Make make, int const slots, int const depth) {
  using guard = decltype(utl::make_finally(make(0)));
  ran.clear();
  struct slot { std::optional<guard> g; int pending = 0; };
  std::vector<slot> v(static_cast<std::size_t>(slots));
  std::vector<int> want;  // multiset of cleanups that have run
  auto next = 1;
  auto const at = [&] { return static_cast<std::size_t>(pick(slots)); };
  auto const expect_ran = [&](int const id) { if (id) want.push_back(id); };
  auto const check = [&](char const* when) {
    auto a = ran, b = want;
    std::sort(begin(a), end(a));
    std::sort(begin(b), end(b));
    SEQ_CHECK(a == b, "%s: %zu cleanups ran, expected %zu (or others)", when, a.size(), b.size());
  };
  for (auto step = 0; step < depth; ++step) {
    seq::op();
    switch (pick(4)) {
      case 0: {
        auto const i = at();
        if (v[i].g) return;
        if (seq::recording()) seq::note("guard %d in %zu", next, i);
        v[i].g.emplace(utl::make_finally(make(next)));
        v[i].pending = next++;
        break;
      }
      case 1: {
        auto const i = at(), j = at();
        if (!v[i].g || v[j].g) return;
        if (seq::recording()) seq::note("move construct %zu from %zu", j, i);
        v[j].g.emplace(std::move(*v[i].g));
        v[j].pending = v[i].pending;
        v[i].pending = 0;
        seq::nontrivial();
        break;
      }
      case 2: {
        auto const i = at(), j = at();
        if (!v[i].g || !v[j].g) return;
        if (seq::recording()) seq::note("move assign %zu from %zu", j, i);
        auto& from = *v[i].g;
        *v[j].g = std::move(from);
        seq::nontrivial();
        if (i != j) {
          auto const old = v[j].pending;
          v[j].pending = v[i].pending;
          v[i].pending = 0;
          if (old) { if (times(old)) expect_ran(old); else v[i].pending = old; }  // ran now, or handed to the other guard
        }
        break;
      }
      default: {
        auto const i = at();
        if (!v[i].g) return;
        if (seq::recording()) seq::note("destroy %zu", i);
        v[i].g.reset();
        expect_ran(v[i].pending);
        v[i].pending = 0;
      }
    }
    check("after the operation");
  }
  for (auto& s : v)
    if (s.g) { s.g.reset(); expect_ran(s.pending); check("at the end"); }
}

// ------------------------------------------------------------ R02: scopes left in every way
struct leave { int level; };
enum kinds { FINALLY, MACRO, LVALUE, HANDED, RAII_VALUE, RAII_REF, RAII_OMIT, RAII_OMIT_UNDONE, RAII_OBJ, KINDS };

struct scopes {
  int depth, exit_at;  // exit by exception / return at this level
  int how;             // 0 normally, 1 exception, 2 return
  std::vector<int> want;

  void inner(int const level) {
    if (level + 1 < depth) run(level + 1);
    if (level == exit_at && how == 1) { seq::nontrivial(); throw leave{level}; }
  }
  // every level appends what its cleanup has to do after the levels inside
  void run(int const level) {
    auto const kind = pick(KINDS);
    auto const id = 10 * (level + 1);
    if (seq::recording()) seq::note("level %d: kind %d", level, kind);
    struct later {
      std::vector<int>& w; int id;
      ~later() { if (id) w.push_back(id); }
    };
    seq::op();
    switch (kind) {
      case FINALLY: {
        later l{want, id};
        auto g = utl::make_finally([id] { ran.push_back(id); });
        inner(level);
        if (how == 2 && level == exit_at) return;
        break;
      }
      case MACRO: {
        auto value = id;
        later l{want, id + 1};
        UTL_FINALLY([&] { ran.push_back(value); })
        ++value;
        inner(level);
        break;
      }
      case LVALUE: {
        later l{want, id};
        struct fn { int v; void operator()() { ran.push_back(v); } } f{id - 1};
        auto g = utl::make_finally(f);
        f.v = id;
        inner(level);
        break;
      }
      case HANDED: {
        later l{want, id};
        auto g = utl::make_finally(functor{id});
        auto h = std::move(g);
        inner(level);
        if (how == 2 && level == exit_at) return;
        auto k = std::move(h);
        break;
      }
      case RAII_VALUE: {
        later l{want, id + 2};
        auto g = utl::make_raii(int{id}, [](int v) { ran.push_back(v); });
        SEQ_CHECK(g.get() == id && static_cast<int>(g) == id, "the guard shows %d instead of %d", g.get(), id);
        g.get() += 2;
        inner(level);
        break;
      }
      case RAII_REF: {
        auto value = id;
        later l{want, id + 3};
        auto g = utl::make_raii(value, [](int& v) { ran.push_back(v); v = -1; });
        value = id + 3;
        SEQ_CHECK(g.get() == id + 3, "the guard does not refer to the value");
        inner(level);
        break;
      }
      case RAII_OMIT: {
        later l{want, id};
        auto g = utl::make_raii(int{id}, [](int v) { ran.push_back(v); });
        inner(level);  // an exception passes before omission is requested
        g.omit_destruct_ = true;
        l.id = 0;
        break;
      }
      case RAII_OMIT_UNDONE: {
        later l{want, id};
        auto g = utl::make_raii(int{id}, [](int v) { ran.push_back(v); });
        g.omit_destruct_ = true;
        g.omit_destruct_ = false;
        inner(level);
        break;
      }
      case RAII_OBJ: {
        later l{want, id + 4};
        obj const local{4};
        auto fn = [&local](obj& o) { ran.push_back(o.get() + local.get()); };
        auto g = utl::make_raii(obj{id}, fn);
        inner(level);
        break;
      }
    }
  }
};

void leave_scopes(int const max_depth) {
  ran.clear();
  scopes s;
  s.depth = 1 + pick(max_depth);
  s.how = pick(3);
  s.exit_at = s.how == 0 ? -1 : pick(s.depth);
  if (seq::recording()) seq::note("%d levels, left %s at level %d", s.depth, s.how == 0 ? "normally" : s.how == 1 ? "by exception" : "by return", s.exit_at);
  auto thrown = false;
  try { s.run(0); } catch (leave const&) { thrown = true; }
  SEQ_CHECK(thrown == (s.how == 1), "the exception did not pass");
  SEQ_CHECK(ran == s.want, "cleanups ran %zu times, expected %zu, or in another order or on another value", ran.size(), s.want.size());
}

// ------------------------------------------------------------ R02: every value that can be guarded
enum class handle : std::int8_t { none = -1, zero, one };
template <typename T>
void guarded_values(std::vector<T> const& values) {
  auto const& v = seq::of(values);
  auto const& later = seq::of(values);
  auto const form = pick(4);       // a temporary, a variable, a constant, a variable moved into the guard
  auto const change = seq::flip(); // the guarded value changes before the scope is left
  auto const omit = pick(3);       // cleanup as is, omitted, omitted and requested again
  auto const how = pick(3);
  if (form == 2 && change) return;
  auto calls = 0;
  T seen = later;
  auto const record = [&](T const& x) { ++calls; seen = x; };
  auto const use = [&](auto& g) {
    SEQ_CHECK(g.get() == v, "the guard shows another value");
    if constexpr (requires { g.get() = later; }) if (change) g.get() = later;
    if (omit) g.omit_destruct_ = true;
    if (omit == 2) g.omit_destruct_ = false;
    SEQ_CHECK(calls == 0, "the cleanup ran before the scope was left");
    if (how == 1) throw leave{0};
  };
  seq::op();
  T variable = v;
  try {
    auto const run = [&] {
      if (form == 0) { auto g = utl::make_raii(T{v}, record); use(g); if (how == 2) return; }
      else if (form == 1) { auto g = utl::make_raii(variable, record); use(g); if (how == 2) return; }
      else if (form == 2) { T const constant = v; auto g = utl::make_raii(constant, record); use(g); if (how == 2) return; }
      else { auto g = utl::make_raii(std::move(variable), record); use(g); if (how == 2) return; }
    };
    run();
  } catch (leave const&) { seq::nontrivial(); }
  SEQ_CHECK(calls == (omit == 1 ? 0 : 1), "the cleanup ran %d times", calls);
  SEQ_CHECK(omit == 1 || seen == (change ? later : v), "the cleanup got another value");
  SEQ_CHECK(form != 1 || variable == (change ? later : v), "the guarded variable has another value");
}

// ------------------------------------------------------------ R03
struct monitor { int produced = 0, entered = 0, finished = 0, bodies = 0; };
struct boom { int v; };

template <typename T> T value_of(int);
template <> int value_of<int>(int i) { return i; }
template <> obj value_of<obj>(int i) { return obj{i}; }
template <> std::string value_of<std::string>(int i) { return "a string that is too long to be stored in place " + std::to_string(i); }
template <> std::unique_ptr<int> value_of<std::unique_ptr<int>>(int i) { return std::make_unique<int>(i); }
bool same(int a, int i) { return a == i; }
bool same(obj const& a, int i) { return !a.moved && a.get() == i; }
bool same(std::string const& a, int i) { return a == value_of<std::string>(i); }
bool same(std::unique_ptr<int> const& a, int i) { return a && *a == i; }

template <typename T>
utl::generator<T> produce(monitor& m, int const n, bool const throws, int const base, obj param) {
  struct counted { monitor& m; explicit counted(monitor& x) : m{x} { ++m.bodies; } ~counted() { --m.bodies; } } c{m};
  ++m.entered;
  obj local{base};
  for (auto i = 0; i < n; ++i) {
    obj inner{i};
    ++m.produced;
    if (i % 2) co_yield value_of<T>(base + i);
    else {
      auto v = value_of<T>(base + i);
      co_yield std::move(v);
    }
    SEQ_CHECK(local.get() == base && inner.get() == i && param.get() == 77, "the body's local objects changed");
  }
  ++m.finished;
  if (throws) throw boom{base};
}

// long generators, values that look like none
template <typename T>
utl::generator<T> count(std::size_t const n, T (*make)(std::size_t), std::size_t& produced, bool const throws) {
  for (auto i = std::size_t{0}; i != n; ++i) {
    ++produced;
    co_yield make(i);
  }
  if (throws) throw boom{7};
}
template <typename T>
void many_values(std::vector<std::size_t> const& sizes, T (*make)(std::size_t)) {
  auto const n = seq::of(sizes);
  auto const throws = seq::flip();
  auto before = std::min(seq::of<std::size_t>({0, 1, 255, 256, 65535, 65536}), n);
  auto const tested = seq::flip();  // one value is already waiting
  auto const how = pick(3);
  auto produced = std::size_t{0};
  auto g = count<T>(n, make, produced, throws);
  auto thrown = false;
  seq::note("%zu values%s, way %d after %zu", n, throws ? ", then an exception" : "", how, before);
  seq::op();
  seq::nontrivial();
  auto taken = std::size_t{0};
  auto take = [&] {
    auto const x = g();
    SEQ_CHECK(x == make(taken), "value number %zu is wrong", taken);
    ++taken;
    SEQ_CHECK(produced == taken, "%zu values produced, %zu taken", produced, taken);
  };
  while (taken != before) take();
  try {
    if (tested) SEQ_CHECK(static_cast<bool>(g) == (taken < n), "%zu of %zu values taken, testing says otherwise", taken, n);
    switch (how) {
      case 0: {
        auto const v = g.to_vec();
        SEQ_CHECK(v.size() == n - before, "%zu values collected, %zu were left", v.size(), n - before);
        for (auto i = std::size_t{0}; i != v.size(); ++i) SEQ_CHECK(v[i] == make(before + i), "collected value %zu is wrong", i);
        taken = n;
        break;
      }
      case 1: while (g) take(); break;
      case 2: {
        auto h = std::move(g);
        g = std::move(h);
        while (taken != n) take();
      }
    }
    SEQ_CHECK(!g && taken == n, "%zu of %zu values taken", taken, n);
  } catch (boom const& b) {
    thrown = b.v == 7;
    SEQ_CHECK(produced == n, "the exception arrives after %zu of %zu values", produced, n);
    SEQ_CHECK(!g, "a failed generator offers more");
  }
  SEQ_CHECK(thrown == throws, thrown ? "an exception out of nowhere" : "the body's exception was lost");
  SEQ_CHECK(g.to_vec().empty(), "values after the end");
}

template <typename T>
void generators(int const depth, bool const two) {
  struct slot {
    std::optional<utl::generator<T>> g;
    monitor* m = nullptr;
    int n = 0, base = 0, taken = 0;
    bool throws = false, thrown = false, empty = false, ended = false;
    int left() const { return n - taken; }
  };
  std::vector<std::unique_ptr<monitor>> monitors;
  std::vector<slot> v(two ? 2 : 1);
  auto const create = [&](slot& s) {
    monitors.push_back(std::make_unique<monitor>());
    s.m = monitors.back().get();
    s.n = pick(4);
    s.throws = seq::flip();
    s.base = 100 * static_cast<int>(monitors.size());
    s.taken = 0;
    s.thrown = s.empty = s.ended = false;
    if (seq::recording()) seq::note("generator of %d values%s", s.n, s.throws ? ", then an exception" : "");
    s.g.emplace(produce<T>(*s.m, s.n, s.throws, s.base, obj{77}));
  };
  auto const lazy = [&](slot const& s) {
    SEQ_CHECK(s.m->produced <= s.taken + 1, "the body ran ahead: %d values produced, %d taken", s.m->produced, s.taken);
    SEQ_CHECK(s.m->entered <= 1, "the body was entered %d times", s.m->entered);
  };
  for (auto& s : v) create(s);
  for (auto step = 0; step < depth; ++step) {
    auto const i = two ? static_cast<std::size_t>(pick(2)) : 0;
    auto& s = v[i];
    auto& o = v[two ? 1 - i : 0];
    if (!s.g) return;
    seq::op();
    switch (pick(two ? 6 : 4)) {
      case 0: {
        if (seq::recording()) seq::note("test %zu", i);
        auto const before = s.m->produced;
        auto r = false, e = false;
        try { r = static_cast<bool>(*s.g); } catch (boom const& b) { e = true; SEQ_CHECK(b.v == s.base, "another exception arrives"); }
        if (s.empty || s.thrown) { SEQ_CHECK(!e && !r, "a finished generator offers more"); }
        else if (s.left() > 0) SEQ_CHECK(r && !e, "%d values are left but testing says %s", s.left(), e ? "exception" : "no");
        else if (s.throws) { SEQ_CHECK(e, "the body's exception was lost"); s.thrown = true; seq::nontrivial(); }
        else { SEQ_CHECK(!r && !e, "testing an exhausted generator says yes"); s.ended = true; }
        if (!s.empty) {
          auto const p = s.m->produced;
          if (s.left() > 0) { SEQ_CHECK(p <= before + 1, "testing advanced by %d", p - before); SEQ_CHECK(static_cast<bool>(*s.g) && s.m->produced == p, "testing again advanced the generator"); }
        }
        break;
      }
      case 1: {
        if (s.empty || s.thrown || s.ended || (s.left() == 0 && !s.throws)) return;
        if (seq::recording()) seq::note("take from %zu", i);
        if (s.left() > 0) {
          auto const x = (*s.g)();
          SEQ_CHECK(same(x, s.base + s.taken), "value number %d is wrong", s.taken);
          ++s.taken;
        } else {
          auto e = false;
          try { (*s.g)(); } catch (boom const& b) { e = b.v == s.base; }
          SEQ_CHECK(e, "the body's exception was lost");
          s.thrown = true;
          seq::nontrivial();
        }
        break;
      }
      case 2: {
        if (seq::recording()) seq::note("collect the rest of %zu", i);
        auto e = false;
        std::vector<T> r;
        auto const open = !s.empty && !s.thrown;
        try { r = s.g->to_vec(); } catch (boom const& b) { e = b.v == s.base; }
        SEQ_CHECK(e == (open && s.throws && !s.ended), e ? "an exception arrives twice" : "the body's exception was lost");
        if (e) { s.thrown = true; s.taken = s.n; }
        else {
          SEQ_CHECK(static_cast<int>(r.size()) == (open ? s.left() : 0), "%zu values collected, %d were left", r.size(), open ? s.left() : 0);
          for (auto k = std::size_t{0}; k != r.size(); ++k) SEQ_CHECK(same(r[k], s.base + s.taken + static_cast<int>(k)), "collected value %zu is wrong", k);
          s.taken += static_cast<int>(r.size());
          if (open) s.ended = true;
        }
        seq::nontrivial();
        break;
      }
      case 3: {
        if (seq::recording()) seq::note("destroy %zu", i);
        auto const m = s.m;
        auto const was_empty = s.empty;
        s.g.reset();
        if (!was_empty) SEQ_CHECK(m->bodies == 0, "the body's local objects were not destroyed with the generator");
        break;
      }
      case 4: {  // hand over to a new owner
        if (o.g) { if (pick(2)) return; o.g.reset(); }
        if (seq::recording()) seq::note("move construct from %zu", i);
        utl::generator<T> t{std::move(*s.g)};
        SEQ_CHECK(!*s.g, "a moved-from generator offers values");
        o.g.emplace(std::move(t));
        o.m = s.m; o.n = s.n; o.base = s.base; o.taken = s.taken; o.throws = s.throws; o.thrown = s.thrown; o.ended = s.ended;
        o.empty = s.empty;
        s.empty = true;
        seq::nontrivial();
        break;
      }
      default: {  // move assignment; the overwritten one is destroyed now or with the source
        if (!o.g) return;
        if (seq::recording()) seq::note("move assign from %zu", i);
        auto& from = *s.g;
        *o.g = std::move(from);
        o.m = s.m; o.n = s.n; o.base = s.base; o.taken = s.taken; o.throws = s.throws; o.thrown = s.thrown; o.ended = s.ended;
        o.empty = s.empty;
        s.g.reset();
        seq::nontrivial();
        auto owners = 0;
        for (auto const& m : monitors) owners += m->bodies;
        SEQ_CHECK(owners <= 1, "an overwritten generator's body is still alive");
      }
    }
    for (auto const& x : v) if (x.g && !x.empty) lazy(x);
    for (auto const& m : monitors) SEQ_CHECK(m->bodies >= 0, "local objects destroyed twice");
  }
  for (auto& s : v) s.g.reset();
  for (auto const& m : monitors) SEQ_CHECK(m->bodies == 0, "%d bodies never cleaned up", m->bodies);
}

}  // namespace

std::vector<seq::config> seq::configs(std::string const& prop) {
  std::vector<config> c;
  auto const num = [](char const* a, int n) { return std::string{a} + std::to_string(n) + " operations"; };
  if (prop == "R02") {
    for (auto const n : {1, 2, 3, 4, 5}) {
      c.push_back({num("guards of copyable functions, 2 owners, ", n), [n] { guards<functor>([](int i) { return functor{i}; }, 2, n); }});
      c.push_back({num("guards of move-only functions, 2 owners, ", n), [n] { guards<move_only>([](int i) { return move_only{i}; }, 2, n); }});
    }
    c.push_back({"guards of copyable functions, 3 owners, 6 operations", [] { guards<functor>([](int i) { return functor{i}; }, 3, 6); }, 0, 8, 5});
    c.push_back({"guards of move-only functions, 3 owners, 6 operations", [] { guards<move_only>([](int i) { return move_only{i}; }, 3, 6); }, 0, 8, 5});
    c.push_back({"guards of type-erased functions, 2 owners, 7 operations", [] { guards<std::function<void()>>([](int i) { return wrapped::make(i); }, 2, 7); }, 0, 8, 5});
    c.push_back({"guards of copyable functions, 3 owners, 8 operations", [] { guards<functor>([](int i) { return functor{i}; }, 3, 8); }, 1, 24, 6});
    c.push_back({"guards of type-erased functions, 3 owners, 7 operations", [] { guards<std::function<void()>>([](int i) { return wrapped::make(i); }, 3, 7); }, 1, 24, 6});
    c.push_back({"guarded numbers", [] { guarded_values<int>({0, 1, -1, 2, 3, 255, -2147483647 - 1, 2147483647}); }});
    c.push_back({"guarded handles", [] { guarded_values<handle>({handle::none, handle::zero, handle::one}); }});
    c.push_back({"guarded pointers", [] { static char x[2]; guarded_values<void*>({nullptr, x, x + 1, reinterpret_cast<void*>(-1)}); }});
    c.push_back({"guarded flags", [] { guarded_values<std::uint8_t>({0, 1, 2, 255}); }});
    c.push_back({"guarded strings", [] { guarded_values<std::string>({"", "x", "a string that is too long to be stored in place"}); }});
    c.push_back({"up to 3 nested scopes left normally, by return or by exception", [] { leave_scopes(3); }, 0, 4});
    c.push_back({"up to 4 nested scopes left normally, by return or by exception", [] { leave_scopes(4); }, 1, 12, 4});
  }
  if (prop == "R03") {
    auto const add = [&](char const* t, auto fn) {
      for (auto const n : {1, 2, 3, 4, 5}) c.push_back({std::string{"one generator of "} + t + ", " + std::to_string(n) + " operations", [=] { fn(n, false); }});
      for (auto const n : {1, 2, 3, 4}) c.push_back({std::string{"two generators of "} + t + ", " + std::to_string(n) + " operations", [=] { fn(n, true); }, 0, n == 4 ? 16 : 1, 4});
      c.push_back({std::string{"one generator of "} + t + ", 8 operations", [=] { fn(8, false); }, 1, 8, 4});
      c.push_back({std::string{"two generators of "} + t + ", 6 operations", [=] { fn(6, true); }, 1, 40, 5});
    };
    std::vector<std::size_t> const some{0, 1, 2, 3, 5, 8, 9, 64, 127, 128, 255, 256, 257, 1023, 1024, 1025}, all{0, 1, 2, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70001};
    c.push_back({"many numbers", [=] { many_values<unsigned>(all, [](std::size_t i) { return static_cast<unsigned>(i); }); }});
    c.push_back({"many truth values", [=] { many_values<bool>(some, [](std::size_t i) { return i % 3 == 1; }); }});
    c.push_back({"many empty or short texts", [=] { many_values<std::string>(some, [](std::size_t i) { return i % 2 ? std::string(i % 40, 'x') : std::string{}; }); }});
    c.push_back({"many pointers", [=] { many_values<void*>(some, [](std::size_t i) { return reinterpret_cast<void*>(i % 4); }); }});
    add("int", generators<int>);
    add("objects", generators<obj>);
    add("strings", generators<std::string>);
    add("move-only values", generators<std::unique_ptr<int>>);
  }
  return c;
}
