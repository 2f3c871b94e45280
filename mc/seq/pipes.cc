// Pipelines: every composition of stages over every source (P01).
#include "seq.h"
#include <algorithm>
#include <any>
#include <iterator>
#include <list>
#include <map>
#include <numeric>
#include <set>
#include <string>
#include <vector>
#include "utl/pipes.h"

using seq::pick;

namespace {
struct val {
  int id = -1, x = -1;
  friend bool operator==(val const& a, val const& b) { return a.x == b.x; }
};
// uniform access to the elements of the sources
inline int x_of(val const& v) { return v.x; }
inline int x_of(int const v) { return v; }
inline val half(val v) { v.x /= 2; return v; }
inline int half(int const v) { return v / 2; }
inline val shift(val v) { v.x = (v.x + 1) % 3; return v; }
inline int shift(int const v) { return (v + 1) % 3; }
inline int id_of(val const& v) { return v.id; }
inline int id_of(int) { return -1; }

enum kind { REMOVE, MAP, UNIQUE, TAKE };
struct stage { kind k; int param; };
struct elem { int id, x; bool operator==(elem const&) const = default; };

struct model {
  std::vector<elem> source;
  std::vector<stage> stages;
  bool ready = false;          // functions may be called only while consuming
  std::vector<std::vector<elem>> reach;
  std::vector<elem> out;
  int limit = 0;               // last source element that may be evaluated
  int calls = 0;

  static bool removes(int const param, int const x) { return param < 3 ? x == param : x % 2 == 1; }
  static bool takes(int const param, int const x) { return x != param; }
  void solve() {
    reach.assign(stages.size(), {});
    out.clear();
    limit = static_cast<int>(source.size()) - 1;
    std::vector<int> last(stages.size(), -1);
    for (auto i = std::size_t{0}; i != source.size(); ++i) {
      auto e = source[i];
      auto drop = false;
      for (auto s = std::size_t{0}; s != stages.size() && !drop; ++s) {
        reach[s].push_back(e);
        auto const p = stages[s].param;
        switch (stages[s].k) {
          case REMOVE: drop = removes(p, e.x); break;
          case MAP: e.x = p == 0 ? e.x / 2 : (e.x + 1) % 3; break;
          case UNIQUE: drop = last[s] == e.x; last[s] = e.x; break;
          case TAKE: if (!takes(p, e.x)) { limit = static_cast<int>(i); ready = true; return; }
        }
      }
      if (!drop) out.push_back(e);
    }
    ready = true;
  }
  template <typename T>
  void arrives(int const s, T const& v) {
    ++calls;
    SEQ_CHECK(ready, "the function of stage %d is called while the pipeline is composed", s);
    for (auto const& e : reach[static_cast<std::size_t>(s)]) if (e.x == x_of(v) && (id_of(v) == -1 || id_of(v) == e.id)) return;
    seq::fail("stage %d gets the value %d (element %d), which does not reach it", s, x_of(v), id_of(v));
  }
};
struct removing { model* m; int s; template <typename T> bool operator()(T const& v) const { m->arrives(s, v); return model::removes(m->stages[static_cast<std::size_t>(s)].param, x_of(v)); } };
struct mapping { model* m; int s; template <typename T> auto operator()(T const& v) const { m->arrives(s, v); return m->stages[static_cast<std::size_t>(s)].param == 0 ? half(v) : shift(v); } };
struct taking { model* m; int s; template <typename T> bool operator()(T const& v) const { m->arrives(s, v); return model::takes(m->stages[static_cast<std::size_t>(s)].param, x_of(v)); } };

// a container that watches how it is read
struct probe_vec {
  struct iterator {
    using iterator_category = std::forward_iterator_tag;
    using value_type = val;
    using difference_type = std::ptrdiff_t;
    using pointer = val const*;
    using reference = val const&;
    val const& operator*() const {
      SEQ_CHECK(i < c->n(), "an element past the end of the source is evaluated");
      SEQ_CHECK(c->m->ready && i <= c->m->limit, "element %d is evaluated although the sequence ends at element %d", i, c->m->ready ? c->m->limit : -1);
      return c->v[static_cast<std::size_t>(i)];
    }
    val const* operator->() const { return &**this; }
    iterator& operator++() { SEQ_CHECK(i < c->n(), "the source is advanced past its end"); ++i; return *this; }
    iterator operator++(int) { auto t = *this; ++*this; return t; }
    bool operator==(iterator const& o) const { return i == o.i; }
    bool operator!=(iterator const& o) const { return i != o.i; }
    probe_vec const* c = nullptr;
    int i = 0;
  };
  using const_iterator = iterator;
  using value_type = val;
  explicit probe_vec(model& mo) : m{&mo} { for (auto const& e : mo.source) v.push_back({e.id, e.x}); }
  probe_vec(probe_vec const&) = default;
  probe_vec(probe_vec&& o) noexcept : m{o.m}, v{std::move(o.v)}, gone{o.gone} { o.gone = true; o.v.clear(); }
  probe_vec& operator=(probe_vec const&) = default;
  ~probe_vec() { gone = true; }
  int n() const { SEQ_CHECK(!gone, "a moved-from or destroyed source is read"); return static_cast<int>(v.size()); }
  iterator begin() const { n(); return {this, 0}; }
  iterator end() const { return {this, n()}; }
  model* m;
  std::vector<val> v;
  bool gone = false;
};

std::string show(std::vector<elem> const& v) { std::string s = "{"; for (auto const& e : v) s += std::to_string(e.x) + (e.id >= 0 ? "#" + std::to_string(e.id) : "") + " "; return s + "}"; }
elem to_elem(val const& v) { return {v.id, v.x}; }
elem to_elem(int const v) { return {-1, v}; }

void compare(model const& m, std::vector<elem> const& got, bool const ids, char const* how) {
  auto want = m.out;
  if (!ids) for (auto& e : want) e.id = -1;
  SEQ_CHECK(got == want, "%s gives %s, expected %s", how, show(got).c_str(), show(want).c_str());
}
template <typename V>
std::vector<elem> elems(V const& v) { std::vector<elem> r; for (auto const& x : v) r.push_back(to_elem(x)); return r; }

// consuming a pipeline in every way
template <typename R>
void consume(R&& r, model& m, bool const ids, bool const again) {
  auto const how = pick(again ? 6 : 3);
  m.solve();
  seq::op();
  if (seq::recording()) {
    std::string s = "source " + show(m.source);
    for (auto const& st : m.stages) s += std::string{" | "} + (st.k == REMOVE ? "remove_if " : st.k == MAP ? "transform " : st.k == UNIQUE ? "unique " : "take_while ") + std::to_string(st.param);
    seq::note("%s, consumed in way %d", s.c_str(), how);
  }
  if (m.out.size() + 1 < m.source.size() || m.stages.size() > 1) seq::nontrivial();
  switch (how) {
    case 0: compare(m, elems(std::move(r) | utl::vec()), ids, "collecting"); break;
    case 1: {
      std::vector<elem> got;
      for (auto const& x : std::move(r) | utl::iterable()) got.push_back(to_elem(x));
      compare(m, got, ids, "iterating");
      break;
    }
    case 2: {
      std::vector<elem> got;
      std::move(r) | utl::for_each([&](auto const& x) { got.push_back(to_elem(x)); });
      compare(m, got, ids, "for_each");
      break;
    }
    case 3: {  // a named pipeline is used again
      auto named = std::move(r);
      compare(m, elems(named | utl::vec()), ids, "the named pipeline");
      compare(m, elems(named | utl::vec()), ids, "the named pipeline, second use,");
      std::vector<elem> got;
      for (auto const& x : named | utl::iterable()) got.push_back(to_elem(x));
      compare(m, got, ids, "iterating over the named pipeline");
      compare(m, elems(named | utl::vec()), ids, "the named pipeline after iterating");
      break;
    }
    case 4: {  // copies are independent
      auto first = std::move(r);
      auto second = first;
      auto third = std::make_unique<decltype(second)>(std::move(first));
      compare(m, elems(*third | utl::vec()), ids, "a moved pipeline");
      third.reset();
      compare(m, elems(std::move(second) | utl::vec()), ids, "a copied pipeline");
      break;
    }
    default: {  // two iterations at once, through two copies
      auto a = r | utl::iterable();
      auto b = std::move(r) | utl::iterable();
      std::vector<elem> ga, gb;
      auto ia = a.begin();
      auto ib = b.begin();
      while (ia != a.end()) {
        ga.push_back(to_elem(*ia));
        ++ia;
        if (ib != b.end()) { gb.push_back(to_elem(*ib)); ++ib; }
      }
      compare(m, ga, ids, "the first of two interleaved iterations");
      compare(m, gb, ids, "the second of two interleaved iterations");
    }
  }
}

template <int D, int Max, typename R>
void compose(R&& r, model& m, bool const ids, bool const again) {
  if constexpr (D < Max) {
    switch (pick(5)) {
      case 0: break;
      case 1: m.stages.push_back({REMOVE, pick(4)}); compose<D + 1, Max>(std::forward<R>(r) | utl::remove_if(removing{&m, D}), m, ids, again); return;
      case 2: m.stages.push_back({MAP, pick(2)}); compose<D + 1, Max>(std::forward<R>(r) | utl::transform(mapping{&m, D}), m, ids, again); return;
      case 3: m.stages.push_back({UNIQUE, 0}); compose<D + 1, Max>(std::forward<R>(r) | utl::unique(), m, ids, again); return;
      default: m.stages.push_back({TAKE, pick(3)}); compose<D + 1, Max>(std::forward<R>(r) | utl::take_while(taking{&m, D}), m, ids, again); return;
    }
  }
  consume(std::forward<R>(r), m, ids, again);
}

model with_source(int const max_len, int const values) {
  model m;
  auto const n = pick(max_len + 1);
  for (auto i = 0; i < n; ++i) m.source.push_back({i, pick(values)});
  return m;
}

template <int Max>
void by_reference(int const max_len) {
  auto m = with_source(max_len, 3);
  probe_vec const c{m};
  compose<0, Max>(utl::all(c), m, true, true);
  SEQ_CHECK(elems(c.v) == m.source && !c.gone, "the source was modified");
}
template <int Max>
void by_value(int const max_len) {
  auto m = with_source(max_len, 3);
  compose<0, Max>(utl::all(probe_vec{m}), m, true, true);
}
template <int Max>
void iterator_pair(int const max_len) {
  auto m = with_source(max_len, 3);
  probe_vec const c{m};
  auto const r = [&] { auto b = c.begin(); auto e = c.end(); return utl::all(b, e); }();
  compose<0, Max>(auto(r), m, true, true);
  SEQ_CHECK(elems(c.v) == m.source && !c.gone, "the source was modified");
}
template <int Max>
void interval(int const max_len) {
  model m;
  auto const from = pick(3), n = pick(max_len + 1);
  for (auto i = 0; i < n; ++i) m.source.push_back({-1, from + i});
  auto const to = n == 0 ? from - pick(2) : from + n;  // also an empty interval with the ends exchanged
  compose<0, Max>(utl::iota(from, to), m, false, true);
}
// an endless generator, cut by a prefix
template <int Max>
void generator(int const max_len) {
  auto m = with_source(max_len, 3);
  auto const n = static_cast<int>(m.source.size());
  auto const good = m.source;
  m.source.push_back({n, 99});  // ends the prefix
  m.stages.push_back({TAKE, 99});
  auto drawn = 0;
  auto const gen = [&, n] {
    SEQ_CHECK(m.ready, "the generator is called while the pipeline is composed");
    SEQ_CHECK(drawn <= m.limit, "element %d is generated although the sequence ends at element %d", drawn, m.limit);
    auto const i = drawn++;
    return i < n ? val{i, good[static_cast<std::size_t>(i)].x} : val{n, 99};
  };
  compose<1, Max + 1>(utl::generate(gen) | utl::take_while(taking{&m, 0}), m, true, false);
  SEQ_CHECK(drawn == m.limit + 1, "%d elements were generated, expected %d", drawn, m.limit + 1);
}
// several pipelines from one named pipeline
struct odd_out { int p; bool operator()(val const& v) const { return model::removes(p, v.x); } };
struct mapped { int p; val operator()(val const& v) const { return p == 0 ? half(v) : shift(v); } };
struct until { int p; bool operator()(val const& v) const { return model::takes(p, v.x); } };
template <typename B, typename F>
void branch(B& base, model m, F&& use) {
  switch (pick(4)) {
    case 0: m.stages.push_back({REMOVE, 1}); m.solve(); use(base | utl::remove_if(odd_out{1}), m); break;
    case 1: m.stages.push_back({MAP, 1}); m.solve(); use(base | utl::transform(mapped{1}), m); break;
    case 2: m.stages.push_back({UNIQUE, 0}); m.solve(); use(base | utl::unique(), m); break;
    default: m.stages.push_back({TAKE, 2}); m.solve(); use(base | utl::take_while(until{2}), m);
  }
}
template <typename B>
void branches_of(B base, model& m, bool const ids) {
  m.solve();
  m.limit = static_cast<int>(m.source.size()) - 1;  // (the source's watch)
  seq::op();
  if (m.source.size() > 1) seq::nontrivial();
  auto const order = pick(3);
  branch(base, m, [&](auto first, model const& m1) {
    if (order == 0) compare(m1, elems(first | utl::vec()), ids, "a pipeline of a named pipeline");
    branch(base, m, [&](auto second, model const& m2) {
      if (seq::recording()) seq::note("source %s, %zu stages, then %d and %d, order %d", show(m.source).c_str(), m.stages.size(), m1.stages.back().k, m2.stages.back().k, order);
      compare(m2, elems(second | utl::vec()), ids, "the second pipeline of a named pipeline");
      if (order == 1) compare(m1, elems(first | utl::vec()), ids, "the first pipeline of a named pipeline, after the second,");
      if (order == 2) compare(m, elems(base | utl::vec()), ids, "the named pipeline, before its first pipeline,");
      compare(m2, elems(std::move(second) | utl::vec()), ids, "the second pipeline of a named pipeline, again,");
    });
    compare(m1, elems(std::move(first) | utl::vec()), ids, "a pipeline of a named pipeline, again,");
  });
  compare(m, elems(base | utl::vec()), ids, "the named pipeline, after its pipelines,");
}
void branches(int const max_len) {
  auto m = with_source(max_len, 3);
  std::vector<val> v;
  for (auto const& e : m.source) v.push_back({e.id, e.x});
  switch (pick(8)) {
    case 0: branches_of(utl::all(std::vector<val>(v)), m, true); break;
    case 1: branches_of(utl::all(v), m, true); break;
    case 2: branches_of(utl::all(v.begin(), v.end()), m, true); break;
    case 3: m.stages.push_back({REMOVE, 0}); branches_of(utl::all(std::list<val>(v.begin(), v.end())) | utl::remove_if(odd_out{0}), m, true); break;
    case 4: m.stages.push_back({MAP, 0}); branches_of(utl::all(std::vector<val>(v)) | utl::transform(mapped{0}), m, true); break;
    case 5: m.stages.push_back({UNIQUE, 0}); branches_of(utl::all(std::vector<val>(v)) | utl::unique(), m, true); break;
    case 6: m.stages.push_back({TAKE, 0}); branches_of(utl::all(std::vector<val>(v)) | utl::take_while(until{0}), m, true); break;
    default:
      for (auto i = std::size_t{0}; i != v.size(); ++i) v[i].x = m.source[i].x = static_cast<int>(i);
      branches_of(utl::iota(0, static_cast<int>(v.size())) | utl::transform([](int const i) { return val{i, i}; }), m, true);
  }
}
// long sequences
void many_elements() {
  auto const n = seq::of({255, 256, 257, 32768, 65535, 65536, 65537, 70000});
  auto const s = pick(6);
  auto const param = seq::of({0, 1, 255, 256, 32767, 65535, 65536, n - 1, n, n + 1});
  auto const held = seq::flip();
  std::vector<int> v, want;
  for (auto i = 0; i < n; ++i) v.push_back(i);
  seq::op();
  seq::nontrivial();
  if (seq::recording()) seq::note("%d elements, stage %d of %d", n, s, param);
  for (auto const x : v) {
    if (s == 0 ? x < param : s == 1 ? x >= param : s == 2 ? x == param : s == 3 ? x != param : false) continue;
    if (s == 5 && !want.empty() && want.back() == x / 300) continue;
    want.push_back(s == 4 ? x + param : s == 5 ? x / 300 : x);
  }
  auto const run = [&](auto r) {
    switch (s) {
      case 0: return r | utl::remove_if([&](int const x) { return x < param; }) | utl::vec();
      case 1: return r | utl::take_while([&](int const x) { return x < param; }) | utl::vec();
      case 2: return r | utl::remove_if([&](int const x) { return x == param; }) | utl::vec();
      case 3: return r | utl::remove_if([&](int const x) { return x != param; }) | utl::vec();
      case 4: return r | utl::transform([&](int const x) { return x + param; }) | utl::vec();
      default: return r | utl::transform([](int const x) { return x / 300; }) | utl::unique() | utl::vec();
    }
  };
  auto const check = [&](std::vector<int> const& got, char const* what) {
    SEQ_CHECK(got.size() == want.size(), "%s: %zu of %zu elements", what, got.size(), want.size());
    SEQ_CHECK(got == want, "%s: other elements", what);
  };
  check(held ? run(utl::all(std::vector<int>(v))) : run(utl::all(v)), "a container");
  check(run(utl::iota(0, n)), "an interval");
  auto k = 0;
  check(run(utl::generate([&] { return k++; }) | utl::take_while([&](int const x) { return x < n; })), "a generator");
}
// functions whose results are truth values in another form
void truthy(int const max_len) {
  auto const m = with_source(max_len, 5);
  std::vector<int> v, kept, prefix;
  for (auto const& e : m.source) v.push_back(e.x);
  auto const mask = 1 + pick(3);
  for (auto const x : v) if (!(x & mask)) kept.push_back(x);
  for (auto const x : v) { if (!(x & mask)) break; prefix.push_back(x); }
  seq::op();
  if (v.size() > 1) seq::nontrivial();
  if (seq::recording()) seq::note("%s, mask %d", show(m.source).c_str(), mask);
  SEQ_CHECK((utl::all(v) | utl::remove_if([&](int const x) { return x & mask; }) | utl::vec()) == kept, "removing by a mask");
  SEQ_CHECK((utl::all(v) | utl::take_while([&](int const x) { return -(x & mask); }) | utl::vec()) == prefix, "a prefix by a mask");
  int const something = 0;
  SEQ_CHECK((utl::all(v) | utl::remove_if([&](int const x) { return (x & mask) ? &something : nullptr; }) | utl::vec()) == kept, "removing by a pointer");
}
// containers given directly, through pointers, as arrays and initializer lists
void other_sources(int const max_len) {
  auto m = with_source(max_len, 3);
  auto const form = pick(8);
  m.solve();
  seq::op();
  if (seq::recording()) seq::note("%s, form %d", show(m.source).c_str(), form);
  std::vector<val> v;
  for (auto const& e : m.source) v.push_back({e.id, e.x});
  auto const l = std::list<val>(v.begin(), v.end());
  auto const stop = pick(3);
  auto const until = [&](val const& x) { return x.x != stop; };
  auto prefix = m.source;
  prefix.erase(std::find_if(prefix.begin(), prefix.end(), [&](elem const& e) { return e.x == stop; }), prefix.end());
  if (prefix.size() < m.source.size()) seq::nontrivial();
  switch (form) {
    case 0: SEQ_CHECK(elems(v | utl::take_while(until) | utl::vec()) == prefix, "a container piped directly"); break;
    case 1: SEQ_CHECK(elems(l | utl::take_while(until) | utl::vec()) == prefix, "a constant container piped directly"); break;
    case 2: SEQ_CHECK(elems(utl::all(std::list<val>(l)) | utl::take_while(until) | utl::vec()) == prefix, "a list by value"); break;
    case 3: SEQ_CHECK(elems(utl::all(std::as_const(v)) | utl::take_while(until) | utl::vec()) == prefix, "a constant container"); break;
    case 4: {  // references reach the elements
      utl::all(v) | utl::take_while(until) | utl::for_each([](val& x) { x.x += 10; });
      for (auto i = std::size_t{0}; i != v.size(); ++i) SEQ_CHECK(v[i].x == m.source[i].x + (i < prefix.size() ? 10 : 0), "a write through the pipeline is lost or misplaced");
      return;
    }
    case 5: {
      auto held = utl::all({val{0, stop}, val{1, 7}, val{2, 8}, val{3, 8}, val{4, stop}}) | utl::remove_if([&](val const& x) { return x.x == stop; });
      SEQ_CHECK((elems(held | utl::unique() | utl::vec()) == std::vector<elem>{{1, 7}, {2, 8}}), "an initializer list");
      break;
    }
    case 6: {
      val arr[3] = {{0, 0}, {1, 1}, {2, 2}};
      SEQ_CHECK(elems(utl::all(arr) | utl::take_while(until) | utl::vec()).size() == static_cast<std::size_t>(stop), "an array");
      std::map<int, int> mp;
      for (auto const& e : m.source) mp[e.id] = e.x;
      std::vector<elem> got;
      for (auto const& [k, x] : utl::all(mp) | utl::take_while([&](auto const& kv) { return kv.second != stop; }) | utl::iterable()) got.push_back({k, x});
      SEQ_CHECK(got == prefix, "a map");
      break;
    }
    default: {
      std::vector<std::any> a;
      for (auto const& x : v) a.emplace_back(x);
      auto const r = utl::all(std::vector<std::any>(a)) | utl::transform([](std::any const& x) { return std::any_cast<val>(x); }) | utl::take_while(until) | utl::vec();
      SEQ_CHECK(elems(r) == prefix, "a container of type-erased elements by value");
    }
  }
  SEQ_CHECK(elems(v) == m.source, "the source was modified");
}
}  // namespace

#ifndef PIPES
#define PIPES 0
#endif
// the compositions of one source are one program (compile time)
std::vector<seq::config> seq::configs(std::string const& prop) {
  std::vector<config> c;
  auto const add = [&](std::string name, std::function<void()> f, int tier = 0, int shards = 1, int depth = 2) { c.push_back({std::move(name), std::move(f), tier, shards, depth}); };
  auto const n = [](int i) { return std::to_string(i); };
  if (prop != "P01") return c;
  for (auto const t : {0, 1}) {
    auto const l = t ? 4 : 3;
    auto const s = ": up to " + n(l) + " elements of 3 values, every composition of up to 3 stages";
#if PIPES == 0
    add("container by reference: up to " + n(l + 3) + " elements of 3 values, up to 1 stage", [=] { by_reference<1>(l + 3); }, t, 4, 3);
    add("container by value: up to " + n(l + 3) + " elements of 3 values, up to 1 stage", [=] { by_value<1>(l + 3); }, t, 4, 3);
    add("generator: up to " + n(l + 3) + " elements of 3 values, up to 1 stage after a prefix", [=] { generator<1>(l + 3); }, t, 4, 3);
    add("pipelines of a named pipeline: up to " + n(l) + " elements of 3 values, every pair of stages", [=] { branches(l); }, t, 8, 3);
    add("truth values in other forms: up to " + n(l + 1) + " elements of 5 values", [=] { truthy(l + 1); }, t);
    if (t == 0) add("up to 70000 elements", [=] { many_elements(); }, t, 4);
    add("other sources: up to " + n(l + 2) + " elements of 3 values", [=] { other_sources(l + 2); }, t);
#elif PIPES == 1
    add("container by reference" + s, [=] { by_reference<3>(l); }, t, t ? 24 : 8, 4);
#elif PIPES == 2
    add("container by value" + s, [=] { by_value<3>(l); }, t, t ? 24 : 8, 4);
#elif PIPES == 3
    add("iterator pair" + s, [=] { iterator_pair<3>(l); }, t, t ? 24 : 8, 4);
#elif PIPES == 4
    add("generator" + s + " after a prefix", [=] { generator<3>(l); }, t, t ? 24 : 8, 4);
#elif PIPES == 5
    add("integer interval: up to " + n(l + 3) + " elements, every composition of up to 3 stages", [=] { interval<3>(l + 3); }, t, t ? 16 : 4, 4);
#elif PIPES == 6
    if (t == 1) add("container by reference: up to 3 elements of 3 values, every composition of up to 4 stages", [=] { by_reference<4>(3); }, t, 48, 5);
#endif
  }
  return c;
}
