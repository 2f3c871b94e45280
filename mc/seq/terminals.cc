// Terminals of pipelines (P02): every terminal over every short sequence, from
// every kind of source, compared with the corresponding loop.
#include "seq.h"
#include <algorithm>
#include <climits>
#include <cmath>
#include <deque>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "utl/pipes.h"

using seq::pick;
using seq::quote;

namespace {
std::string show(std::vector<int> const& v) { std::string s = "{"; for (auto x : v) s += std::to_string(x) + " "; return s + "}"; }

// hands the sequence v to a terminal from one of the sources that support it
enum form { NAMED, TEMP, OWNED, PAIR, MAPPED, FILTERED, PREFIX, RAW, RAW_TEMP, POINTER };
char const* const names[] = {"a named range", "a range", "a held container", "an iterator pair", "a mapped range", "a filtered range", "a prefix", "a container", "a temporary container", "a pointer"};

struct prefix_fn { int n; mutable int seen = 0; };
template <typename C, typename F>
void feed(C const& c, int const form, F&& f) {
  using T = typename C::value_type;
  switch (form) {
    case NAMED: { auto r = utl::all(c); f(r); f(r); break; }
    case TEMP: f(utl::all(c)); break;
    case OWNED: f(utl::all(C(c))); break;
    case PAIR: f(utl::all(c.begin(), c.end())); break;
    case MAPPED: f(utl::all(c) | utl::transform([](T const& x) { return x; })); break;
    case FILTERED: {  // the elements and others in between
      std::vector<std::pair<T, bool>> v;
      for (auto const& x : c) { v.emplace_back(x, false); v.emplace_back(x, true); v.emplace_back(x, false); }
      f(utl::all(v) | utl::remove_if([](auto const& p) { return !p.second; }) | utl::transform([](auto const& p) { return p.first; }));
      break;
    }
    case PREFIX: {
      std::vector<std::pair<T, bool>> v;
      for (auto const& x : c) v.emplace_back(x, true);
      v.emplace_back(T{}, false);
      v.emplace_back(T{}, true);
      auto named = utl::all(v) | utl::take_while([](auto const& p) { return p.second; }) | utl::transform([](auto const& p) { return p.first; });
      f(named);
      f(named);
      break;
    }
    default: seq::fail("form");
  }
}
// (terminals that also take containers directly)
template <typename C, typename F>
void feed_raw(C const& c, int const form, F&& f) {
  if (form < RAW) { feed(c, form, std::forward<F>(f)); return; }
  auto m = c;
  if (form == RAW) f(m);
  else if (form == RAW_TEMP) f(C(c));
  else f(&m);
  SEQ_CHECK(m == c, "the container was changed");
  if (form == RAW) f(c);
}

std::vector<int> pick_seq(int const max_len, int const lo, int const hi) {
  std::vector<int> v;
  auto const n = pick(max_len + 1);
  for (auto i = 0; i < n; ++i) v.push_back(seq::range(lo, hi));
  if (n > 1) seq::nontrivial();
  return v;
}

// ---- collecting
template <typename C>
void collecting(int const max_len) {
  auto const v = pick_seq(max_len, -1, 1);
  C const c(v.begin(), v.end());
  std::multiset<int> const sorted(v.begin(), v.end());
  auto const t = pick(9);
  auto const fm = pick(t >= 6 ? 9 : 7);
  if (seq::recording()) seq::note("%s from %s into form %d", show(v).c_str(), names[fm], t);
  auto const same = [&](auto const& got) { SEQ_CHECK(std::vector<int>(got.begin(), got.end()) == v, "collecting %s from %s gives %s (form %d)", show(v).c_str(), names[fm], show(std::vector<int>(got.begin(), got.end())).c_str(), t); };
  auto const as_set = [&](auto const& got, bool const unique) {
    std::vector<int> want(sorted.begin(), sorted.end());
    if (unique) want.erase(std::unique(want.begin(), want.end()), want.end());
    SEQ_CHECK(std::vector<int>(got.begin(), got.end()) == want, "collecting %s from %s into a set gives %s", show(v).c_str(), names[fm], show(std::vector<int>(got.begin(), got.end())).c_str());
  };
  seq::op();
  switch (t) {
    case 0: feed(c, fm, [&](auto&& r) { same(std::forward<decltype(r)>(r) | utl::vec()); }); break;
    case 1: feed(c, fm, [&](auto&& r) { same(std::forward<decltype(r)>(r) | utl::emplace_back<std::list<long>>()); }); break;
    case 2: feed(c, fm, [&](auto&& r) { same(std::forward<decltype(r)>(r) | utl::emplace_back_to<std::deque<int>>()); }); break;
    case 3: feed(c, fm, [&](auto&& r) { as_set(std::forward<decltype(r)>(r) | utl::to<std::multiset<int>>(), false); }); break;
    case 4: feed(c, fm, [&](auto&& r) { as_set(std::forward<decltype(r)>(r) | utl::to<std::set<int>>(), true); }); break;
    case 5: {
      std::vector<int> got;
      auto runs = 0;
      feed(c, fm, [&](auto&& r) { got.clear(); ++runs; std::forward<decltype(r)>(r) | utl::for_each([&](int const x) { got.push_back(x); }); same(got); });
      break;
    }
    case 6: feed_raw(c, fm, [&](auto&& r) { as_set(std::forward<decltype(r)>(r) | utl::insert<std::multiset<int>>(), false); }); break;
    case 7: feed_raw(c, fm, [&](auto&& r) { as_set(std::forward<decltype(r)>(r) | utl::emplace<std::set<int>>(), true); }); break;
    default: feed_raw(c, fm, [&](auto&& r) { as_set(std::forward<decltype(r)>(r) | utl::insert<std::set<int>>(), true); });
  }
}
// pairs into maps, values that cannot be copied, strings
void collecting_others(int const max_len) {
  auto const v = pick_seq(max_len, 0, 2);
  auto const t = pick(6);
  auto const n = static_cast<int>(v.size());
  seq::op();
  if (seq::recording()) seq::note("%s, form %d", show(v).c_str(), t);
  switch (t) {
    case 0: {
      // every element is processed once by a collecting terminal
      std::vector<int> seen;
      auto const once = [&](char const* what) { SEQ_CHECK(seen == v, "%s processes %s instead of %s", what, show(seen).c_str(), show(v).c_str()); seen.clear(); };
      auto const entry = [&](int const x) { seen.push_back(x); return std::make_pair(x, static_cast<int>(seen.size())); };
      std::map<int, int> want;
      for (auto i = 0; i < n; ++i) want.insert({v[static_cast<std::size_t>(i)], i + 1});
      SEQ_CHECK((utl::all(v) | utl::transform(entry) | utl::insert<std::map<int, int>>()) == want, "inserting into a map");
      once("insert");
      SEQ_CHECK((utl::all(v) | utl::transform(entry) | utl::emplace<std::map<int, int>>()) == want, "emplacing into a map");
      once("emplace");
      SEQ_CHECK((utl::all(v) | utl::transform(entry) | utl::to<std::map<int, int>>()) == want, "collecting into a map");
      once("to");
      std::vector<std::pair<int, int>> rows;
      for (auto i = 0; i < n; ++i) rows.emplace_back(v[static_cast<std::size_t>(i)], i + 1);
      SEQ_CHECK((utl::all(v) | utl::transform(entry) | utl::vec()) == rows, "collecting pairs");
      once("vec");
      SEQ_CHECK((utl::all(v) | utl::transform(entry) | utl::emplace_back<std::deque<std::pair<int, int>>>()).size() == v.size(), "collecting pairs");
      once("emplace_back");
      SEQ_CHECK((utl::all(v) | utl::transform(entry) | utl::emplace_back_to<std::list<std::pair<int, int>>>()).size() == v.size(), "collecting pairs");
      once("emplace_back_to");
      break;
    }
    case 1: {
      auto const p = utl::iota(0, n) | utl::transform([&](int const i) { return std::make_unique<int>(v[static_cast<std::size_t>(i)]); }) | utl::vec();
      SEQ_CHECK(p.size() == v.size(), "%zu of %d elements that cannot be copied", p.size(), n);
      for (auto i = std::size_t{0}; i != v.size(); ++i) SEQ_CHECK(p[i] && *p[i] == v[i], "element %zu is wrong", i);
      break;
    }
    case 2: {
      auto const s = utl::all(v) | utl::transform([](int const x) { return std::string(static_cast<std::size_t>(20 * x), 'a'); }) | utl::vec();
      SEQ_CHECK(s.size() == v.size(), "%zu of %d strings", s.size(), n);
      for (auto i = std::size_t{0}; i != v.size(); ++i) SEQ_CHECK(s[i] == std::string(static_cast<std::size_t>(20 * v[i]), 'a'), "string %zu is wrong", i);
      break;
    }
    case 3: {  // collecting copies the elements of a source piped by reference
      std::vector<std::string> src;
      for (auto const x : v) src.emplace_back(static_cast<std::size_t>(30 * x + 1), 'b');
      auto const before = src;
      auto const got = utl::all(src) | utl::vec();
      auto const again = utl::all(src) | utl::emplace_back<std::deque<std::string>>();
      auto const set = src | utl::insert<std::multiset<std::string>>();
      auto const cat = src | utl::accumulate([](std::string a, std::string const& b) { return std::move(a) + b; }, std::string{});
      SEQ_CHECK(src == before && got == before && std::equal(again.begin(), again.end(), before.begin(), before.end()) && set.size() == before.size(), "collecting changed its source");
      auto want = std::string{};
      for (auto const& x : before) want += x;
      SEQ_CHECK(cat == want, "accumulated another text");
      break;
    }
    case 4: {
      auto const b = utl::all(v) | utl::transform([](int const x) { return x > 0; }) | utl::vec();
      SEQ_CHECK(b.size() == v.size(), "%zu of %d truth values", b.size(), n);
      for (auto i = std::size_t{0}; i != v.size(); ++i) SEQ_CHECK(b[i] == (v[i] > 0), "truth value %zu is wrong", i);
      break;
    }
    default: {
      std::map<int, int> src;
      for (auto i = 0; i < n; ++i) src[i] = v[static_cast<std::size_t>(i)];
      auto const m = utl::all(src) | utl::remove_if([](auto const& kv) { return kv.second == 0; }) | utl::emplace<std::map<int, int>>();
      std::erase_if(src, [](auto const& kv) { return kv.second == 0; });
      SEQ_CHECK(m == src, "a filtered map is wrong");
    }
  }
}

// ---- computing
template <typename C>
void computing(int const max_len) {
  auto const v = pick_seq(max_len, 0, 3);
  C const c(v.begin(), v.end());
  auto const t = pick(8);
  auto const fm = pick(t == 2 ? 7 : 10);
  auto const x = t == 0 || t == 5 ? seq::range(0, 4) : 0;
  if (seq::recording()) seq::note("%s from %s into form %d, value %d", show(v).c_str(), names[fm], t, x);
  seq::op();
  switch (t) {
    case 0: {
      auto const want = static_cast<std::size_t>(std::count(v.begin(), v.end(), x));
      feed_raw(c, fm, [&](auto&& r) {
        std::vector<int> seen;
        auto const got = std::forward<decltype(r)>(r) | utl::count([&](int const e) { seen.push_back(e); return e == x; });
        SEQ_CHECK(got == want, "count of %d in %s from %s is %zu, expected %zu", x, show(v).c_str(), names[fm], static_cast<std::size_t>(got), want);
        SEQ_CHECK(seen == v, "count looks at %s instead of %s", show(seen).c_str(), show(v).c_str());
      });
      break;
    }
    case 1: {
      auto want = std::size_t{0};
      for (auto const e : v) want += static_cast<std::size_t>(e);
      feed_raw(c, fm, [&](auto&& r) {
        auto const got = std::forward<decltype(r)>(r) | utl::sum();
        SEQ_CHECK(got == want, "sum of %s from %s is %zu, expected %zu", show(v).c_str(), names[fm], static_cast<std::size_t>(got), want);
      });
      break;
    }
    case 2: {
      if (v.empty()) return;
      auto want = 0.0;
      for (auto const e : v) want += e;
      want /= static_cast<double>(v.size());
      feed(c, fm, [&](auto&& r) {
        auto const got = std::forward<decltype(r)>(r) | utl::avg();
        SEQ_CHECK(std::abs(got - want) < 1e-12, "mean of %s from %s is %g, expected %g", show(v).c_str(), names[fm], got, want);
      });
      break;
    }
    case 3: {
      if (v.empty()) return;
      auto const want = *std::max_element(v.begin(), v.end());
      feed_raw(c, fm, [&](auto&& r) {
        auto const got = std::forward<decltype(r)>(r) | utl::max<int>{INT_MIN};
        SEQ_CHECK(got == want, "maximum of %s from %s is %g, expected %d", show(v).c_str(), names[fm], static_cast<double>(got), want);
      });
      break;
    }
    case 4: {
      auto want = std::string{"<"};
      for (auto const e : v) want = "(" + want + std::to_string(e) + ")";
      feed_raw(c, fm, [&](auto&& r) {
        std::vector<int> seen;
        auto const got = std::forward<decltype(r)>(r) | utl::accumulate([&](std::string const& a, int const e) { seen.push_back(e); return "(" + a + std::to_string(e) + ")"; }, std::string{"<"});
        SEQ_CHECK(got == want, "accumulating %s from %s gives %s, expected %s", show(v).c_str(), names[fm], got.c_str(), want.c_str());
        SEQ_CHECK(seen == v, "accumulate calls its function for %s instead of %s", show(seen).c_str(), show(v).c_str());
      });
      break;
    }
    case 6: {  // the accumulated value is of the elements' type
      auto want = 1;
      for (auto const e : v) want = 3 * want - e;
      feed_raw(c, fm, [&](auto&& r) {
        auto const got = std::forward<decltype(r)>(r) | utl::accumulate([&](int const a, int const e) { return 3 * a - e; }, 1);
        SEQ_CHECK(got == want, "accumulating %s from %s gives %d, expected %d", show(v).c_str(), names[fm], got, want);
      });
      break;
    }
    case 7: {  // truth values in another form
      auto const want = std::count_if(v.begin(), v.end(), [](int const e) { return (e & 2) != 0; });
      auto const first = std::find_if(v.begin(), v.end(), [](int const e) { return (e & 2) != 0; });
      feed_raw(c, fm, [&](auto&& r) {
        auto const got = std::forward<decltype(r)>(r) | utl::count([&](int const e) { return e & 2; });
        SEQ_CHECK(got == static_cast<std::size_t>(want), "count by a mask in %s from %s is %zu, expected %td", show(v).c_str(), names[fm], static_cast<std::size_t>(got), static_cast<std::ptrdiff_t>(want));
      });
      feed_raw(c, fm, [&](auto&& r) {
        auto const got = std::forward<decltype(r)>(r) | utl::count([&](int const e) { return -(e & 2); });
        SEQ_CHECK(got == static_cast<std::size_t>(want), "count by a negative mask in %s from %s is %zu, expected %td", show(v).c_str(), names[fm], static_cast<std::size_t>(got), static_cast<std::ptrdiff_t>(want));
      });
      feed_raw(c, fm, [&](auto&& r) {
        auto const got = std::forward<decltype(r)>(r) | utl::find([&](int const e) { return e & 2; });
        SEQ_CHECK(got.has_value() == (first != v.end()) && (!got || *got == *first), "searching by a mask in %s from %s", show(v).c_str(), names[fm]);
      });
      break;
    }
    default: {
      auto const at = std::find(v.begin(), v.end(), x);
      std::vector<int> const upto(v.begin(), at == v.end() ? at : at + 1);
      feed_raw(c, fm, [&](auto&& r) {
        std::vector<int> seen;
        auto const got = std::forward<decltype(r)>(r) | utl::find([&](int const e) { seen.push_back(e); return e == x; });
        SEQ_CHECK(got.has_value() == (at != v.end()), "searching %d in %s from %s: found is %d", x, show(v).c_str(), names[fm], got.has_value());
        if (got) SEQ_CHECK(*got == x, "searching %d found %d", x, *got);
        SEQ_CHECK(seen == upto, "the search looks at %s, expected %s", show(seen).c_str(), show(upto).c_str());
      });
    }
  }
}
// numbers of every kind and size
template <typename T>
void numbers(int const max_len) {
  auto const small = std::numeric_limits<T>::digits < 16;
  std::vector<T> vals{T{0}, T{1}, T{3}, T{100}};
  if constexpr (std::is_signed_v<T>) { vals.push_back(T{-1}); vals.push_back(T{-7}); }
  if constexpr (std::is_floating_point_v<T>) { vals.push_back(T{0.5}); vals.push_back(T{-2.25}); vals.push_back(T{1e15}); }
  else if (!small) { vals.push_back(static_cast<T>(70000)); if constexpr (sizeof(T) == 8) { vals.push_back(static_cast<T>(5000000000LL)); vals.push_back(static_cast<T>(1LL << 51)); vals.push_back(static_cast<T>((1LL << 53) + 1)); vals.push_back(static_cast<T>((1LL << 60) + 1)); } else { vals.push_back(std::numeric_limits<T>::max()); vals.push_back(std::numeric_limits<T>::min()); } }
  else { vals.push_back(std::numeric_limits<T>::max()); vals.push_back(std::numeric_limits<T>::min()); }
  std::vector<T> v;
  auto const n = 1 + pick(max_len);
  for (auto i = 0; i < n; ++i) v.push_back(seq::of(vals));
  auto const fm = pick(4);
  seq::op();
  if (n > 1) seq::nontrivial();
  std::string text;
  for (auto const x : v) text += " " + std::to_string(x);
  if (seq::recording()) seq::note("%s from %s", text.c_str(), names[fm]);
  long double mean = 0, top = -1e300L, size = 0;
  auto negative = false;
  for (auto const x : v) { mean += x; size += std::abs(static_cast<long double>(x)); top = std::max(top, static_cast<long double>(x)); negative |= x < T{0}; }
  auto const total = mean;
  mean /= n;
  feed(v, fm, [&](auto&& r) { auto const got = std::forward<decltype(r)>(r) | utl::avg(); SEQ_CHECK(std::abs(static_cast<long double>(got) - mean) <= 1e-9L * (1 + size), "mean of%s is %g, expected %Lg", text.c_str(), got, mean); });
  feed(v, fm, [&](auto&& r) { auto const got = std::forward<decltype(r)>(r) | utl::max<T>{std::numeric_limits<T>::lowest()}; SEQ_CHECK(static_cast<long double>(got) == top, "maximum of%s is %Lg, expected %Lg", text.c_str(), static_cast<long double>(got), top); });
  if constexpr (!std::is_floating_point_v<T>) {
    if (!negative) feed(v, fm, [&](auto&& r) { auto const got = std::forward<decltype(r)>(r) | utl::sum(); SEQ_CHECK(static_cast<long double>(got) == total, "sum of%s is %zu, expected %Lg", text.c_str(), static_cast<std::size_t>(got), total); });
  } else {
    feed(v, fm, [&](auto&& r) { auto const got = std::forward<decltype(r)>(r) | utl::sum(); SEQ_CHECK(std::abs(static_cast<long double>(got) - total) <= 16 * std::numeric_limits<T>::epsilon() * size, "sum of%s is %g, expected %Lg", text.c_str(), static_cast<double>(got), total); });
  }
}
// the largest of other things than numbers
void largest_text(int const max_len) {
  std::vector<std::string> v;
  auto const n = pick(max_len + 1);
  for (auto i = 0; i < n; ++i) v.push_back(seq::of<std::string>({"", "a", "b", "a long text that lives on the heap", "\xff"}));
  auto const fm = pick(7);
  auto const start = seq::of<std::string>({"", "aa"});
  seq::op();
  if (n > 1) seq::nontrivial();
  if (seq::recording()) seq::note("%s from %s", seq::show(v).c_str(), names[fm]);
  auto want = start;
  for (auto const& x : v) want = std::max(want, x);
  feed(v, fm, [&](auto&& r) { std::string const got = std::forward<decltype(r)>(r) | utl::max<std::string>{start}; SEQ_CHECK(got == want, "largest of %s is %s", seq::show(v).c_str(), quote(got).c_str()); });
}
// long sequences
void many_elements() {
  auto const n = seq::of({255, 256, 257, 32768, 65535, 65536, 65537, 70000});
  auto const fm = pick(4);
  auto const x = seq::of({0, 254, 255, 256, 32768, 65535, 65536, n - 1, n});
  std::vector<int> v;
  for (auto i = 0; i < n; ++i) v.push_back(i);
  seq::op();
  seq::nontrivial();
  if (seq::recording()) seq::note("%d elements from %s, %d", n, names[fm], x);
  auto const less = [&](int const e) { return e < x; };
  auto const total = static_cast<long>(n) * (n - 1) / 2;
  feed(v, fm, [&](auto&& r) { auto const got = static_cast<std::size_t>(std::forward<decltype(r)>(r) | utl::count(less)); SEQ_CHECK(got == static_cast<std::size_t>(std::min(x, n)), "count is %zu", got); });
  feed(v, fm, [&](auto&& r) { auto const got = std::forward<decltype(r)>(r) | utl::sum(); SEQ_CHECK(got == static_cast<std::size_t>(total), "sum is %zu", static_cast<std::size_t>(got)); });
  feed(v, fm, [&](auto&& r) { auto const got = std::forward<decltype(r)>(r) | utl::avg(); SEQ_CHECK(std::abs(got - static_cast<double>(total) / n) < 1e-6, "mean is %g", got); });
  feed(v, fm, [&](auto&& r) { auto const got = std::forward<decltype(r)>(r) | utl::max<int>{-1}; SEQ_CHECK(got == n - 1, "maximum is %g", static_cast<double>(got)); });
  feed(v, fm, [&](auto&& r) { auto const got = std::forward<decltype(r)>(r) | utl::accumulate([](long const a, int const e) { return a + e; }, 0L); SEQ_CHECK(got == total, "accumulated %ld", got); });
  feed(v, fm, [&](auto&& r) { auto const got = std::forward<decltype(r)>(r) | utl::find([&](int const e) { return e == x; }); SEQ_CHECK(got.has_value() == (x < n) && (!got || *got == x), "search"); });
  feed(v, fm, [&](auto&& r) { SEQ_CHECK((std::forward<decltype(r)>(r) | utl::vec()) == v, "collecting"); });
  feed(v, fm, [&](auto&& r) { auto const got = std::forward<decltype(r)>(r) | utl::insert<std::set<int>>(); SEQ_CHECK(std::equal(got.begin(), got.end(), v.begin(), v.end()), "collecting into a set"); });
  feed(v, fm, [&](auto&& r) { auto k = 0; std::forward<decltype(r)>(r) | utl::for_each([&](int const e) { SEQ_CHECK(e == k, "for_each"); ++k; }); SEQ_CHECK(k == n, "for_each visits %d of %d", k, n); });
}
// intervals and generators
void endless(int const max) {
  auto const from = seq::range(-2, 2), n = pick(max);
  auto const stop = pick(max);
  seq::op();
  if (n > 1) seq::nontrivial();
  if (seq::recording()) seq::note("from %d, %d elements, stop %d", from, n, stop);
  auto sum = 0L;
  for (auto i = 0; i < n; ++i) sum += from + i;
  SEQ_CHECK((utl::iota(from, from + n) | utl::accumulate([](long const a, int const b) { return a + b; }, 0L)) == sum, "accumulating an interval");
  SEQ_CHECK((utl::iota(from, from + n) | utl::count([&](int const x) { return x >= from + stop; })) == static_cast<std::size_t>(std::max(0, n - stop)), "counting an interval");
  auto const f = utl::iota(from, from + n) | utl::find([&](int const x) { return x == from + stop; });
  SEQ_CHECK(f.has_value() == (stop < n) && (!f || *f == from + stop), "searching an interval");
  if (n > 0) SEQ_CHECK((utl::iota(from, from + n) | utl::max<int>{INT_MIN}) == from + n - 1, "maximum of an interval");
  if (n > 0) SEQ_CHECK(std::abs((utl::iota(from, from + n) | utl::avg()) - static_cast<double>(sum) / n) < 1e-12, "mean of an interval");
  auto drawn = 0;
  auto const g = utl::generate([&] { return drawn++; }) | utl::find([&](int const x) { return x == stop; });
  SEQ_CHECK(g && *g == stop && drawn == stop + 1, "searching a generator takes %d elements, expected %d", drawn, stop + 1);
  auto calls = 0;
  auto next = 0;
  utl::generate([&] { return next++; }) | utl::take_while([&](int const x) { return x < n; }) | utl::for_each([&](int const x) { SEQ_CHECK(x == calls, "element %d comes after %d", x, calls); ++calls; });
  SEQ_CHECK(calls == n, "%d of %d elements", calls, n);
}
}  // namespace

std::vector<seq::config> seq::configs(std::string const& prop) {
  std::vector<config> c;
  auto const add = [&](std::string name, std::function<void()> f, int tier = 0, int shards = 1, int depth = 2) { c.push_back({std::move(name), std::move(f), tier, shards, depth}); };
  auto const n = [](int i) { return std::to_string(i); };
  if (prop != "P02") return c;
  for (auto const t : {0, 1}) {
    auto const l = t ? 7 : 5;
    if (t == 0) add("up to 70000 elements", [=] { many_elements(); }, t, 4);
    add("collecting, vector: up to " + n(l) + " elements of 3 values", [=] { collecting<std::vector<int>>(l); }, t, 8, 3);
    add("collecting, list: up to " + n(l) + " elements of 3 values", [=] { collecting<std::list<int>>(l); }, t, 8, 3);
    add("collecting other values: up to " + n(l) + " elements of 3 values", [=] { collecting_others(l); }, t, 4, 3);
    add("computing, vector: up to " + n(l) + " elements of 4 values", [=] { computing<std::vector<int>>(l); }, t, 8, 3);
    add("computing, list: up to " + n(l) + " elements of 4 values", [=] { computing<std::list<int>>(l); }, t, 8, 3);
    auto const k = t ? 4 : 3;
    auto const s = ": up to " + n(k) + " elements of up to 9 values";
    add("numbers, int" + s, [=] { numbers<int>(k); }, t);
    add("numbers, unsigned" + s, [=] { numbers<unsigned>(k); }, t);
    add("numbers, 8 bit" + s, [=] { numbers<signed char>(k); }, t);
    add("numbers, unsigned 16 bit" + s, [=] { numbers<unsigned short>(k); }, t);
    add("numbers, 64 bit" + s, [=] { numbers<long>(k); }, t);
    add("numbers, unsigned 64 bit" + s, [=] { numbers<unsigned long>(k); }, t);
    add("numbers, float" + s, [=] { numbers<float>(k); }, t);
    add("numbers, double" + s, [=] { numbers<double>(k); }, t);
    add("largest text" + s, [=] { largest_text(k); }, t);
    add("intervals and generators of up to " + n(6 * l) + " elements", [=] { endless(6 * l); }, t);
  }
  return c;
}
