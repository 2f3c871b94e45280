// The algorithms, iterators and terminals over element types of every kind (narrow, unsigned, wide, fractional, text) whose values lie at
// the borders of their types; references work on the ranks of the values.
#include <cmath>
#include <cstdint>
#include <cstring>
#include <algorithm>
#include <deque>
#include <forward_list>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <numeric>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>

#include "seq.h"

#include "utl/concat.h"
#include "utl/enumerate.h"
#include "utl/equal_ranges.h"
#include "utl/equal_ranges_linear.h"
#include "utl/erase.h"
#include "utl/erase_duplicates.h"
#include "utl/erase_if.h"
#include "utl/get_or_create.h"
#include "utl/get_or_create_index.h"
#include "utl/helpers/algorithm.h"
#include "utl/insert_sorted.h"
#include "utl/is_uniform.h"
#include "utl/join.h"
#include "utl/nwise.h"
#include "utl/pairwise.h"
#include "utl/pipes.h"
#include "utl/power_set_intersection.h"
#include "utl/repeat_n.h"
#include "utl/sort_by.h"
#include "utl/sorted_diff.h"
#include "utl/to_set.h"
#include "utl/to_vec.h"
#include "utl/zip.h"

using seq::pick;

namespace {
template <typename T>
std::vector<T> domain() {  // ascending
  using L = std::numeric_limits<T>;
  if constexpr (std::is_same_v<T, std::string>) return {"", std::string(40, 'a'), std::string(40, 'a') + "b", "b", "b\xff"};
  else if constexpr (std::is_same_v<T, std::pair<int, long>>) return {{-1, 5}, {-1, 1L << 40}, {0, -7}, {0, 3}, {7, -1}};
  else if constexpr (std::is_floating_point_v<T>) return {L::lowest(), T(-0.75), T(0.25), T(0.5), T(1e30)};
  else if constexpr (std::is_signed_v<T>) return {L::min(), -1, 0, L::max() / 2 + 2, L::max()};
  else return {0, 1, L::max() / 2 + 1, L::max() / 2 + 3, L::max()};
}
template <typename T> T val(int const r) { static auto const d = domain<T>(); return d[static_cast<std::size_t>(r)]; }
template <typename T> int rank(T const& x) {
  static auto const d = domain<T>();
  for (auto i = 0; i != 5; ++i) if (d[static_cast<std::size_t>(i)] == x) return i;
  return -1;
}
using ints = std::vector<int>;
template <typename T, typename C = std::vector<T>> C values(ints const& r) { C c; for (auto i = r.rbegin(); i != r.rend(); ++i) c.insert(c.begin(), val<T>(*i)); return c; }
template <typename C> ints ranks(C const& c) { ints r; for (auto const& x : c) r.push_back(rank(x)); return r; }
template <typename It> ints ranks(It b, It const e) { ints r; for (; b != e; ++b) r.push_back(rank(*b)); return r; }
std::string show(ints const& v) { std::string s = "{"; for (auto x : v) s += std::to_string(x) + " "; return s + "}"; }
ints pick_ranks(int const max_len) { ints r; auto const n = pick(max_len + 1); for (auto i = 0; i < n; ++i) r.push_back(pick(5)); if (seq::recording()) seq::note("values of ranks %s", show(r).c_str()); return r; }
ints pick_sorted(int const max) { ints r; for (auto k = 0; k != 5; ++k) for (auto n = pick(max + 1); n > 0; --n) r.push_back(k); if (seq::recording()) seq::note("values of ranks %s", show(r).c_str()); return r; }
ints sorted(ints r) { std::sort(begin(r), end(r)); return r; }
ints unique_of(ints r) { r = sorted(r); r.erase(std::unique(begin(r), end(r)), end(r)); return r; }
std::vector<ints> classes(ints const& r) { std::vector<ints> g; for (auto x : r) if (g.empty() || g.back()[0] != x) g.push_back({x}); else g.back().push_back(x); return g; }
std::string show(std::vector<ints> const& g) { std::string s; for (auto const& x : g) s += show(x); return s; }

#if !defined(ONLY_PROP) || defined(WANT_A01)
struct as_it_is { template <typename T> T const& key(T const& t) const { return t; } };
template <typename T>
void a01() {
  auto const ra = pick_sorted(1), rb = pick_sorted(1);
  auto const twice = pick(2);
  auto ra2 = ra;
  if (twice) ra2.insert(end(ra2), begin(ra), end(ra));
  ra2 = sorted(ra2);
  auto const a = values<T>(ra2);
  auto const b = values<T, std::list<T>>(rb);
  std::vector<ints> got, want;
  auto const m = [&](auto ab, auto ae, auto bb, auto be) { got.push_back(ranks(ab, ae)); got.push_back(ranks(bb, be)); };
  auto const l = [&](auto ab, auto ae) { got.push_back(ranks(ab, ae)); got.push_back({}); };
  auto const r = [&](auto bb, auto be) { got.push_back({}); got.push_back(ranks(bb, be)); };
  auto const form = pick(4);
  seq::op();
  switch (form) {
    case 0: utl::full_join(a, b, m, l, r); break;
    case 1: utl::full_join(a, b, utl::join_less<as_it_is>{}, m, l, r); break;
    case 2: utl::left_join(a.begin(), a.end(), b.begin(), b.end(), m, l); break;
    default: utl::inner_join(a, b, utl::join_less<as_it_is>{}, m);
  }
  for (auto k = 0; k != 5; ++k) {
    ints const ga(static_cast<std::size_t>(std::count(begin(ra2), end(ra2), k)), k), gb(static_cast<std::size_t>(std::count(begin(rb), end(rb), k)), k);
    if (ga.empty() && (gb.empty() || form > 1)) continue;
    if (gb.empty() && form == 3) continue;
    want.push_back(ga);
    want.push_back(gb);
    seq::nontrivial();
  }
  SEQ_CHECK(got == want, "form %d: groups are %s, expected %s", form, show(got).c_str(), show(want).c_str());
}
#endif

#if !defined(ONLY_PROP) || defined(WANT_A02)
template <typename... Fs> struct overloads : Fs... { using Fs::operator()...; };
template <typename... Fs> overloads(Fs...) -> overloads<Fs...>;
template <typename T>
void a02() {
  auto const ra = pick_sorted(1), rb = pick_sorted(1);
  auto const a = values<T, std::deque<T>>(ra), b = values<T, std::deque<T>>(rb);
  auto const form = pick(2);
  ints got, want;
  auto const f = overloads{[&](utl::op const o, T const& x) { got.push_back((o == utl::op::kAdd ? 100 : 200) + rank(x)); },
                                [&](T const& x, T const& y) { got.push_back(1000 + 10 * rank(x) + rank(y)); }};
  auto const deep = [](T const&, T const& y) { return rank(y) % 2 == 0; };
  seq::op();
  if (form) utl::sorted_diff(a, b, std::less<T>{}, deep, f);
  else utl::sorted_diff(a.begin(), a.end(), b.begin(), b.end(), std::less<>{}, deep, f);
  for (auto k = 0; k != 5; ++k) {
    auto const ia = std::count(begin(ra), end(ra), k) != 0, ib = std::count(begin(rb), end(rb), k) != 0;
    if (ia && !ib) want.push_back(200 + k);
    else if (ib && !ia) want.push_back(100 + k);
    else if (ia && k % 2) want.push_back(1000 + 11 * k);
  }
  if (!want.empty()) seq::nontrivial();
  SEQ_CHECK(got == want, "edits are %s, expected %s", show(got).c_str(), show(want).c_str());
}
#endif

#if !defined(ONLY_PROP) || defined(WANT_A03)
template <typename T>
void a03() {
  auto const r = pick_ranks(4);
  auto c = values<T>(r);
  auto const form = pick(8);
  std::vector<ints> got;
  auto const f = [&](auto b, auto e) { got.push_back(ranks(b, e)); };
  auto const same = unique_of(r).size() < 2;
  seq::op();
  switch (form) {
    case 0: utl::equal_ranges(c, f); break;
    case 1: utl::equal_ranges(c, [](T const& a, T const& b) { return b < a; }, f); break;
    case 2: utl::equal_ranges_linear(c, f); break;
    case 3: utl::equal_ranges_linear(c.begin(), c.end(), [](T const& a, T const& b) { return a == b; }, f); break;
    case 4: SEQ_CHECK(utl::is_uniform(c) == same, "is_uniform is %d", !same); break;
    case 5: SEQ_CHECK(utl::is_uniform(c.cbegin(), c.cend()) == same, "is_uniform is %d", !same); break;
    case 6: SEQ_CHECK(utl::is_uniform(c, [](T const& x) -> T const& { return x; }) == same, "is_uniform by projection is %d", !same); break;
    default: SEQ_CHECK(utl::is_uniform(begin(c), end(c), [](T const& x) { return x; }) == same, "is_uniform by projection is %d", !same);
  }
  auto w = form < 2 ? sorted(r) : r;
  if (form == 1) std::reverse(begin(w), end(w));
  SEQ_CHECK(ranks(c) == w, "the range is %s, expected %s", show(ranks(c)).c_str(), show(w).c_str());
  if (form < 4) { auto const want = classes(w); SEQ_CHECK(got == want, "form %d: runs %s, expected %s", form, show(got).c_str(), show(want).c_str()); }
  if (!same) seq::nontrivial();
}
#endif

#if !defined(ONLY_PROP) || defined(WANT_A04)
template <typename T>
void a04() {
  auto const form = pick(7);
  auto const r = form == 5 || form == 6 ? pick_sorted(1) : pick_ranks(4);
  auto c = values<T>(r);
  auto const x = pick(5);
  auto want = r;
  auto const drop = [&](ints& v) { v.erase(std::remove(begin(v), end(v), x), end(v)); };
  auto const has = std::count(begin(r), end(r), x) != 0;
  seq::op();
  switch (form) {
    case 0: if (seq::flip()) utl::erase(c, val<T>(x)); else utl::erase(std::move(c), val<T>(x)); drop(want); break;
    case 1: utl::erase_if(c, [&](T const& y) { return y == val<T>(x); }); drop(want); break;
    case 2: utl::erase_duplicates(c); want = unique_of(r); break;
    case 3: {
      auto d = values<T, std::deque<T>>(r);
      utl::erase(d, val<T>(x));
      drop(want);
      c.assign(d.begin(), d.end());
      break;
    }
    case 4: {
      // sorted more finely than told apart: the first element of each class in the order stays
      std::vector<std::pair<T, int>> v;
      auto i = 0;
      for (auto const& y : c) v.emplace_back(y, i++ % 3);
      auto const up = pick(2) != 0;
      auto best = std::map<int, int>{};
      for (auto const& [y, t] : v) { auto const [it, is_new] = best.emplace(rank(y), t); if (!is_new) it->second = up ? std::min(it->second, t) : std::max(it->second, t); }
      auto const less = [&](auto const& a, auto const& b) { return a.first != b.first ? a.first < b.first : up ? a.second < b.second : b.second < a.second; };
      auto const eq = [](auto const& a, auto const& b) { return a.first == b.first; };
      if (x % 2) utl::erase_duplicates(v, less, eq); else utl::erase_duplicates(v, begin(v), end(v), less, eq);
      want = unique_of(r);
      c.clear();
      for (auto const& [y, t] : v) {
        SEQ_CHECK(best[rank(y)] == t, "of the class %d element %d is left, expected %d", rank(y), t, best[rank(y)]);
        c.push_back(y);
      }
      break;
    }
    default: {
      if (!has) { want.push_back(x); want = sorted(want); }
      if (form == 6) std::reverse(begin(want), end(want)), std::reverse(begin(c), end(c));
      auto const [it, fresh] = form == 6 ? utl::insert_sorted(c, val<T>(x), std::greater<T>{}) : utl::insert_sorted(c, val<T>(x));
      SEQ_CHECK(fresh == !has && it != end(c) && rank(*it) == x, "inserted is %d, expected %d", fresh, !has);
    }
  }
  if (want != r) seq::nontrivial();
  SEQ_CHECK(ranks(c) == want, "form %d leaves %s, expected %s", form, show(ranks(c)).c_str(), show(want).c_str());
}
#endif

#if !defined(ONLY_PROP) || defined(WANT_A05)
template <typename T>
void a05() {
  auto const r = pick_ranks(4);
  auto const c = values<T>(r);
  auto const s = values<T, std::deque<T>>(ints(r.rbegin(), r.rend()));
  std::vector<long> id;
  for (auto i = std::size_t{0}; i != r.size(); ++i) id.push_back(static_cast<long>(i));
  seq::op();
  auto const [k, i, o] = utl::sort_by(std::vector<T>(c), id, std::deque<T>(s));
  SEQ_CHECK(ranks(k) == sorted(r), "keys are %s, expected %s", show(ranks(k)).c_str(), show(sorted(r)).c_str());
  SEQ_CHECK(i.size() == r.size() && o.size() == r.size(), "rows were lost");
  SEQ_CHECK(std::set<long>(begin(i), end(i)).size() == r.size(), "rows occur twice");
  for (auto n = std::size_t{0}; n != r.size(); ++n) {
    auto const x = static_cast<std::size_t>(i[n]);
    SEQ_CHECK(x < r.size() && rank(k[n]) == r[x] && rank(o[n]) == r[r.size() - 1 - x], "row %zu is not together", n);
  }
  if (sorted(r) != r) seq::nontrivial();
}
#endif

#if !defined(ONLY_PROP) || defined(WANT_A06)
template <typename T, typename M, typename I>
void a06(int const depth) {
  M m;
  I idx;
  std::map<int, int> model;
  auto const n = 1 + pick(depth);
  for (auto i = 0; i < n; ++i) {
    auto const k = pick(5);
    auto const key = val<T>(k);
    auto calls = 0;
    auto& v = pick(2) ? utl::get_or_create(m, key, [&] { ++calls; return i; }) : utl::get_or_create(m, val<T>(k), [&] { ++calls; return i; });
    auto const fresh = model.emplace(k, i).second;
    SEQ_CHECK(v == model[k] && calls == (fresh ? 1 : 0), "key %d: value %d, expected %d; %d creations", k, v, model[k], calls);
    SEQ_CHECK(m.size() == model.size() && &m.at(key) == &v, "%zu entries, expected %zu", m.size(), model.size());
    auto const before = idx.size();
    auto const at = idx.find(key);
    auto const want = at == end(idx) ? before : static_cast<std::size_t>(at->second);
    SEQ_CHECK(utl::get_or_create_index(idx, key) == want && idx.size() == before + (fresh ? 1 : 0), "key %d: not the index expected (%zu)", k, want);
    if (!fresh) seq::nontrivial();
    seq::op();
  }
}
#endif

#if !defined(ONLY_PROP) || defined(WANT_A08)
template <typename T>
void a08() {
  auto const ra = pick_sorted(1), rb = pick_sorted(1);
  auto ra2 = ra;
  if (pick(2)) { ra2.insert(end(ra2), begin(ra), end(ra)); ra2 = sorted(ra2); }
  auto a = values<T>(ra2), b = values<T>(rb);
  auto const form = pick(3);
  if (form == 2) std::reverse(begin(a), end(a)), std::reverse(begin(b), end(b));
  ints got, want;
  auto const f = [&](T const& x, T const& y) {
    auto const ix = &x - a.data(), iy = &y - b.data();
    SEQ_CHECK(ix >= 0 && ix < static_cast<std::ptrdiff_t>(a.size()) && iy >= 0 && iy < static_cast<std::ptrdiff_t>(b.size()), "an argument is not an element of its side");
    got.push_back(static_cast<int>(ix * 100 + iy));
  };
  seq::op();
  if (form == 0) utl::power_set_intersection(a, b, f);
  else if (form == 1) utl::power_set_intersection(a.begin(), a.end(), b.begin(), b.end(), f);
  else utl::power_set_intersection(a, b, f, std::greater<T>{});
  for (auto i = std::size_t{0}; i != a.size(); ++i) for (auto j = std::size_t{0}; j != b.size(); ++j) if (a[i] == b[j]) want.push_back(static_cast<int>(i * 100 + j));
  if (!want.empty()) seq::nontrivial();
  got = sorted(got);
  SEQ_CHECK(got == want, "pairs %s, expected %s", show(got).c_str(), show(want).c_str());
}
#endif

#if !defined(ONLY_PROP) || defined(WANT_A09)
template <typename T>
void a09() {
  auto const r = pick_ranks(4);
  auto c = values<T>(r);
  auto const x = pick(5);
  auto const form = pick(15);
  auto const is = [&](T const& y) { return y == val<T>(x); };
  auto const n = std::count(begin(r), end(r), x);
  auto const at = std::find(begin(r), end(r), x) - begin(r);
  auto want = r;
  auto const id = [](T const& y) { return y; };
  seq::op();
  switch (form) {
    case 0: SEQ_CHECK(utl::all_of(c, is) == (n == static_cast<std::ptrdiff_t>(r.size())), "all_of"); break;
    case 1: SEQ_CHECK(utl::any_of(c, is) == (n != 0), "any_of"); break;
    case 2: SEQ_CHECK(utl::none_of(c, is) == (n == 0), "none_of"); break;
    case 3: SEQ_CHECK(utl::find_if(c, is) - begin(c) == at, "find_if"); break;
    case 4: SEQ_CHECK(utl::find(c, val<T>(x)) - begin(c) == at, "find"); break;
    case 5: SEQ_CHECK(utl::count_if(c, is) == n, "count_if"); break;
    case 6: utl::sort(c); want = sorted(r); break;
    case 7: utl::sort(c, [](T const& a, T const& b) { return b < a; }); want = sorted(r); std::reverse(begin(want), end(want)); break;
    case 8: SEQ_CHECK(utl::is_sorted(c, std::less<T>{}) == std::is_sorted(begin(r), end(r)), "is_sorted"); break;
    case 9: utl::fill(c, val<T>(x)); want.assign(r.size(), x); break;
    case 10: SEQ_CHECK(utl::max_element(c, std::less<T>{}) - begin(c) == std::max_element(begin(r), end(r)) - begin(r), "max_element"); break;
    case 11: SEQ_CHECK(utl::min_element(c, std::less<T>{}) - begin(c) == std::min_element(begin(r), end(r)) - begin(r), "min_element"); break;
    case 12: SEQ_CHECK(ranks(utl::to_vec(c)) == r && ranks(utl::to_vec(c, id)) == r && ranks(utl::to_vec(begin(c), end(c), id)) == r, "to_vec"); break;
    case 13: SEQ_CHECK(ranks(utl::to_set(c, id)) == unique_of(r) && ranks(utl::to_set(begin(c), end(c), id)) == unique_of(r), "to_set"); break;
    default: {
      auto d = values<T, std::list<T>>(r);
      SEQ_CHECK(utl::equal(c, d), "equal ranges are not equal");
      if (!d.empty()) { d.back() = val<T>(x); SEQ_CHECK(utl::equal(c, d) == (r.back() == x) && utl::equal(d, c) == (r.back() == x), "ranges that differ in the last element only"); }
      SEQ_CHECK(ranks(utl::repeat_n(val<T>(x), static_cast<std::size_t>(r.size()))) == ints(r.size(), x), "repeat_n");
      auto e = c;
      utl::concat(e, d);
      SEQ_CHECK(e.size() == 2 * r.size() && std::equal(begin(d), end(d), begin(e) + static_cast<std::ptrdiff_t>(r.size())), "concat");
      if (!r.empty()) {
        auto const k = static_cast<std::size_t>(pick(static_cast<int>(r.size())));
        utl::nth_element(c, k);
        auto const s = sorted(r);
        SEQ_CHECK(rank(c[k]) == s[k], "nth_element");
        for (auto i = std::size_t{0}; i != r.size(); ++i) SEQ_CHECK(i < k ? rank(c[i]) <= s[k] : rank(c[i]) >= s[k], "nth_element does not partition");
        want = ranks(c);
        SEQ_CHECK(sorted(want) == s, "nth_element changed the elements");
      }
    }
  }
  SEQ_CHECK(ranks(c) == want, "form %d: the range is %s, expected %s", form, show(ranks(c)).c_str(), show(want).c_str());
  if (r.size() > 1) seq::nontrivial();
}
#endif

#if !defined(ONLY_PROP) || defined(WANT_I01)
template <typename T>
void i01() {
  auto const r = pick_ranks(3);
  auto a = values<T>(r);
  auto b = values<T, std::list<T>>(ints(r.rbegin(), r.rend()));
  auto const x = pick(5);
  auto const form = pick(3);
  auto i = std::size_t{0};
  seq::op();
  if (form == 0) {
    for (auto const& [p, q] : utl::zip(a, b)) { SEQ_CHECK(&p == &a[i] && rank(q) == r[r.size() - 1 - i], "pair %zu is not the elements", i); p = val<T>(x); ++i; }
    SEQ_CHECK(ranks(a) == ints(r.size(), x), "writing through the zip gives %s", show(ranks(a)).c_str());
  } else if (form == 1) {
    for (auto const& [p, q] : utl::czip(a, b)) { SEQ_CHECK(&p == &a[i] && rank(q) == r[r.size() - 1 - i], "pair %zu is not the elements", i); ++i; }
  } else {
    for (auto const& [p, q] : utl::zip(std::vector<T>(a), std::as_const(b))) { SEQ_CHECK(rank(p) == r[i] && rank(q) == r[r.size() - 1 - i], "pair %zu is not the elements", i); ++i; }
  }
  SEQ_CHECK(i == r.size(), "%zu pairs of %zu", i, r.size());
  if (i > 1) seq::nontrivial();
}
#endif
#if !defined(ONLY_PROP) || defined(WANT_I02)
template <typename T>
void i02() {
  auto const r = pick_ranks(4);
  auto a = values<T, std::deque<T>>(r);
  auto const x = pick(5);
  auto const form = pick(3);
  auto i = std::size_t{0};
  seq::op();
  if (form == 0) {
    for (auto [n, y] : utl::enumerate(a)) { SEQ_CHECK(n == i && &y == &a[i] && rank(y) == r[i], "position %zu shows %zu", i, n); y = val<T>(x); ++i; }
    SEQ_CHECK(ranks(a) == ints(r.size(), x), "writing through the enumeration gives %s", show(ranks(a)).c_str());
  } else if (form == 1) {
    for (auto [n, y] : utl::enumerate(std::as_const(a))) { SEQ_CHECK(n == i && &y == &a[i] && rank(y) == r[i], "position %zu shows %zu", i, n); ++i; }
  } else {
    for (auto [n, y] : utl::enumerate(std::deque<T>(a))) { SEQ_CHECK(n == i && rank(y) == r[i], "position %zu shows %zu", i, n); ++i; }
  }
  SEQ_CHECK(i == r.size(), "%zu elements of %zu", i, r.size());
  if (i > 1) seq::nontrivial();
}
#endif
#if !defined(ONLY_PROP) || defined(WANT_I03)
template <typename T>
void i03() {
  auto const r = pick_ranks(4);
  auto a = values<T, std::list<T>>(r);
  auto const form = pick(3);
  auto i = std::size_t{0};
  seq::op();
  if (form == 0) {
    for (auto const [p, q] : utl::pairwise(a)) { SEQ_CHECK(i + 1 < r.size() && rank(p) == r[i] && rank(q) == r[i + 1], "window %zu", i); ++i; }
  } else if (form == 1) {
    for (auto const [p, q] : utl::pairwise(std::vector<T>(a.begin(), a.end()))) { SEQ_CHECK(i + 1 < r.size() && rank(p) == r[i] && rank(q) == r[i + 1], "window %zu", i); ++i; }
  } else {
    for (auto const [p, q, s] : utl::nwise<3>(std::as_const(a))) { SEQ_CHECK(i + 2 < r.size() && rank(p) == r[i] && rank(q) == r[i + 1] && rank(s) == r[i + 2], "window %zu", i); ++i; }
  }
  auto const w = form == 2 ? 2U : 1U;
  SEQ_CHECK(i == (r.size() > w ? r.size() - w : 0), "%zu windows of %zu elements", i, r.size());
  if (i > 1) seq::nontrivial();
}
#endif

#if !defined(ONLY_PROP) || defined(WANT_P01)
template <typename T>
void p01() {
  auto const r = pick_ranks(4);
  auto const c = values<T>(r);
  auto const x = pick(5);
  auto const form = pick(6);
  ints got, want;
  auto const is = [&](T const& y) { return y == val<T>(x); };
  seq::op();
  auto rest = r;
  rest.erase(std::remove(begin(rest), end(rest), x), end(rest));
  switch (form) {
    case 0: got = ranks(utl::all(c) | utl::remove_if(is) | utl::vec()); want = rest; break;
    case 1: got = ranks(utl::all(c) | utl::unique() | utl::vec()); want = r; want.erase(std::unique(begin(want), end(want)), end(want)); break;
    case 2: got = ranks(utl::all(c) | utl::take_while([&](T const& y) { return !is(y); }) | utl::vec()); want.assign(begin(r), std::find(begin(r), end(r), x)); break;
    case 3: got = ranks(utl::all(c) | utl::transform([](T const& y) { return y; }) | utl::remove_if(is) | utl::unique() | utl::vec()); want = rest; want.erase(std::unique(begin(want), end(want)), end(want)); break;
    case 4: for (auto const& y : utl::all(c) | utl::remove_if(is) | utl::iterable()) got.push_back(rank(y)); want = rest; break;
    default: got = utl::all(c) | utl::transform([](T const& y) { return rank(y); }) | utl::unique() | utl::vec(); want = r; want.erase(std::unique(begin(want), end(want)), end(want));
  }
  SEQ_CHECK(got == want, "form %d gives %s, expected %s", form, show(got).c_str(), show(want).c_str());
  if (want != r) seq::nontrivial();
}
#endif
#if !defined(ONLY_PROP) || defined(WANT_P02)
template <typename T>
void p02() {
  auto const r = pick_ranks(4);
  auto const c = values<T>(r);
  auto const x = pick(5);
  auto const form = pick(9);
  auto const is = [&](T const& y) { return y == val<T>(x); };
  ints got, want = r;
  seq::op();
  switch (form) {
    case 0: {
      auto const m = c | utl::max<T>{val<T>(x)};
      SEQ_CHECK(rank(m) == std::max(x, r.empty() ? x : *std::max_element(begin(r), end(r))), "the maximum has rank %d", rank(m));
      break;
    }
    case 1: {
      auto const f = c | utl::find(is);
      SEQ_CHECK(f.has_value() == (std::count(begin(r), end(r), x) != 0) && (!f || rank(*f) == x), "find shows %d", f ? rank(*f) : -2);
      break;
    }
    case 2: SEQ_CHECK(static_cast<std::ptrdiff_t>(c | utl::count(is)) == std::count(begin(r), end(r), x), "count"); break;
    case 3: got = ranks(utl::all(c) | utl::emplace_back<std::list<T>>()); SEQ_CHECK(got == r, "emplace_back"); break;
    case 4: got = ranks(c | utl::insert<std::set<T>>()); SEQ_CHECK(got == unique_of(r), "insert"); break;
    case 5: got = ranks(utl::all(c) | utl::to<std::multiset<T>>()); SEQ_CHECK(got == sorted(r), "to"); break;
    case 6: utl::all(c) | utl::for_each([&](T const& y) { got.push_back(rank(y)); }); SEQ_CHECK(got == r, "for_each"); break;
    case 7: got = ranks(utl::all(c) | utl::emplace_back_to<std::deque<T>>()); SEQ_CHECK(got == r, "emplace_back_to"); break;
    default:
      if constexpr (std::is_same_v<T, double>) {
        auto s = 0.0, e = 0.0;
        std::vector<double> d;
        for (auto k : r) { d.push_back(k * 0.375 - 0.5); e += d.back(); }
        s = d | utl::sum();
        SEQ_CHECK(s == e, "the sum is %g, expected %g", s, e);
        if (!d.empty()) { auto const a = utl::all(d) | utl::avg(); SEQ_CHECK(std::abs(a - e / static_cast<double>(d.size())) < 1e-12, "the average is %g", a); }
      } else if constexpr (std::is_same_v<T, std::uint64_t>) {
        auto e = std::uint64_t{0};
        for (auto const y : c) e += y;
        SEQ_CHECK((c | utl::sum()) == e, "the sum is not %lu", e);
      }
  }
  if (r.size() > 1) seq::nontrivial();
}
#endif
}  // namespace

std::vector<seq::config> seq::configs(std::string const& prop) {
  std::vector<config> c;
  auto const add = [&](std::string name, std::function<void()> f, int tier = 0, int shards = 1, int depth = 2) { c.push_back({"element type: " + std::move(name), std::move(f), tier, shards, depth}); };
#define KINDS(F, SHARDS)                                  \
  add("8 bit, signed", [] { F<signed char>(); }, 0, SHARDS);        \
  add("32 bit, unsigned", [] { F<unsigned>(); }, 0, SHARDS);          \
  add("64 bit, signed", [] { F<std::int64_t>(); }, 0, SHARDS);       \
  add("64 bit, unsigned", [] { F<std::uint64_t>(); }, 0, SHARDS);    \
  add("fractions", [] { F<double>(); }, 0, SHARDS);                  \
  add("texts", [] { F<std::string>(); }, 0, SHARDS);                 \
  add("pairs", [] { F<std::pair<int, long>>(); }, 0, SHARDS);
#if !defined(ONLY_PROP) || defined(WANT_A01)
  if (prop == "A01") { KINDS(a01, 1) }
#endif
#if !defined(ONLY_PROP) || defined(WANT_A02)
  if (prop == "A02") { KINDS(a02, 1) }
#endif
#if !defined(ONLY_PROP) || defined(WANT_A03)
  if (prop == "A03") { KINDS(a03, 1) }
#endif
#if !defined(ONLY_PROP) || defined(WANT_A04)
  if (prop == "A04") { KINDS(a04, 1) }
#endif
#if !defined(ONLY_PROP) || defined(WANT_A05)
  if (prop == "A05") { KINDS(a05, 1) }
#endif
#if !defined(ONLY_PROP) || defined(WANT_A06)
  if (prop == "A06") {
    add("32 bit, unsigned", [] { a06<unsigned, std::map<unsigned, int>, std::map<unsigned, unsigned>>(4); });
    add("64 bit, signed", [] { a06<std::int64_t, std::unordered_map<std::int64_t, int>, std::unordered_map<std::int64_t, std::size_t>>(4); });
    add("fractions", [] { a06<double, std::map<double, int>, std::map<double, std::size_t>>(4); });
    add("texts", [] { a06<std::string, std::map<std::string, int>, std::unordered_map<std::string, std::size_t>>(4); });
    add("pairs", [] { a06<std::pair<int, long>, std::map<std::pair<int, long>, int>, std::map<std::pair<int, long>, long>>(4); });
  }
#endif
#if !defined(ONLY_PROP) || defined(WANT_A08)
  if (prop == "A08") { KINDS(a08, 1) }
#endif
#if !defined(ONLY_PROP) || defined(WANT_A09)
  if (prop == "A09") { KINDS(a09, 1) }
#endif
#if !defined(ONLY_PROP) || defined(WANT_I01)
  if (prop == "I01") { KINDS(i01, 1) }
#endif
#if !defined(ONLY_PROP) || defined(WANT_I02)
  if (prop == "I02") { KINDS(i02, 1) }
#endif
#if !defined(ONLY_PROP) || defined(WANT_I03)
  if (prop == "I03") { KINDS(i03, 1) }
#endif
#if !defined(ONLY_PROP) || defined(WANT_P01)
  if (prop == "P01") { KINDS(p01, 1) }
#endif
#if !defined(ONLY_PROP) || defined(WANT_P02)
  if (prop == "P02") { KINDS(p02, 1) }
#endif
  return c;
}
