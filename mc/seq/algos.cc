// Algorithms on sorted and unsorted ranges (A01-A09).
#include "seq.h"
#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <numeric>
#include <set>
#include <tuple>
#include <unordered_map>
#include "utl/concat.h"
#include "utl/equal_ranges.h"
#include "utl/equal_ranges_linear.h"
#include "utl/erase.h"
#include "utl/erase_duplicates.h"
#include "utl/erase_if.h"
#include "utl/for_each_bit_set.h"
#include "utl/get_or_create.h"
#include "utl/get_or_create_index.h"
#include "utl/helpers/algorithm.h"
#include "utl/insert_sorted.h"
#include "utl/is_uniform.h"
#include "utl/join.h"
#include "utl/power_set_intersection.h"
#include "utl/repeat_n.h"
#include "utl/sort_by.h"
#include "utl/sorted_diff.h"
#include "utl/to_set.h"
#include "utl/to_vec.h"

using seq::pick;

namespace {
// an element with a key and an identity
auto fine = false;  // while a custom order by key is in use: the natural order and equality tell more apart
struct el {
  int key = 0, tag = 0;
  friend bool operator<(el const& a, el const& b) { return a.key != b.key ? a.key < b.key : fine && a.tag > b.tag; }
  friend bool operator==(el const& a, el const& b) { return a.key == b.key && (!fine || a.tag == b.tag); }
  friend bool operator!=(el const& a, el const& b) { return !(a == b); }
};
struct other { long key = 0; int tag = 0; };
bool operator<(el const& a, other const& b) { return a.key != b.key ? a.key < b.key : fine && a.tag > b.tag; }
bool operator<(other const& a, el const& b) { return a.key != b.key ? a.key < b.key : fine && a.tag > b.tag; }
bool operator<(other const& a, other const& b) { return a.key != b.key ? a.key < b.key : fine && a.tag > b.tag; }

std::string show(std::vector<int> const& v) { std::string s = "{"; for (auto x : v) s += std::to_string(x) + " "; return s + "}"; }
template <typename C>
std::vector<int> keys(C const& c) { std::vector<int> v; for (auto const& x : c) v.push_back(static_cast<int>(x.key)); return v; }
template <typename C>
std::vector<int> tags(C const& c) { std::vector<int> v; for (auto const& x : c) v.push_back(x.tag); return v; }

template <typename C>
C sorted_with(std::vector<int> const& counts, int const tag, bool const desc = false) {
  C c;
  auto t = tag;
  std::vector<int> order(counts.size());
  std::iota(begin(order), end(order), 0);
  if (desc) std::reverse(begin(order), end(order));
  std::vector<typename C::value_type> v;
  for (auto const k : order) for (auto i = 0; i < counts[static_cast<std::size_t>(k)]; ++i) v.push_back({k, t++});
  return C(v.begin(), v.end());
}
auto big = 0;  // 1: patterns of more elements instead of all short inputs, 2: of very many
std::vector<int> pick_counts(int const n_keys, int const max) { std::vector<int> v; for (auto i = 0; i < n_keys; ++i) v.push_back(big == 2 ? seq::of({0, 1, 300, max}) : big ? seq::of({0, 1, 17, 40}) : pick(max + 1)); return v; }
std::vector<int> patterned(int const n_keys) {
  auto const n = big == 2 ? seq::of({128, 255, 256, 257, 300, 32769, 65536, 70000}) : seq::of({15, 16, 17, 18, 31, 33, 40, 70});
  auto const p = pick(5);
  std::vector<int> v;
  for (auto i = 0; i < n; ++i)
    switch (p) {
      case 0: v.push_back(static_cast<int>(static_cast<long>(i) * n_keys / n)); break;
      case 1: v.push_back(static_cast<int>(static_cast<long>(n - 1 - i) * n_keys / n)); break;
      case 2: v.push_back(i % n_keys); break;
      case 3: v.push_back(n_keys - 1 - static_cast<int>(static_cast<long>(i) * i % n_keys)); break;
      default: v.push_back(n_keys / 2);
    }
  if (auto const change = big == 2 && n > 300 ? 2 : pick(5)) {
    auto const at = static_cast<std::size_t>(change == 1 ? 0 : change == 2 ? n - 1 : change == 3 ? n / 2 : 1);
    v[at] = pick(std::min(n_keys, 3));
  }
  return v;
}
std::vector<int> pick_keys(int const max_len, int const n_keys) { if (big) return patterned(n_keys); std::vector<int> v; auto const n = pick(max_len + 1); for (auto i = 0; i < n; ++i) v.push_back(pick(n_keys)); return v; }
template <typename C = std::vector<el>>
C elements(std::vector<int> const& k) { std::vector<el> v; for (auto i = std::size_t{0}; i != k.size(); ++i) v.push_back({k[i], static_cast<int>(i)}); return C(v.begin(), v.end()); }

template <typename It>
std::vector<int> tag_range(It b, It e) { std::vector<int> v; for (; b != e; ++b) v.push_back(b->tag); return v; }

// ------------------------------------------------------------ A01
#if !defined(ONLY_PROP) || defined(WANT_A01)
struct group { char kind; std::vector<int> a, b; bool operator==(group const&) const = default; };
std::string show(std::vector<group> const& g) { std::string s; for (auto const& x : g) s += std::string{" "} + x.kind + show(x.a) + show(x.b); return s; }


template <typename CA, typename CB>
void joins(int const n_keys, int const max) {
  auto const ca = pick_counts(n_keys, max), cb = pick_counts(n_keys, max);
  auto const kind = pick(3);       // full, left, inner
  auto const form = pick(4);       // iterators / containers, default / custom order
  auto const desc = form >= 2;
  fine = desc;
  auto const a = sorted_with<CA>(ca, 0, desc);
  auto const b = sorted_with<CB>(cb, 100, desc);
  if (seq::recording()) seq::note("counts %s %s, join %d, form %d", show(ca).c_str(), show(cb).c_str(), kind, form);
  seq::op();

  std::vector<group> want;
  auto ta = 0, tb = 100;
  for (auto i = 0; i < n_keys; ++i) {
    auto const k = static_cast<std::size_t>(desc ? n_keys - 1 - i : i);
    group g;
    for (auto j = 0; j < ca[k]; ++j) g.a.push_back(ta++);
    for (auto j = 0; j < cb[k]; ++j) g.b.push_back(tb++);
    if (g.a.empty() && g.b.empty()) continue;
    g.kind = g.b.empty() ? 'l' : g.a.empty() ? 'r' : 'm';
    if (g.kind == 'm') seq::nontrivial();
    if (kind == 0 || g.kind == 'm' || (kind == 1 && g.kind == 'l')) want.push_back(g);
  }

  std::vector<group> got;
  auto const m = [&](auto ab, auto ae, auto bb, auto be) { got.push_back({'m', tag_range(ab, ae), tag_range(bb, be)}); };
  auto const l = [&](auto ab, auto ae) { got.push_back({'l', tag_range(ab, ae), {}}); };
  auto const r = [&](auto bb, auto be) { got.push_back({'r', {}, tag_range(bb, be)}); };
  auto const gt = [](auto const& x, auto const& y) { return y.key < x.key; };
  using std::begin;
  using std::end;
  switch (kind * 4 + form) {
    case 0: utl::full_join(begin(a), end(a), begin(b), end(b), m, l, r); break;
    case 1: utl::full_join(a, b, m, l, r); break;
    case 2: utl::full_join(begin(a), end(a), begin(b), end(b), gt, m, l, r); break;
    case 3: utl::full_join(a, b, gt, m, l, r); break;
    case 4: utl::left_join(begin(a), end(a), begin(b), end(b), m, l); break;
    case 5: utl::left_join(a, b, m, l); break;
    case 6: utl::left_join(begin(a), end(a), begin(b), end(b), gt, m, l); break;
    case 7: utl::left_join(a, b, gt, m, l); break;
    case 8: utl::inner_join(begin(a), end(a), begin(b), end(b), m); break;
    case 9: utl::inner_join(a, b, m); break;
    case 10: utl::inner_join(begin(a), end(a), begin(b), end(b), gt, m); break;
    default: utl::inner_join(a, b, gt, m);
  }
  SEQ_CHECK(got == want, "groups are%s, expected%s", show(got).c_str(), show(want).c_str());
}

struct by_key { template <typename T> auto key(T const& t) const { return static_cast<long>(t.key); } };
void join_less_fn(int const n_keys, int const max) {
  fine = true;
  auto const ca = pick_counts(n_keys, max), cb = pick_counts(n_keys, max);
  auto a = sorted_with<std::vector<el>>(ca, 0);
  auto b = sorted_with<std::list<other>>(cb, 100);
  std::vector<group> got, want;
  auto const m = [&](auto ab, auto ae, auto bb, auto be) { got.push_back({'m', tag_range(ab, ae), tag_range(bb, be)}); ab->key += 0; };
  utl::inner_join(a, b, utl::join_less<by_key>{}, m);
  auto ta = 0, tb = 100;
  for (auto k = std::size_t{0}; k != ca.size(); ++k) {
    group g{'m', {}, {}};
    for (auto j = 0; j < ca[k]; ++j) g.a.push_back(ta++);
    for (auto j = 0; j < cb[k]; ++j) g.b.push_back(tb++);
    if (!g.a.empty() && !g.b.empty()) { want.push_back(g); seq::nontrivial(); }
  }
  SEQ_CHECK(got == want, "groups are%s, expected%s", show(got).c_str(), show(want).c_str());
}

#endif
// ------------------------------------------------------------ A02
#if !defined(ONLY_PROP) || defined(WANT_A02)
void diff(int const n_keys, int const max_dup) {
  // per key and side: the deep values of the elements
  std::vector<el> a, b;
  struct report { char kind; el const *x, *y; };
  std::vector<std::vector<int>> va, vb;
  for (auto side = 0; side < 2; ++side)
    for (auto k = 0, p = big ? 1 + pick(4) : 0; k < n_keys; ++k) {
      if (p) { if (k % p == p - 1 || k + 1 == n_keys) (side ? b : a).push_back({k, (k / (side + 2)) % 2}); continue; }
      auto const n = pick(max_dup + 1);
      for (auto i = 0; i < n; ++i) (side ? b : a).push_back({k, pick(2)});
    }
  fine = true;
  auto const form = pick(3);
  if (form == 2) { std::reverse(begin(a), end(a)); std::reverse(begin(b), end(b)); }
  if (seq::recording()) seq::note("a keys %s values %s, b keys %s values %s", show(keys(a)).c_str(), show(tags(a)).c_str(), show(keys(b)).c_str(), show(tags(b)).c_str());
  std::vector<report> got, want;
  struct sink {
    std::vector<report>& g;
    void operator()(utl::op const o, el const& x) const { g.push_back(o == utl::op::kAdd ? report{'+', nullptr, &x} : report{'-', &x, nullptr}); }
    void operator()(el const& x, el const& y) const { g.push_back({'~', &x, &y}); }
  } s{got};
  seq::op();
  auto const lt = [](el const& x, el const& y) { return x.key < y.key; };
  auto const gt = [](el const& x, el const& y) { return x.key > y.key; };
  auto const eq = [](el const& x, el const& y) { SEQ_CHECK(x.key == y.key, "elements of different keys are compared deeply"); return x.tag == y.tag; };
  if (form == 0) utl::sorted_diff(a, b, lt, eq, s);
  else if (form == 1) utl::sorted_diff(a.cbegin(), a.cend(), b.cbegin(), b.cend(), lt, eq, s);
  else utl::sorted_diff(a, b, gt, eq, s);

  std::size_t i = 0, j = 0;
  for (auto n = 0; n < n_keys; ++n) {
    auto const k = form == 2 ? n_keys - 1 - n : n;
    while (i != a.size() && j != b.size() && a[i].key == k && b[j].key == k) {
      if (a[i].tag != b[j].tag) { want.push_back({'~', &a[i], &b[j]}); seq::nontrivial(); }
      ++i; ++j;
    }
    for (; i != a.size() && a[i].key == k; ++i) want.push_back({'-', &a[i], nullptr});
    for (; j != b.size() && b[j].key == k; ++j) want.push_back({'+', nullptr, &b[j]});
  }
  auto const text = [&](std::vector<report> const& v) {
    std::string t;
    for (auto const& r : v) t += std::string{" "} + r.kind + (r.x ? std::to_string(r.x - a.data()) : "") + "/" + (r.y ? std::to_string(r.y - b.data()) : "");
    return t;
  };
  SEQ_CHECK(text(got) == text(want), "reported%s, expected%s (positions in first/second)", text(got).c_str(), text(want).c_str());
}

#endif
// ------------------------------------------------------------ A03
#if !defined(ONLY_PROP) || defined(WANT_A03)
template <typename C>
void group_sorted(int const max_len, int const n_keys) {
  auto const k = pick_keys(max_len, n_keys);
  auto c = elements<C>(k);
  auto const desc = seq::flip();
  fine = desc;
  if (seq::recording()) seq::note("%s%s", show(k).c_str(), desc ? " descending" : "");
  std::vector<std::vector<int>> got;
  std::vector<typename C::iterator> ends;
  seq::op();
  auto const f = [&](auto b, auto e) {
    SEQ_CHECK(b != e, "an empty group is reported");
    std::vector<int> v;
    ends.push_back(b);
    ends.push_back(e);
    for (; b != e; ++b) v.push_back(b->key);
    got.push_back(v);
  };
  if (desc) utl::equal_ranges(c, [](el const& a, el const& b) { return b.key < a.key; }, f);
  else utl::equal_ranges(c, f);
  auto sorted = k;
  std::sort(begin(sorted), end(sorted));
  if (desc) std::reverse(begin(sorted), end(sorted));
  SEQ_CHECK(keys(c) == sorted, "the container is %s, not sorted", show(keys(c)).c_str());
  auto t = tags(c);
  for (auto i = std::size_t{0}; i != t.size(); ++i) SEQ_CHECK(k[static_cast<std::size_t>(t[i])] == sorted[i], "elements were damaged");
  std::sort(begin(t), end(t));
  SEQ_CHECK(std::adjacent_find(begin(t), end(t)) == end(t), "an element occurs twice");
  std::vector<std::vector<int>> want;
  for (auto const x : sorted) if (want.empty() || want.back()[0] != x) want.push_back({x}); else want.back().push_back(x);
  SEQ_CHECK(got == want, "%zu groups reported, expected %zu (or others)", got.size(), want.size());
  for (auto i = std::size_t{0}; i + 1 < ends.size(); ++i) SEQ_CHECK(i % 2 == 0 || ends[i] == ends[i + 1], "groups do not follow each other");
  if (!ends.empty()) SEQ_CHECK(ends.front() == c.begin() && ends.back() == c.end(), "the groups do not cover the container");
  if (want.size() > 1) seq::nontrivial();
}

template <typename C>
void group_linear(int const max_len, int const n_keys) {
  auto const k = pick_keys(max_len, n_keys);
  auto c = elements<C>(k);
  auto const form = pick(5);
  fine = form >= 2;
  if (seq::recording()) seq::note("%s, form %d", show(k).c_str(), form);
  std::vector<std::vector<int>> got, want;
  auto const f = [&](auto b, auto e) { SEQ_CHECK(b != e, "an empty group is reported"); got.push_back(tag_range(b, e)); };
  auto const near = [](el const& a, el const& b) { return std::abs(a.key - b.key) <= 1; };
  auto const eq = [](el const& a, el const& b) { return a.key == b.key; };
  seq::op();
  switch (form) {
    case 0: utl::equal_ranges_linear(c, f); break;
    case 1: utl::equal_ranges_linear(c.begin(), c.end(), f); break;
    case 2: utl::equal_ranges_linear(c, near, f); break;
    case 3: utl::equal_ranges_linear(c.begin(), c.end(), near, f); break;
    default: utl::equal_ranges_linear(std::as_const(c), eq, f);
  }
  auto first = 0;
  for (auto i = std::size_t{0}; i != k.size(); ++i) {
    auto const same = form == 2 || form == 3 ? std::abs(k[i] - first) <= 1 : k[i] == first;
    if (want.empty() || !same) { want.push_back({}); first = k[i]; }
    want.back().push_back(static_cast<int>(i));
  }
  std::string g, w;
  for (auto const& x : got) g += show(x);
  for (auto const& x : want) w += show(x);
  SEQ_CHECK(got == want, "runs %s, expected %s", g.c_str(), w.c_str());
  SEQ_CHECK(keys(c) == k && tags(c).size() == k.size(), "the range was changed");
  if (want.size() > 1) seq::nontrivial();
}

template <typename C>
void uniform(int const max_len) {
  auto const k = pick_keys(max_len, 2);
  auto const form = pick(7);
  auto c = elements<C>(k);
  auto const all_equal = std::all_of(begin(k), end(k), [&](int x) { return x == k[0]; });
  auto const parity = [](el const& e) { return e.tag % 2 == 0 ? 0 : e.tag / 2; };
  auto parity_equal = true;
  for (auto const& e : c) parity_equal &= parity(e) == 0;
  auto want = all_equal;
  auto got = false;
  seq::op();
  switch (form) {
    case 0: got = utl::is_uniform(c); break;
    case 1: got = utl::is_uniform(c.begin(), c.end()); break;
    case 2: got = utl::is_uniform(c.begin(), c.end(), [](el const& e) { return e.key; }); break;
    case 3: got = utl::is_uniform(c, [](el const& e) { return e.key; }); break;
    case 4: got = utl::is_uniform(std::as_const(c), [](el const& e) -> int const& { return e.key; }); break;
    case 5: got = utl::is_uniform(c, parity); want = parity_equal; break;
    default:
      got = utl::is_uniform(c.cbegin(), c.cend(), parity);
      want = parity_equal;
  }
  if (seq::recording()) seq::note("%s, form %d", show(k).c_str(), form);
  SEQ_CHECK(got == want, "is_uniform is %d for %s (form %d)", got, show(k).c_str(), form);
  SEQ_CHECK(keys(c) == k && tags(c) == tags(elements<C>(k)), "is_uniform changed the range");
  if (!want) seq::nontrivial();
}

#endif
// ------------------------------------------------------------ A04
#if !defined(ONLY_PROP) || defined(WANT_A04)
template <typename C>
void erasing(int const max_len) {
  auto const k = pick_keys(max_len, 3);
  auto c = elements<C>(k);
  auto const form = pick(4);
  auto const x = pick(3);
  std::vector<int> want;
  for (auto i = std::size_t{0}; i != k.size(); ++i) if (k[i] != x) want.push_back(static_cast<int>(i));
  seq::op();
  if (seq::recording()) seq::note("%s erase %d, form %d", show(k).c_str(), x, form);
  switch (form) {
    case 0: utl::erase(c, el{x, -1}); break;
    case 1: {  // the value is an element of the container
      auto const it = std::find_if(c.begin(), c.end(), [&](el const& e) { return e.key == x; });
      if (it == c.end()) return;
      el const& ref = *it;
      utl::erase(c, ref);
      break;
    }
    case 2: {
      auto calls = 0;
      utl::erase_if(c, [&](el const& e) { ++calls; return e.key == x; });
      SEQ_CHECK(calls == static_cast<int>(k.size()), "the predicate was called %d times for %zu elements", calls, k.size());
      break;
    }
    default: {  // an unusual predicate: by identity
      utl::erase_if(c, [&](el const& e) { return e.tag % 3 == x; });
      want.clear();
      for (auto i = 0; i != static_cast<int>(k.size()); ++i) if (i % 3 != x) want.push_back(i);
    }
  }
  SEQ_CHECK(tags(c) == want, "left are the elements %s, expected %s", show(tags(c)).c_str(), show(want).c_str());
  if (want.size() != k.size()) seq::nontrivial();
}
void erase_set() {
  std::set<int> s;
  for (auto i = 0; i < 4; ++i) if (seq::flip()) s.insert(i);
  auto want = s;
  auto const x = pick(5);
  want.erase(x);
  auto const how = pick(3);
  if (how == 0 && s.count(x)) utl::erase(s, *s.find(x)); else if (how == 1) utl::erase(std::move(s), x); else utl::erase(s, x);
  SEQ_CHECK(s == want, "erasing %d from a set leaves %zu elements", x, s.size());
}
template <typename C>
void dedup(int const max_len) {
  auto const k = pick_keys(max_len, 3);
  auto const form = pick(3);
  auto c = elements<C>(k);
  auto from = 0, to = static_cast<int>(k.size());
  if (form == 2 && big == 2) { from = seq::of({0, 1, to / 2, to}); to = seq::of({from, from + (to - from) / 2, to}); }
  else if (form == 2) { from = pick(to + 1); to = from + pick(to - from + 1); }
  auto const desc = form != 0;
  fine = desc;
  auto const gt = [](el const& a, el const& b) { return b.key < a.key; };
  auto const eq = [](el const& a, el const& b) { return a.key == b.key; };
  seq::op();
  if (seq::recording()) seq::note("%s [%d, %d), form %d", show(k).c_str(), from, to, form);
  if (form == 0) utl::erase_duplicates(c);
  else if (form == 1) utl::erase_duplicates(c, gt, eq);
  else utl::erase_duplicates(c, c.begin() + from, c.begin() + to, gt, eq);
  std::vector<int> mid(k.begin() + from, k.begin() + to);
  std::sort(begin(mid), end(mid));
  mid.erase(std::unique(begin(mid), end(mid)), end(mid));
  if (desc) std::reverse(begin(mid), end(mid));
  std::vector<int> want(k.begin(), k.begin() + from);
  want.insert(end(want), begin(mid), end(mid));
  want.insert(end(want), k.begin() + to, k.end());
  SEQ_CHECK(keys(c) == want, "left is %s, expected %s", show(keys(c)).c_str(), show(want).c_str());
  auto const t = tags(c);
  for (auto i = std::size_t{0}; i != t.size(); ++i) {
    SEQ_CHECK(k[static_cast<std::size_t>(t[i])] == want[i], "an element was damaged");
    auto const mid_end = static_cast<std::size_t>(from) + mid.size();
    if (i < static_cast<std::size_t>(from)) SEQ_CHECK(t[i] == static_cast<int>(i), "an element before the sub-range was touched");
    else if (i < mid_end) SEQ_CHECK(t[i] >= from && t[i] < to, "an element from outside entered the sub-range");
    else SEQ_CHECK(t[i] == to + static_cast<int>(i - mid_end), "an element after the sub-range was touched");
  }
  if (want.size() != k.size()) seq::nontrivial();
}
template <typename C>
void insertion() {
  std::vector<int> k;
  auto const desc = seq::flip();
  for (auto i = 0; i < 6; ++i) if (seq::flip()) k.push_back(2 * (desc ? 5 - i : i));
  auto const x = seq::range(-1, 11);
  C c(k.begin(), k.end());
  auto want = k;
  auto const present = std::find(begin(want), end(want), x) != end(want);
  if (!present) {
    auto it = begin(want);
    while (it != end(want) && (desc ? *it > x : *it < x)) ++it;
    want.insert(it, x);
    seq::nontrivial();
  }
  seq::op();
  if (seq::recording()) seq::note("insert %d into %s", x, show(k).c_str());
  auto const r = desc ? utl::insert_sorted(c, x, std::greater<int>{}) : utl::insert_sorted(c, x);
  std::vector<int> have(c.begin(), c.end());
  SEQ_CHECK(have == want, "inserting %d gives %s, expected %s", x, show(have).c_str(), show(want).c_str());
  SEQ_CHECK(r.second == !present, "inserted is %d, expected %d", r.second, !present);
  SEQ_CHECK(r.first != c.end() && *r.first == x, "the position returned does not hold the element");
  SEQ_CHECK(std::count(c.begin(), c.end(), x) == 1, "the element occurs more than once");
}
template <typename C1, typename C2>
void concatenation(int const max_len) {
  auto const a = pick_keys(max_len, 2), b = big == 2 ? std::vector<int>(static_cast<std::size_t>(seq::of({0, 300, 70000})), 1) : pick_keys(max_len, 2);
  auto c1 = elements<C1>(a);
  auto const c2 = elements<C2>(b);
  seq::op();
  auto& r = utl::concat(c1, c2);
  SEQ_CHECK(&r == &c1, "concat does not return its first argument");
  auto want = a;
  want.insert(end(want), begin(b), end(b));
  SEQ_CHECK(keys(c1) == want, "concatenation gives %s, expected %s", show(keys(c1)).c_str(), show(want).c_str());
  SEQ_CHECK(keys(c2) == b, "concatenation changed its second argument");
  if (!a.empty() && !b.empty()) seq::nontrivial();
}

#endif
// ------------------------------------------------------------ A05
#if !defined(ONLY_PROP) || defined(WANT_A05)
void sorting_rows(int const max_len, int const n_keys) {
  auto const k = pick_keys(max_len, n_keys);
  auto const n = static_cast<int>(k.size());
  auto const form = pick(4);           // companions: both, first empty, second empty, none passed
  auto const give = pick(max_len ? 4 : 2);  // as lvalues, rvalues, constants, a mixture
  std::vector<int> order = k;
  std::vector<std::string> names;
  std::deque<std::pair<int, int>> ids;
  std::vector<unsigned> third;
  if (form != 1) for (auto i = 0; i < n; ++i) names.push_back("row " + std::to_string(i));
  if (form != 2) for (auto i = 0; i < n; ++i) ids.emplace_back(k[static_cast<std::size_t>(i)], i);
  for (auto i = 0; i < n; ++i) third.push_back(static_cast<unsigned>(i));
  auto const names0 = names;
  auto const ids0 = ids;
  auto const third0 = third;
  seq::op();
  if (seq::recording()) seq::note("keys %s, form %d", show(k).c_str(), form);
  auto sorted = k;
  std::sort(begin(sorted), end(sorted));
  std::vector<int> rk;
  if (form == 3) {
    auto const r = give == 1 ? utl::sort_by(std::vector<int>(order)) : give == 0 ? utl::sort_by(order) : utl::sort_by(std::as_const(order));
    rk = std::get<0>(r);
  } else {
    auto const r = give == 0   ? utl::sort_by(order, names, ids, third)
                   : give == 1 ? utl::sort_by(std::vector<int>(order), std::vector<std::string>(names), std::deque<std::pair<int, int>>(ids), std::vector<unsigned>(third))
                   : give == 2 ? utl::sort_by(std::as_const(order), std::as_const(names), std::as_const(ids), std::as_const(third))
                               : utl::sort_by(std::as_const(order), names, std::as_const(ids), std::vector<unsigned>(third));
    rk = std::get<0>(r);
    auto const& rn = std::get<1>(r);
    auto const& ri = std::get<2>(r);
    auto const& rt = std::get<3>(r);
    SEQ_CHECK(rn.size() == names.size() && ri.size() == ids.size() && rt.size() == third.size(), "a companion changed its size");
    std::set<int> seen;
    for (auto i = std::size_t{0}; i < rk.size() && i < rt.size(); ++i) {
      auto const row = static_cast<std::size_t>(rt[i]);
      SEQ_CHECK(row < k.size() && seen.insert(rt[i]).second, "row %zu occurs twice", row);
      SEQ_CHECK(k[row] == rk[i], "row %zu was separated from its key", row);
      if (form != 1) SEQ_CHECK(rn[i] == names0[row], "row %zu was separated from its name", row);
      if (form != 2) SEQ_CHECK(ri[i] == ids0[row], "row %zu was separated from its id", row);
    }
  }
  SEQ_CHECK(rk == sorted, "keys are %s, expected %s", show(rk).c_str(), show(sorted).c_str());
  SEQ_CHECK(order == k && names == names0 && ids == ids0 && third == third0, "the inputs were changed");
  if (rk != k) seq::nontrivial();
}

template <std::size_t... I>
void wide_rows_of(std::index_sequence<I...>) {
  auto const k = pick_keys(4, 3);
  std::array<std::vector<long>, sizeof...(I)> col;
  auto const empty = pick(static_cast<int>(sizeof...(I)) + 1);  // this companion is empty
  for (auto i = 0; i < static_cast<int>(col.size()); ++i) if (i != empty) for (auto n = 0; n < static_cast<int>(k.size()); ++n) col[static_cast<std::size_t>(i)].push_back(100 * n + i);
  seq::op();
  auto const r = utl::sort_by(k, col[I]...);
  auto const& rk = std::get<0>(r);
  SEQ_CHECK(std::is_sorted(begin(rk), end(rk)) && rk.size() == k.size(), "keys are %s", show(rk).c_str());
  std::array<std::vector<long>, sizeof...(I)> const rc{std::get<I + 1>(r)...};
  std::vector<long> ids;
  for (auto i = std::size_t{0}; i != col.size(); ++i) {
    SEQ_CHECK(rc[i].size() == col[i].size(), "companion %zu has %zu rows", i, rc[i].size());
    if (static_cast<int>(i) == empty) continue;
    std::vector<long> id;
    for (auto n = std::size_t{0}; n != k.size(); ++n) {
      auto const row = (rc[i][n] - static_cast<long>(i)) / 100;
      SEQ_CHECK(row >= 0 && row < static_cast<long>(k.size()) && rc[i][n] == 100 * row + static_cast<long>(i) && k[static_cast<std::size_t>(row)] == rk[n], "companion %zu, row %zu holds %ld", i, n, rc[i][n]);
      id.push_back(row);
    }
    if (ids.empty()) ids = id;
    SEQ_CHECK(id == ids && std::set<long>(begin(id), end(id)).size() == k.size(), "companion %zu is in another order", i);
  }
  if (k.size() > 1) seq::nontrivial();
}
void wide_rows() {
  [&]<std::size_t... N>(std::index_sequence<N...>) { auto const n = static_cast<std::size_t>(pick(9)); ((N == n ? wide_rows_of(std::make_index_sequence<N + 1>{}) : void()), ...); }(std::make_index_sequence<9>{});
}

#endif
// ------------------------------------------------------------ A06
#if !defined(ONLY_PROP) || defined(WANT_A06)
struct boom {};
template <typename Map>
void get_or_create(int const depth) {
  Map m;
  std::map<int, int> want;
  using seq::obj;
  std::map<int, obj*> where;
  auto next = 100;
  for (auto step = 0; step < depth; ++step) {
    auto const k = pick(3);
    auto const how = pick(3);  // create, throw, create another entry meanwhile
    auto const rvalue_key = how == 0 && seq::flip();
    auto const absent = !want.count(k);
    auto calls = 0;
    seq::op();
    if (seq::recording()) seq::note("key %d, %s", k, how == 0 ? "create" : how == 1 ? "creation throws" : "creation asks for key 3");
    auto thrown = false;
    auto const lv = typename Map::key_type(k);
    try {
      auto const fn = [&]() -> obj {
        ++calls;
        if (how == 1) throw boom{};
        if (how == 2) {
          auto& o = utl::get_or_create(m, 3, [&] { return obj{next++}; });
          if (!want.count(3)) { want[3] = o.get(); where[3] = &o; }
          SEQ_CHECK(o.get() == want[3], "the nested entry is wrong");
        }
        return obj{next++};
      };
      auto& r = rvalue_key ? utl::get_or_create(m, typename Map::key_type(k), fn) : utl::get_or_create(m, lv, fn);
      if (absent) { want[k] = next - 1; where[k] = &r; seq::nontrivial(); }
      SEQ_CHECK(r.get() == want[k] && !r.moved, "key %d has the value %d, expected %d", k, r.get(), want[k]);
      SEQ_CHECK(&m.find(k)->second == &r, "the reference is not the stored entry");
      r.check();
    } catch (boom const&) {
      thrown = true;
    }
    SEQ_CHECK(thrown == (absent && how == 1), "exception %d", thrown);
    SEQ_CHECK(calls == (absent ? 1 : 0), "the creation function was called %d times for a key that is %s", calls, absent ? "absent" : "present");
    SEQ_CHECK(m.size() == want.size(), "%zu entries, expected %zu", m.size(), want.size());
    for (auto const& [key, v] : want) {
      auto const it = m.find(key);
      SEQ_CHECK(it != m.end() && it->second.get() == v, "entry %d was changed", key);
      SEQ_CHECK(&it->second == where[key], "entry %d was replaced", key);
    }
  }
}
template <typename Map>
void many_indices() {
  Map m;
  auto const n = seq::of({127, 128, 255, 256, 257, 300, 32768, 65535, 65536, 70000});
  auto const stride = seq::of({1, 7919});  // ascending, scattered
  seq::op();
  auto next = std::size_t{0};
  for (auto round = 0; round < 2; ++round)
    for (auto i = 0; i < n; ++i) {
      auto const key = static_cast<int>(static_cast<long>(i) * stride % 70001);
      auto const r = static_cast<std::size_t>(utl::get_or_create_index(m, key));
      auto const want = round ? static_cast<std::size_t>(i) : next++;
      SEQ_CHECK(r == want, "request %d of %d keys: the index is %zu, expected %zu", i, n, r, want);
    }
  seq::nontrivial();
  SEQ_CHECK(m.size() == static_cast<std::size_t>(n), "%zu entries for %d keys", m.size(), n);
}
template <typename Map>
void index(int const depth) {
  Map m;
  std::map<std::string, std::size_t> want;
  for (auto step = 0; step < depth; ++step) {
    auto const k = std::string(1, static_cast<char>('a' + pick(4)));
    seq::op();
    if (seq::recording()) seq::note("%s", k.c_str());
    auto const r = static_cast<std::size_t>(utl::get_or_create_index(m, k));
    if (!want.count(k)) { auto const n = want.size(); want[k] = n; }
    else seq::nontrivial();
    SEQ_CHECK(r == want[k], "index of %s is %zu, expected %zu", k.c_str(), r, want[k]);
    SEQ_CHECK(m.size() == want.size(), "%zu entries, expected %zu", m.size(), want.size());
    for (auto const& [key, v] : want) SEQ_CHECK(static_cast<std::size_t>(m.at(key)) == v, "index of %s changed", key.c_str());
  }
}

#endif
// ------------------------------------------------------------ A07
#if !defined(ONLY_PROP) || defined(WANT_A07)
template <typename T>
void bits_of(T const v) {
  using U = std::make_unsigned_t<T>;
  auto const u = static_cast<U>(v);
  constexpr auto N = static_cast<unsigned>(sizeof(T) * 8);
  std::vector<unsigned> got, want;
  for (auto b = 0U; b != N; ++b) {
    auto const set = ((static_cast<unsigned long long>(u) >> b) & 1U) != 0;
    if (set) want.push_back(b);
    SEQ_CHECK(utl::has_bit_set(v, b) == set, "bit %u of %lld is reported as %d", b, static_cast<long long>(v), !set);
  }
  utl::for_each_set_bit(v, [&](auto const b) { got.push_back(static_cast<unsigned>(b)); });
  std::string g, w;
  for (auto x : got) g += std::to_string(x) + " ";
  for (auto x : want) w += std::to_string(x) + " ";
  SEQ_CHECK(got == want, "bits of %lld: %s, expected %s", static_cast<long long>(v), g.c_str(), w.c_str());
  if (want.size() > 1) seq::nontrivial();
}
template <typename T>
void all_values() {
  constexpr auto N = 1U << (sizeof(T) * 8 <= 16 ? sizeof(T) * 8 : 0);
  auto const hi = pick(256);
  if (N == 256) { bits_of(static_cast<T>(hi)); return; }
  for (auto lo = 0; lo < 256; ++lo) { seq::op(); bits_of(static_cast<T>(hi * 256 + lo)); }
}
template <typename T>
void few_bits(int const max_bits) {
  auto v = std::make_unsigned_t<T>{0};
  auto const n = pick(max_bits + 1);
  auto from = 0;
  constexpr auto N = static_cast<int>(sizeof(T) * 8);
  for (auto i = 0; i < n; ++i) {
    if (from == N) return;
    auto const b = from + pick(N - from);
    v = static_cast<decltype(v)>(v | (static_cast<decltype(v)>(1) << b));
    from = b + 1;
  }
  seq::op();
  bits_of(static_cast<T>(v));
  bits_of(static_cast<T>(~v));
}

#endif
// ------------------------------------------------------------ A08
#if !defined(ONLY_PROP) || defined(WANT_A08)
template <typename C>
void intersections(int const n_keys, int const max) {
  auto const ca = pick_counts(n_keys, max), cb = pick_counts(n_keys, max);
  auto const form = pick(4);
  auto const desc = form >= 2;
  fine = desc;
  auto const a = sorted_with<C>(ca, 0, desc), b = sorted_with<C>(cb, 100, desc);
  if (seq::recording()) seq::note("counts %s and %s, form %d", show(ca).c_str(), show(cb).c_str(), form);
  std::vector<std::pair<int, int>> got, want;
  auto const f = [&](auto const& x, auto const& y) { got.emplace_back(x.tag, y.tag); };
  auto const gt = [](el const& x, el const& y) { return y.key < x.key; };
  seq::op();
  switch (form) {
    case 0: utl::power_set_intersection(a, b, f); break;
    case 1: utl::power_set_intersection(a.begin(), a.end(), b.begin(), b.end(), f); break;
    case 2: utl::power_set_intersection(a, b, f, gt); break;
    default: utl::power_set_intersection(a.begin(), a.end(), b.begin(), b.end(), f, gt);
  }
  for (auto const& x : a) for (auto const& y : b) if (x.key == y.key) want.emplace_back(x.tag, y.tag);
  std::sort(begin(got), end(got));
  std::sort(begin(want), end(want));
  if (!want.empty()) seq::nontrivial();
  std::string g, w;
  for (auto const& [x, y] : got) g += " " + std::to_string(x) + "/" + std::to_string(y);
  for (auto const& [x, y] : want) w += " " + std::to_string(x) + "/" + std::to_string(y);
  SEQ_CHECK(got == want, "pairs%s, expected%s", g.c_str(), w.c_str());
}

#endif
// ------------------------------------------------------------ A09
#if !defined(ONLY_PROP) || defined(WANT_A09)
template <typename C>
void conversions(int const max_len) {
  auto const k = pick_keys(max_len, 3);
  C const c(k.begin(), k.end());
  C m(k.begin(), k.end());
  std::vector<int> const in(c.begin(), c.end());
  auto calls = 0;
  std::vector<int> twice;
  for (auto x : in) twice.push_back(2 * x + 1);
  auto fn = [&calls](int const& x) { ++calls; return 2 * x + 1; };
  auto const form = pick(12);
  seq::op();
  if (seq::recording()) seq::note("%s, form %d", show(in).c_str(), form);
  auto const n = static_cast<int>(in.size());
  if (n > 1) seq::nontrivial();
  auto const called = [&] { SEQ_CHECK(calls == n, "the transformation was called %d times for %d elements", calls, n); };
  switch (form) {
    case 0: SEQ_CHECK(utl::to_vec(c) == in, "to_vec lost elements or their order"); break;
    case 1: SEQ_CHECK(utl::to_vec(c, fn) == twice, "to_vec with transformation is wrong"); called(); break;
    case 2: SEQ_CHECK(utl::to_vec(m.begin(), m.end(), fn) == twice, "to_vec of iterators is wrong"); called(); break;
    case 3: {
      auto const v = utl::to_vec(m, [&](auto& x) { return &x; });
      SEQ_CHECK(v.size() == in.size(), "wrong size");
      auto it = m.begin();
      for (auto const p : v) { SEQ_CHECK(p == &*it, "the transformation got a copy of the element"); ++it; }
      break;
    }
    case 4: {
      auto const s = utl::to_set(c, fn);
      std::set<int> const want(twice.begin(), twice.end());
      SEQ_CHECK(std::vector<int>(s.begin(), s.end()) == std::vector<int>(want.begin(), want.end()), "to_set is wrong");
      called();
      break;
    }
    case 5: SEQ_CHECK(utl::transform_to<std::vector<int>>(c, fn) == twice, "transform_to is wrong"); called(); break;
    case 6: {
      auto const old = big == 2 ? std::vector{1, 0} : pick_keys(2, 2);
      std::vector<int> out = old;
      utl::transform_to(c, out, fn);
      auto want = old;
      want.insert(end(want), begin(twice), end(twice));
      SEQ_CHECK(out == want, "transform_to an output holding %s gives %s, expected %s", show(old).c_str(), show(out).c_str(), show(want).c_str());
      called();
      break;
    }
    case 7: {
      auto const s = utl::transform_to<std::string>(c, [](int x) { return static_cast<char>('a' + x); });
      SEQ_CHECK(s.size() == in.size(), "transform_to a string is wrong");
      for (auto i = std::size_t{0}; i != in.size(); ++i) SEQ_CHECK(s[i] == 'a' + in[i], "transform_to a string is wrong");
      break;
    }
    case 9: {
      auto const s = utl::to_set(m.begin(), m.end(), fn);
      std::set<int> const want(twice.begin(), twice.end());
      SEQ_CHECK(std::vector<int>(s.begin(), s.end()) == std::vector<int>(want.begin(), want.end()), "to_set of iterators is wrong");
      called();
      break;
    }
    case 10: {  // results that are references
      auto const s = seq::flip() ? utl::to_set(c.begin(), c.end(), [](int const& x) -> int const& { return x; }) : utl::to_set(c, [](int const& x) -> int const& { return x; });
      std::set<int> const want(in.begin(), in.end());
      SEQ_CHECK(std::vector<int>(s.begin(), s.end()) == std::vector<int>(want.begin(), want.end()), "to_set of references is wrong");
      break;
    }
    case 8: {
      auto const v = utl::to_vec(c, [](int x) { return std::make_unique<int>(x); });
      SEQ_CHECK(v.size() == in.size(), "wrong size");
      for (auto i = std::size_t{0}; i != in.size(); ++i) SEQ_CHECK(*v[i] == in[i], "to_vec of move-only results is wrong");
      break;
    }
    default: {
      SEQ_CHECK((utl::repeat_n(fn(n), static_cast<std::size_t>(n)) == std::vector<int>(static_cast<std::size_t>(n), 2 * n + 1)), "repeat_n is wrong");
      auto const d = utl::repeat_n<std::string, std::deque<std::string>>("a long string that is allocated", static_cast<std::size_t>(n));
      SEQ_CHECK(d == std::deque<std::string>(static_cast<std::size_t>(n), "a long string that is allocated"), "repeat_n into a deque is wrong");
    }
  }
  SEQ_CHECK(std::vector<int>(c.begin(), c.end()) == in && std::vector<int>(m.begin(), m.end()) == in, "the input was changed");
}
void array_conversion() {
  int a[3] = {pick(3), pick(3), pick(3)};
  SEQ_CHECK(utl::to_vec(a) == (std::vector<int>{a[0], a[1], a[2]}), "to_vec of an array is wrong");
  SEQ_CHECK(utl::to_vec(a, [](int x) { return x + 1; }) == (std::vector<int>{a[0] + 1, a[1] + 1, a[2] + 1}), "to_vec of an array is wrong");
}

template <typename C>
void ranges(int const max_len) {
  auto const k = pick_keys(max_len, 3);
  auto c = elements<C>(k);
  auto const& cc = c;
  auto const b = c.begin(), e = c.end();
  auto const x = pick(3);
  auto const p = [&](el const& v) { return v.key == x; };
  auto const lt = [](el const& u, el const& v) { return u.key < v.key; };
  auto const gt = [](el const& u, el const& v) { return u.key > v.key; };
  seq::op();
  if (seq::recording()) seq::note("%s, %d", show(k).c_str(), x);
  SEQ_CHECK(utl::all_of(cc, p) == std::all_of(b, e, p), "all_of");
  SEQ_CHECK(utl::any_of(cc, p) == std::any_of(b, e, p), "any_of");
  SEQ_CHECK(utl::none_of(cc, p) == std::none_of(b, e, p), "none_of");
  SEQ_CHECK(utl::find_if(c, p) == std::find_if(b, e, p), "find_if");
  SEQ_CHECK(utl::find(c, el{x, -1}) == std::find(b, e, el{x, -1}), "find");
  SEQ_CHECK(utl::count_if(cc, p) == std::count_if(b, e, p), "count_if");
  SEQ_CHECK(utl::is_sorted(cc, lt) == std::is_sorted(b, e, lt), "is_sorted");
  SEQ_CHECK(utl::is_sorted(cc, gt) == std::is_sorted(b, e, gt), "is_sorted");
  SEQ_CHECK(utl::max_element(c, lt) == std::max_element(b, e, lt), "max_element");
  SEQ_CHECK(utl::min_element(c, lt) == std::min_element(b, e, lt), "min_element");
  SEQ_CHECK(utl::max_element(c, gt) == std::max_element(b, e, gt), "max_element");
  SEQ_CHECK(utl::min_element(c, gt) == std::min_element(b, e, gt), "min_element");
  SEQ_CHECK(tags(c) == tags(elements<C>(k)), "a query changed the range");
  auto sorted = k;
  std::sort(begin(sorted), end(sorted));
  auto const rows = [&](C const& v, char const* what) {
    auto t = tags(v);
    for (auto const& y : v) SEQ_CHECK(k[static_cast<std::size_t>(y.tag)] == y.key, "%s damaged an element", what);
    std::sort(begin(t), end(t));
    SEQ_CHECK(t.size() == k.size() && std::adjacent_find(begin(t), end(t)) == end(t), "%s lost elements", what);
  };
  { auto s = c; utl::sort(s); SEQ_CHECK(keys(s) == sorted, "sort"); rows(s, "sort"); }
  { auto s = c; utl::sort(s, gt); auto r = sorted; std::reverse(begin(r), end(r)); SEQ_CHECK(keys(s) == r, "sort by a predicate"); rows(s, "sort"); }
  if (!k.empty()) {
    auto const last = static_cast<int>(k.size()) - 1;
    auto const n = static_cast<std::size_t>(big == 2 ? seq::of({0, last / 3, last}) : pick(last + 1));
    auto const ok = [&](C const& s, auto&& less, std::vector<int> const& order) {
      auto const v = keys(s);
      SEQ_CHECK(v[n] == order[n], "nth_element puts %d at %zu, expected %d", v[n], n, order[n]);
      for (auto i = std::size_t{0}; i != v.size(); ++i) SEQ_CHECK(i < n ? !less(el{v[n], 0}, el{v[i], 0}) : !less(el{v[i], 0}, el{v[n], 0}), "nth_element does not split the range");
      rows(s, "nth_element");
    };
    { auto s = c; utl::nth_element(s, n); ok(s, lt, sorted); }
    { auto s = c; auto r = sorted; std::reverse(begin(r), end(r)); utl::nth_element(s, n, gt); ok(s, gt, r); }
    seq::nontrivial();
  }
  { auto s = c; utl::fill(s, el{7, 8}); SEQ_CHECK(keys(s) == std::vector<int>(k.size(), 7), "fill"); }
}
void equality(int const max_len) {
  auto const a = pick_keys(max_len, 2), b = pick_keys(max_len, 2);
  seq::op();
  if (a == b) seq::nontrivial();
  SEQ_CHECK(utl::equal(a, std::deque<int>(b.begin(), b.end())) == (a == b), "equal of %s and %s is %d", show(a).c_str(), show(b).c_str(), a != b);
}
#endif
}  // namespace

std::vector<seq::config> seq::configs(std::string const& prop) {
  std::vector<config> c;
  auto const add = [&](std::string name, std::function<void()> f, int tier = 0, int shards = 1, int depth = 2) { c.push_back({std::move(name), std::move(f), tier, shards, depth}); };
  auto const n = [](int i) { return std::to_string(i); };
  auto const huge = [](auto f) { return [f] { big = 2; f(); big = 0; }; };
  auto const large = [](auto f) { return [f] { big = 1; f(); big = 0; }; };
#if !defined(ONLY_PROP) || defined(WANT_A01)
  if (prop == "A01") {
    for (auto const t : {0, 1}) {
      auto const k = 4, m = t ? 3 : 2;
      auto const s = ": " + n(k) + " keys, up to " + n(m) + " elements per key and side, all overloads";
      add("joins of vectors" + s, [=] { joins<std::vector<el>, std::vector<el>>(k, m); }, t, t ? 24 : 8, 4);
      add("joins of a list and a forward list of another type" + s, [=] { joins<std::list<el>, std::forward_list<other>>(k, m); }, t, t ? 24 : 8, 4);
      add("joins of different types" + s, [=] { joins<std::vector<other>, std::deque<el>>(k, m); }, t, t ? 24 : 8, 4);
    }
    add("joins: 2 keys, up to 4 elements per key and side", [=] { joins<std::vector<el>, std::list<other>>(2, 4); });
    add("joins: 6 keys, up to 1 element per key and side", [=] { joins<std::vector<el>, std::vector<other>>(6, 1); }, 0, 4, 4);
    add("joins: 3 keys with 0, 1, 17 or 40 elements", large([] { joins<std::vector<el>, std::vector<other>>(3, 0); }), 0, 8, 3);
    add("joins: 2 keys with 0, 1, 300 or 66000 elements", huge([] { joins<std::vector<el>, std::vector<el>>(2, 66000); }), 0, 8, 3);
    add("inner joins by key function: 4 keys, up to 2 elements", [=] { join_less_fn(4, 2); }, 0, 4, 4);
  }
#endif
#if !defined(ONLY_PROP) || defined(WANT_A02)
  if (prop == "A02") {
    add("2 keys, up to 2 elements per key and side", [] { diff(2, 2); }, 0, 4, 3);
    add("4 keys, duplicate-free", [] { diff(4, 1); }, 0, 8, 4);
    add("1 key, up to 4 elements per side", [] { diff(1, 4); });
    add("3 keys, up to 2 elements per key and side", [] { diff(3, 2); }, 0, 16, 4);
    add("5 keys, duplicate-free", [] { diff(5, 1); }, 0, 8, 4);
    add("up to 70000 keys, patterns", huge([] { diff(seq::of({127, 128, 255, 256, 257, 300, 70000}), 1); }), 0, 4);
    add("2 keys, up to 3 elements per key and side", [] { diff(2, 3); }, 1, 16, 4);
    add("6 keys, duplicate-free", [] { diff(6, 1); }, 1, 24, 4);
    add("7 keys, duplicate-free", [] { diff(7, 1); }, 1, 24, 4);
  }
#endif
#if !defined(ONLY_PROP) || defined(WANT_A03)
  if (prop == "A03") {
    for (auto const t : {0, 1}) {
      auto const l = t ? 10 : 8;
      add("grouping with sorting, vector: up to " + n(l) + " elements of 3 keys", [=] { group_sorted<std::vector<el>>(l, 3); }, t, 8, 3);
      add("grouping with sorting, deque: up to " + n(l) + " elements of 3 keys", [=] { group_sorted<std::deque<el>>(l, 3); }, t, 8, 3);
      add("linear grouping, vector: up to " + n(l) + " elements of 4 keys", [=] { group_linear<std::vector<el>>(l - 1, 4); }, t, 8, 3);
      add("linear grouping, list: up to " + n(l) + " elements of 3 keys", [=] { group_linear<std::list<el>>(l, 3); }, t, 8, 3);
      add("uniformity, vector: up to " + n(l) + " elements of 2 keys", [=] { uniform<std::vector<el>>(l); }, t);
      add("uniformity, forward list: up to " + n(l) + " elements of 2 keys", [=] { uniform<std::forward_list<el>>(l); }, t);
    }
    add("grouping with sorting, vector: patterns of up to 70 elements", large([] { group_sorted<std::vector<el>>(0, 7); }), 0, 2);
    add("linear grouping, list: patterns of up to 70 elements", large([] { group_linear<std::list<el>>(0, 7); }), 0, 2);
    add("uniformity, vector: patterns of up to 70 elements", large([] { uniform<std::vector<el>>(0); }), 0, 2);
    add("grouping with sorting, vector: patterns of up to 70000 elements", huge([] { group_sorted<std::vector<el>>(0, seq::of({3, 100000})); }), 0, 4);
    add("linear grouping, list: patterns of up to 70000 elements", huge([] { group_linear<std::list<el>>(0, seq::of({3, 100000})); }), 0, 4);
    add("uniformity, vector: patterns of up to 70000 elements", huge([] { uniform<std::vector<el>>(0); }), 0, 2);
    add("grouping with sorting, vector: up to 5 elements of 5 keys", [] { group_sorted<std::vector<el>>(5, 5); });
  }
#endif
#if !defined(ONLY_PROP) || defined(WANT_A04)
  if (prop == "A04") {
    for (auto const t : {0, 1}) {
      auto const l = t ? 9 : 7;
      auto const s = ": up to " + n(l) + " elements of 3 keys";
      add("erasing, vector" + s, [=] { erasing<std::vector<el>>(l); }, t, 4, 3);
      add("erasing, deque" + s, [=] { erasing<std::deque<el>>(l); }, t, 4, 3);
      add("erasing, list" + s, [=] { erasing<std::list<el>>(l); }, t, 4, 3);
      add("duplicates, vector" + s, [=] { dedup<std::vector<el>>(l); }, t, 4, 3);
      add("duplicates, deque" + s, [=] { dedup<std::deque<el>>(l); }, t, 4, 3);
      add("concatenation, vectors, up to " + n(l) + " elements each", [=] { concatenation<std::vector<el>, std::vector<el>>(l); }, t, 4, 3);
      add("concatenation, deque and list, up to " + n(l) + " elements each", [=] { concatenation<std::deque<el>, std::list<el>>(l); }, t, 4, 3);
    }
    add("erasing, vector: patterns of up to 70 elements", large([] { erasing<std::vector<el>>(0); }), 0, 2);
    add("concatenation: patterns of up to 70 elements", large([] { concatenation<std::vector<el>, std::deque<el>>(0); }), 0, 8);
    add("duplicates, vector: patterns of up to 70 elements", large([] { dedup<std::vector<el>>(0); }), 1, 24, 3);
    add("erasing, vector: patterns of up to 70000 elements", huge([] { erasing<std::vector<el>>(0); }), 0, 4);
    add("duplicates, vector: patterns of up to 70000 elements", huge([] { dedup<std::vector<el>>(0); }), 0, 8, 3);
    add("concatenation: patterns of up to 70000 elements", huge([] { concatenation<std::vector<el>, std::deque<el>>(0); }), 0, 8);
    add("erasing from sets", [] { erase_set(); });
    add("sorted insertion, vector", [] { insertion<std::vector<int>>(); });
    add("sorted insertion, deque", [] { insertion<std::deque<int>>(); });
    add("sorted insertion, list", [] { insertion<std::list<int>>(); });
  }
#endif
#if !defined(ONLY_PROP) || defined(WANT_A05)
  if (prop == "A05") {
    add("up to 6 rows with 3 keys", [] { sorting_rows(6, 3); }, 0, 8, 3);
    add("up to 5 rows with 5 keys", [] { sorting_rows(5, 5); }, 0, 8, 3);
    add("up to 9 companions", [] { wide_rows(); }, 0, 4);
    add("patterns of up to 70 rows", large([] { sorting_rows(0, 9); }), 0, 4);
    add("patterns of up to 70000 rows", huge([] { sorting_rows(0, seq::of({3, 100000})); }), 0, 8);
    add("up to 8 rows with 3 keys", [] { sorting_rows(8, 3); }, 1, 24, 3);
    add("up to 7 rows with 4 keys", [] { sorting_rows(7, 4); }, 1, 24, 3);
  }
#endif
#if !defined(ONLY_PROP) || defined(WANT_A06)
  if (prop == "A06") {
    add("indices of many keys, ordered map", [] { many_indices<std::map<int, std::size_t>>(); });
    add("indices of many keys, unordered map", [] { many_indices<std::unordered_map<int, std::size_t>>(); });
    for (auto const t : {0, 1}) {
      auto const d = t ? 6 : 5;
      add("ordered map, " + n(d) + " requests", [=] { get_or_create<std::map<int, obj>>(d); }, t, 8);
      add("unordered map, " + n(d) + " requests", [=] { get_or_create<std::unordered_map<int, obj>>(d); }, t, 8);
      add("indices in a map, " + n(d + 3) + " requests", [=] { index<std::map<std::string, std::size_t>>(d + 3); }, t, 4);
      add("indices in an unordered map, " + n(d + 3) + " requests", [=] { index<std::unordered_map<std::string, int>>(d + 3); }, t, 4);
    }
  }
#endif
#if !defined(ONLY_PROP) || defined(WANT_A07)
  if (prop == "A07") {
    add("all 8 bit values, unsigned", [] { all_values<std::uint8_t>(); });
    add("all 8 bit values, signed", [] { all_values<std::int8_t>(); });
    add("all 16 bit values, unsigned", [] { all_values<std::uint16_t>(); }, 0, 8, 1);
    add("all 16 bit values, signed", [] { all_values<std::int16_t>(); }, 0, 8, 1);
    add("32 bits, unsigned: up to 3 set or unset", [] { few_bits<std::uint32_t>(3); });
    add("32 bits, signed: up to 3 set or unset", [] { few_bits<std::int32_t>(3); });
    add("64 bits, unsigned: up to 2 set or unset", [] { few_bits<std::uint64_t>(2); });
    add("64 bits, signed: up to 2 set or unset", [] { few_bits<std::int64_t>(2); });
    add("64 bits, unsigned: up to 3 set or unset", [] { few_bits<std::uint64_t>(3); }, 0, 8);
    add("64 bits, unsigned: up to 4 set or unset", [] { few_bits<std::uint64_t>(4); }, 1, 24);
    add("64 bits, signed: up to 4 set or unset", [] { few_bits<std::int64_t>(4); }, 1, 24);
  }
#endif
#if !defined(ONLY_PROP) || defined(WANT_A08)
  if (prop == "A08") {
    add("vectors: 3 keys, up to 3 elements per key and side", [] { intersections<std::vector<el>>(3, 3); }, 0, 8, 3);
    add("lists: 4 keys, up to 2 elements per key and side", [] { intersections<std::list<el>>(4, 2); }, 0, 8, 3);
    add("vectors: 2 keys with 0, 1, 17 or 40 elements", large([] { intersections<std::vector<el>>(2, 0); }), 0, 4, 3);
    add("vectors: 1 key, up to 6 elements per side", [] { intersections<std::vector<el>>(1, 6); });
    add("deques: 6 keys, up to 1 element per key and side", [] { intersections<std::deque<el>>(6, 1); }, 0, 8, 3);
    add("vectors: 4 keys, up to 3 elements per key and side", [] { intersections<std::vector<el>>(4, 3); }, 1, 24, 3);
  }
#endif
#if !defined(ONLY_PROP) || defined(WANT_A09)
  if (prop == "A09") {
    for (auto const t : {0, 1}) {
      auto const l = t ? 9 : 7;
      auto const s = ": up to " + n(l) + " elements of 3 values";
      add("conversions of a vector" + s, [=] { conversions<std::vector<int>>(l); }, t, 4, 3);
      add("conversions of a list" + s, [=] { conversions<std::list<int>>(l); }, t, 4, 3);
      add("range algorithms, vector" + s, [=] { ranges<std::vector<el>>(l); }, t, 8, 3);
      add("range algorithms, deque" + s, [=] { ranges<std::deque<el>>(l); }, t, 8, 3);
      add("equality" + s, [=] { equality(l); }, t);
    }
    add("conversions of a vector: patterns of up to 70 elements", large([] { conversions<std::vector<int>>(0); }), 0, 4);
    add("range algorithms, vector: patterns of up to 70 elements", large([] { ranges<std::vector<el>>(0); }), 0, 8);
    add("conversions of a vector: patterns of up to 70000 elements", huge([] { conversions<std::vector<int>>(0); }), 0, 8);
    add("range algorithms, vector: patterns of up to 70000 elements", huge([] { ranges<std::vector<el>>(0); }), 0, 8);
    add("conversions of arrays", [] { array_conversion(); });
  }
#endif
  return c;
}
