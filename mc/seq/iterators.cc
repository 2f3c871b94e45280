// Zip, enumerate, n-wise and pairwise iteration, the iterator facade (I01-I04).
#include "seq.h"
#include <algorithm>
#include <array>
#include <cstddef>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "utl/enumerate.h"
#include "utl/iterator_facade.h"
#include "utl/nwise.h"
#include "utl/pairwise.h"
#include "utl/zip.h"

using seq::pick;

namespace {
template <typename C>
C filled(int const n, int const from = 0) {
  std::vector<typename C::value_type> v;
  for (auto i = 0; i < n; ++i) v.push_back(static_cast<typename C::value_type>(from + i));
  return C(v.begin(), v.end());
}
template <typename C>
auto at(C& c, int const i) -> decltype(*std::begin(c)) { return *std::next(std::begin(c), i); }
template <typename C>
int length(C const& c) { return static_cast<int>(std::distance(std::begin(c), std::end(c))); }

// ------------------------------------------------------------ I01
#if !defined(ONLY_PROP) || defined(WANT_I01)
// every walk over a zip of A and B (and A again), shown element by element
template <typename A, typename B>
void zip_walk(int const max_len, int const depth) {
  auto const n = pick(max_len + 1);
  auto a = filled<A>(n, 100);
  auto b = filled<B>(n, 200);
  auto const form = pick(6);
  seq::op();
  auto const walk = [&](auto& z, auto const& ca, auto const& cb) {
    SEQ_CHECK(z.size() == static_cast<std::size_t>(n), "size is %zu, expected %d", z.size(), n);
    auto it = z.begin();
    auto const first = z.begin();
    auto const last = z.end();
    auto pos = 0;
    for (auto step = 0;; ++step) {
      SEQ_CHECK((it == first) == (pos == 0) && (it != first) == (pos != 0), "comparison with begin at %d", pos);
      SEQ_CHECK((it == last) == (pos == n) && (it != last) == (pos != n), "comparison with end at %d", pos);
      SEQ_CHECK((last == it) == (pos == n) && std::distance(first, it) == pos, "position %d", pos);
      if (pos < n) {
        auto const [x, y, x2] = *it;
        SEQ_CHECK(&x == &at(ca, pos) && &x2 == &x, "position %d shows another element of the first container", pos);
        SEQ_CHECK(&y == &at(cb, pos), "position %d shows another element of the second container", pos);
        auto const& cit = it;
        SEQ_CHECK(&std::get<1>(*cit) == &y, "a constant iterator shows another element");
      }
      if (step == depth) break;
      auto const move = pick(3);
      if (move == 0) break;
      if (move == 1) { if (pos == n) break; auto& r = ++it; SEQ_CHECK(&r == &it, "++ does not return the iterator"); ++pos; }
      else { if (pos == 0) break; auto& r = --it; SEQ_CHECK(&r == &it, "-- does not return the iterator"); --pos; seq::nontrivial(); }
      seq::op();
    }
    for (auto i = 0; i < n; ++i) {
      auto const [x, y, x2] = z[static_cast<std::size_t>(i)];
      SEQ_CHECK(&x == &at(ca, i) && &y == &at(cb, i) && &x2 == &x, "z[%d] shows other elements", i);
    }
  };
  if (seq::recording()) seq::note("%d elements, form %d", n, form);
  switch (form) {
    case 0: { auto z = utl::zip(a, b, a); walk(z, a, b); break; }
    case 1: { auto const z = utl::zip(a, b, a); walk(z, a, b); break; }
    case 2: { auto z = utl::czip(a, b, a); walk(z, a, b); break; }
    case 3: { auto z = utl::zip_unchecked(a, std::as_const(b), a); walk(z, a, b); break; }
    case 4: { auto z = utl::zip_no_size_check(a, b, a); auto z2 = z; auto z3 = std::move(z); walk(z2, a, b); walk(z3, a, b); break; }
    default: { auto const z = utl::czip_unchecked(a, b, a); walk(z, a, b); auto y = utl::czip_no_size_check(a, b, a); walk(y, a, b); }
  }
}

// moved-in containers live in the zip
template <typename A>
void zip_owned(int const max_len) {
  using P = std::vector<std::unique_ptr<int>>;
  auto const n = pick(max_len + 1);
  auto a = filled<A>(n, 100);
  auto const form = pick(6);
  auto const owner = [&] { P p; for (auto i = 0; i < n; ++i) p.push_back(std::make_unique<int>(i)); return p; };
  auto const objs = [&] { std::list<seq::obj> l; for (auto i = 0; i < n; ++i) l.emplace_back(i); return l; };
  seq::op();
  if (seq::recording()) seq::note("%d elements, form %d", n, form);
  if (n > 0) seq::nontrivial();
  auto const see = [&](auto& z) {
    auto i = 0;
    for (auto const& [x, p, o] : z) {
      SEQ_CHECK(&x == &at(a, i), "position %d shows another element", i);
      SEQ_CHECK(p != nullptr && *p == i, "the moved-in pointer at %d is wrong", i);
      SEQ_CHECK(o.get() == i && !o.moved, "the moved-in object at %d is wrong", i);
      ++i;
    }
    SEQ_CHECK(i == n && z.size() == static_cast<std::size_t>(n), "%d positions, expected %d", i, n);
  };
  switch (form) {
    case 0: { auto z = utl::zip(a, owner(), objs()); see(z); see(z); break; }
    case 1: { auto const z = utl::zip(a, owner(), objs()); see(z); break; }
    case 2: {
      auto const z = utl::czip(a, objs());
      auto i = 0;
      for (auto const& [x, o] : z) { SEQ_CHECK(&x == &at(a, i) && o.get() == i && !o.moved, "position %d is wrong", i); ++i; }
      SEQ_CHECK(i == n, "%d positions, expected %d", i, n);
      break;
    }
    case 3: { auto z = utl::zip_unchecked(a, owner(), objs()); auto y = std::move(z); see(y); break; }
    case 4: {
      auto p = owner();
      auto o = objs();
      auto z = utl::zip_no_size_check(a, std::move(p), std::move(o));
      p.clear();
      o.clear();
      p.shrink_to_fit();
      for (auto const& [x, q, y] : z) { *q += 0; y.v += 0; x += 0; }
      see(z);
      break;
    }
    default: {
      auto z = std::make_unique<decltype(utl::zip(a, owner(), objs()))>(utl::zip(a, owner(), objs()));
      auto i = 0;
      for (auto const& [x, q, y] : *z) { q = std::make_unique<int>(10 + i++); (void)x; (void)y; }
      i = 0;
      for (auto const& t : *z) SEQ_CHECK(*std::get<1>(t) == 10 + i++, "a write to a moved-in container is lost");
    }
  }
}

template <typename F>
bool throws(F&& f) {
  try {
    f();
    return false;
  } catch (std::exception const&) {
    return true;
  }
}
void zip_sizes(int const max_len) {
  auto const form = pick(5);
  auto const k = pick(3);
  int n[4] = {pick(max_len + 1), pick(max_len + 1), k > 0 ? pick(max_len + 1) : 0, k > 1 ? pick(max_len + 1) : 0};
  auto const a = filled<std::vector<int>>(n[0]);
  auto b = filled<std::list<int>>(n[1]);
  auto c = filled<std::deque<int>>(n[2]);
  auto d = filled<std::set<int>>(n[3]);
  auto differ = n[0] != n[1] || (k > 0 && n[0] != n[2]) || (k > 1 && n[0] != n[3]);
  if (differ) seq::nontrivial();
  seq::op();
  if (seq::recording()) seq::note("sizes %d %d %d %d, %d containers, form %d", n[0], n[1], n[2], n[3], k + 2, form);
  auto thrown = false;
  auto const all = [&](auto&& z) {
    if (k == 0) z(a, b);
    else if (k == 1) z(a, b, c);
    else z(a, b, c, d);
  };
  switch (form) {
    case 0: thrown = throws([&] { all([](auto&&... x) { utl::zip(x...); }); }); break;
    case 1: thrown = throws([&] { all([](auto&&... x) { utl::czip(x...); }); }); break;
    case 2: thrown = throws([&] { all([](auto&&... x) { utl::zip(std::decay_t<decltype(x)>(x)...); }); }); break;  // moved in
    case 3: thrown = throws([&] { all([](auto&&... x) { utl::zip_unchecked(x...); utl::czip_unchecked(x...); }); }); differ = false; break;
    default: thrown = throws([&] { all([](auto&&... x) { utl::zip_no_size_check(x...); utl::czip_no_size_check(x...); }); }); differ = false;
  }
  SEQ_CHECK(thrown == differ, "sizes %d %d %d %d of %d containers: thrown is %d", n[0], n[1], n[2], n[3], k + 2, thrown);
  SEQ_CHECK(a.size() == static_cast<std::size_t>(n[0]) && b.size() == static_cast<std::size_t>(n[1]), "the size check changed a container");
}

// writes through the zip and algorithms over it
template <typename A, typename B>
void zip_use(int const max_len) {
  auto const n = pick(max_len + 1);
  auto a = filled<A>(n, 10);
  auto b = filled<B>(n, 20);
  auto const form = pick(10);
  std::vector<long> wa, wb;
  for (auto i = 0; i < n; ++i) { wa.push_back(10 + i); wb.push_back(20 + i); }
  auto z = utl::zip(a, b);
  auto const cz = utl::czip(a, b);
  seq::op();
  if (n > 0) seq::nontrivial();
  if (seq::recording()) seq::note("%d elements, form %d", n, form);
  auto const U = [](int const i) { return static_cast<std::size_t>(i); };
  switch (form) {
    case 0: {
      auto i = 0;
      for (auto const [x, y] : z) { x += 5; y = static_cast<typename B::value_type>(x + i++); }
      for (i = 0; i < n; ++i) { wa[U(i)] += 5; wb[U(i)] = wa[U(i)] + i; }
      break;
    }
    case 1: {
      if (n == 0) return;
      auto const i = pick(n);
      std::get<0>(z[U(i)]) = 77;
      std::get<1>(z[U(i)]) = 78;
      wa[U(i)] = 77;
      wb[U(i)] = 78;
      break;
    }
    case 2: {
      auto const key = 10 + pick(n + 1);
      auto const f = std::find_if(begin(cz), end(cz), [&](auto const& t) { return std::get<0>(t) == key; });
      SEQ_CHECK(std::distance(begin(cz), f) == key - 10, "find_if ends at %td", std::distance(begin(cz), f));
      if (key - 10 < n) SEQ_CHECK(std::get<1>(*f) == key + 10, "found another element");
      break;
    }
    case 3: {
      SEQ_CHECK(std::count_if(begin(z), end(z), [](auto const& t) { return std::get<0>(t) % 2 == 0; }) == (n + 1) / 2, "count_if");
      SEQ_CHECK(std::all_of(begin(cz), end(cz), [](auto const& t) { return std::get<1>(t) - std::get<0>(t) == 10; }), "all_of");
      break;
    }
    case 4: {
      std::vector<long> sums;
      std::transform(begin(z), end(z), std::back_inserter(sums), [](auto const& t) { return std::get<0>(t) + std::get<1>(t); });
      SEQ_CHECK(sums.size() == U(n), "transform gives %zu elements", sums.size());
      for (auto i = 0; i < n; ++i) SEQ_CHECK(sums[U(i)] == wa[U(i)] + wb[U(i)], "transform");
      break;
    }
    case 5: {  // backwards
      auto it = z.end();
      for (auto i = n - 1; i >= 0; --i) { --it; auto const [x, y] = *it; SEQ_CHECK(&x == &at(a, i) && &y == &at(b, i), "backwards position %d is wrong", i); }
      SEQ_CHECK(it == z.begin(), "backwards iteration does not end at begin");
      auto i = n;
      for (auto r = std::make_reverse_iterator(cz.end()); r != std::make_reverse_iterator(cz.begin()); ++r) SEQ_CHECK(std::get<0>(*r) == 10 + --i, "reverse iterator is wrong");
      SEQ_CHECK(i == 0, "reverse iteration visits %d of %d", n - i, n);
      break;
    }
    case 6: {  // all pairs of iterators
      for (auto i = 0; i <= n; ++i)
        for (auto j = 0; j <= n; ++j) {
          auto const x = std::next(z.begin(), i), y = std::next(z.begin(), j);
          SEQ_CHECK((x == y) == (i == j) && (x != y) == (i != j), "comparison of %d and %d", i, j);
          if constexpr (requires { a.begin() < a.begin(); b.begin() < b.begin(); }) {
            SEQ_CHECK((x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "order of %d and %d", i, j);
          }
          auto const cx = std::next(cz.begin(), i), cy = std::next(cz.begin(), j);
          SEQ_CHECK((cx == cy) == (i == j), "comparison of %d and %d in the constant zip", i, j);
        }
      break;
    }
    case 7: {
      auto const one = utl::zip(a);
      auto i = 0;
      for (auto const& [x] : one) SEQ_CHECK(&x == &at(a, i++), "zip of one container");
      SEQ_CHECK(i == n, "zip of one container visits %d of %d", i, n);
      auto self = utl::zip(a, a, a, a);
      for (auto const& [w, x, y, v] : self) SEQ_CHECK(&w == &x && &x == &y && &y == &v, "zip of a container with itself");
      break;
    }
    case 8: {  // windows next to elements
      if (n == 0) break;
      std::vector<int> w;
      for (auto i = 1; i < n; ++i) w.push_back(i);
      auto i = 0;
      for (auto const& [p, x] : utl::zip(utl::pairwise(a), w)) {
        auto& [l, r] = p;
        SEQ_CHECK(i < n - 1 && &l == &at(a, i) && &r == &at(a, i + 1) && &x == &w[U(i)], "position %d of a zip of pairs", i);
        ++i;
      }
      SEQ_CHECK(i == n - 1, "a zip of pairs visits %d of %d", i, n - 1);
      i = 0;
      for (auto const& [k, p] : utl::enumerate(utl::pairwise(b))) { SEQ_CHECK(k == U(i) && &std::get<1>(p) == &at(b, i + 1), "position %d of numbered pairs", i); ++i; }
      SEQ_CHECK(i == n - 1, "numbered pairs: %d of %d", i, n - 1);
      break;
    }
    default: {
      std::map<int, int> m;
      std::set<long> s;
      for (auto i = 0; i < n; ++i) { m[i] = i * i; s.insert(50 - i); }
      std::array<int, 3> const arr{1, 2, 3};
      auto i = 0;
      for (auto const [kv, x, e] : utl::zip(m, a, s)) { kv.second += static_cast<int>(x); SEQ_CHECK(kv.first == i && e == 50 - (n - 1 - i), "position %d of a map and a set", i); ++i; }
      i = 0;
      for (auto const& [k, v] : m) { SEQ_CHECK(k == i && v == i * i + 10 + i, "a write through the zip to a map is lost"); ++i; }
      if (n == 3) { i = 0; for (auto const& [x, y] : utl::zip(arr, a)) SEQ_CHECK(x == ++i && y == 9 + i, "zip of an array"); }
      SEQ_CHECK(throws([&] { utl::zip(arr, a); }) == (n != 3), "size check of an array");
    }
  }
  for (auto i = 0; i < n; ++i) {
    SEQ_CHECK(at(a, i) == wa[U(i)], "element %d of the first container is %ld, expected %ld", i, static_cast<long>(at(a, i)), wa[U(i)]);
    SEQ_CHECK(at(b, i) == wb[U(i)], "element %d of the second container is %ld, expected %ld", i, static_cast<long>(at(b, i)), wb[U(i)]);
  }
}

std::vector<int> const many_sizes{127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 70000};
template <typename A, typename B>
void zip_many() {
  auto const n = seq::of(many_sizes);
  auto a = filled<A>(n, 10);
  auto const b = filled<B>(n, 20);
  auto const at_end = pick(4);
  auto const i = at_end == 0 ? 0 : at_end == 1 ? n / 2 : at_end == 2 ? n - 2 : n - 1;
  auto z = utl::zip(a, b);
  auto const cz = utl::czip(a, b);
  seq::op();
  seq::nontrivial();
  if (seq::recording()) seq::note("%d elements, index %d", n, i);
  auto const I = static_cast<std::size_t>(i);
  SEQ_CHECK(z.size() == static_cast<std::size_t>(n) && cz.size() == z.size(), "size is %zu for %d elements", static_cast<std::size_t>(z.size()), n);
  SEQ_CHECK(&std::get<0>(z[I]) == &at(a, i) && &std::get<1>(z[I]) == &at(b, i), "element %d of %d is wrong", i, n);
  SEQ_CHECK(&std::get<0>(std::as_const(z)[I]) == &at(a, i) && &std::get<1>(cz[I]) == &at(b, i), "element %d of %d of the constant zip is wrong", i, n);
  SEQ_CHECK(std::distance(z.begin(), z.end()) == n && std::distance(cz.begin(), cz.end()) == n, "%td elements of %d", static_cast<std::ptrdiff_t>(std::distance(z.begin(), z.end())), n);
  auto const it = std::next(z.begin(), i);
  SEQ_CHECK(&std::get<0>(*it) == &at(a, i) && &std::get<0>(*std::prev(z.end(), n - i)) == &at(a, i), "the iterator at %d of %d is wrong", i, n);
  auto k = 0;
  for (auto const [x, y] : z) { SEQ_CHECK(x == static_cast<typename A::value_type>(10 + k) && y == static_cast<typename B::value_type>(20 + k), "element %d of %d is wrong", k, n); x = 1; ++k; }
  SEQ_CHECK(k == n && std::all_of(a.begin(), a.end(), [](auto const x) { return x == 1; }), "%d of %d elements are visited", k, n);
}
void zip_sizes_many() {
  auto const n = seq::of({0, 1, 255, 256, 65535, 65536, 65537, 70000}), m = seq::of({0, 1, 255, 256, 257, 65535, 65536, 65537, 65792, 70000});
  std::vector<int> const a(static_cast<std::size_t>(n));
  std::deque<int> const b(static_cast<std::size_t>(m));
  std::vector<char> const c(static_cast<std::size_t>(seq::flip() ? n : m));
  seq::op();
  if (n != m) seq::nontrivial();
  if (seq::recording()) seq::note("sizes %d, %d, %zu", n, m, c.size());
  SEQ_CHECK(throws([&] { utl::zip(a, b); }) == (n != m), "the size check of %d and %d elements", n, m);
  SEQ_CHECK(throws([&] { utl::zip(a, b, c); }) == (n != m), "the size check of %d, %d and %zu elements", n, m, c.size());
  SEQ_CHECK(throws([&] { utl::czip(c, b, a); }) == (n != m), "the size check of %zu, %d and %d elements", c.size(), m, n);
}
// zips of many containers, of which one may have another size
template <std::size_t... I>
void zip_wide_of(std::index_sequence<I...>) {
  auto const n = pick(4);
  auto const odd = sizeof...(I) == 1 ? 1 : pick(static_cast<int>(sizeof...(I)) + 1);  // the container of another size, or none
  auto const m = odd == static_cast<int>(sizeof...(I)) ? n : pick(5);
  std::array<std::vector<int>, sizeof...(I)> v;
  for (auto i = 0; i < static_cast<int>(v.size()); ++i) for (auto k = 0; k < (i == odd ? m : n); ++k) v[static_cast<std::size_t>(i)].push_back(100 * i + k);
  seq::op();
  if (seq::recording()) seq::note("%zu containers of %d elements, number %d of %d", v.size(), n, odd, m);
  SEQ_CHECK(throws([&] { utl::zip(v[I]...); }) == (n != m) && throws([&] { utl::czip(v[I]...); }) == (n != m), "the size check of %zu containers of %d elements, number %d of %d", v.size(), n, odd, m);
  if (n != m) { seq::nontrivial(); return; }
  auto z = utl::zip(v[I]...);
  auto const cz = utl::czip(v[I]...);
  auto k = 0;
  for (auto it = z.begin(); it != z.end(); ++it, ++k) {
    auto const same = [&](auto const& t) { SEQ_CHECK(((&std::get<I>(t) == &v[I][static_cast<std::size_t>(k)]) && ...), "row %d of %zu containers is not their elements", k, v.size()); };
    same(*it);
    same(z[static_cast<std::size_t>(k)]);
    same(cz[static_cast<std::size_t>(k)]);
    (++std::get<I>(*it), ...);
  }
  SEQ_CHECK(k == n && z.size() == static_cast<std::size_t>(n), "%d rows of %d", k, n);
  auto back = z.end();
  for (; k > 0; --k) { --back; SEQ_CHECK(((std::get<I>(*back) == 100 * static_cast<int>(I) + k) && ...), "row %d backwards", k - 1); }
  SEQ_CHECK(back == z.begin() && !(back != z.begin()), "walking back does not lead to the beginning");
}
void zip_wide() {
  [&]<std::size_t... N>(std::index_sequence<N...>) { auto const n = static_cast<std::size_t>(pick(12)); ((N == n ? zip_wide_of(std::make_index_sequence<N + 1>{}) : void()), ...); }(std::make_index_sequence<12>{});
}
// constness and references, decided from the types of real expressions
void zip_types() {
  std::vector<int> v{1};
  std::vector<int> const cv{2};
  auto const konst = [](auto&& z) { return std::is_const_v<std::remove_reference_t<decltype(std::get<0>(*z.begin()))>>; };
  auto const ref = [](auto&& z) { return std::is_lvalue_reference_v<std::tuple_element_t<0, std::decay_t<decltype(*z.begin())>>>; };
  auto z = utl::zip(v);
  auto const z2 = utl::zip(v);
  SEQ_CHECK(!konst(z) && !konst(utl::zip_unchecked(v)) && !konst(utl::zip_no_size_check(v)) && !konst(utl::zip(std::vector<int>{1})), "a zip makes its elements constant");
  SEQ_CHECK(konst(z2) && konst(utl::zip(cv)) && konst(utl::zip_unchecked(cv)) && konst(utl::zip_no_size_check(cv)), "a zip loses constness");
  SEQ_CHECK(konst(utl::czip(v)) && konst(utl::czip_unchecked(v)) && konst(utl::czip_no_size_check(v)) && konst(utl::czip(cv)) && konst(utl::czip(std::vector<int>{1})), "a constant zip is not constant");
  SEQ_CHECK(ref(z) && ref(z2) && ref(utl::czip(v)) && ref(utl::zip(std::vector<int>{1})), "a zip shows copies");
  seq::op();
  seq::nontrivial();
}

#endif
// ------------------------------------------------------------ I02
#if !defined(ONLY_PROP) || defined(WANT_I02)
template <typename C>
void enumerate_walk(int const max_len, int const depth) {
  using tag = typename std::iterator_traits<typename C::iterator>::iterator_category;
  constexpr auto bidi = std::is_base_of_v<std::bidirectional_iterator_tag, tag>;
  constexpr auto ra = std::is_base_of_v<std::random_access_iterator_tag, tag>;
  auto const n = pick(max_len + 1);
  auto c = filled<C>(n, 30);
  auto const walk = [&](auto&& e, auto& cont) {
    auto it = e.begin();
    auto const last = e.end();
    auto pos = 0;
    for (auto step = 0;; ++step) {
      auto const shows = [&](auto const& i, int const p) {
        SEQ_CHECK((i != last) == (p != n), "comparison with end at %d of %d", p, n);
        SEQ_CHECK(!(i != i) && (i != e.begin()) == (p != 0), "comparison at %d of %d", p, n);
        if (p < n) {
          auto const [k, x] = *i;
          SEQ_CHECK(k == static_cast<std::size_t>(p), "position %zu is reported, expected %d", static_cast<std::size_t>(k), p);
          SEQ_CHECK(&std::get<1>(*i) == &at(cont, p) && &x == &at(cont, p), "position %d shows another element", p);
        }
        if constexpr (ra) {
          SEQ_CHECK(last - i == n - p && i - last == p - n && i - e.begin() == p, "distance from %d to the end of %d elements is %td", p, n, last - i);
          SEQ_CHECK(std::distance(i, last) == n - p, "std::distance to the end is %td, expected %d", std::distance(i, last), n - p);
        }
      };
      shows(it, pos);
      if (step == depth) return;
      auto const op = pick(bidi ? (ra ? 7 : 5) : 3);
      if (op == 0) return;
      seq::op();
      switch (op) {
        case 1: if (pos == n) return; ++it; ++pos; break;
        case 2: { if (pos == n) return; auto const old = it++; shows(old, pos); ++pos; break; }
        case 3: if constexpr (bidi) { if (pos == 0) return; --it; --pos; seq::nontrivial(); } break;
        case 4: if constexpr (bidi) { if (pos == 0) return; auto const old = it--; shows(old, pos); --pos; seq::nontrivial(); } break;
        default:
          if constexpr (ra) {
            auto const to = pick(n + 1);
            if (op == 5) { auto& r = (it += to - pos); SEQ_CHECK(&r == &it, "+= does not return the iterator"); }
            else { auto& r = (it -= pos - to); SEQ_CHECK(&r == &it, "-= does not return the iterator"); }
            pos = to;
            seq::nontrivial();
          }
      }
      if (seq::recording()) seq::note("op %d -> %d", op, pos);
    }
  };
  auto const form = pick(3);
  if (seq::recording()) seq::note("%d elements, form %d", n, form);
  if (form == 0) { auto e = utl::enumerate(c); walk(e, c); }
  else if (form == 1) { auto e = utl::enumerate(std::as_const(c)); walk(e, std::as_const(c)); }
  else { auto e = utl::enumerate(std::move(c)); walk(e, std::as_const(e.iterable_)); }
}
template <typename C>
void enumerate_many() {
  auto const n = seq::of({127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 70000});
  auto c = filled<C>(n, 30);
  auto const form = pick(3);
  seq::op();
  seq::nontrivial();
  if (seq::recording()) seq::note("%d elements, form %d", n, form);
  auto k = 0;
  auto p = c.begin();
  auto const visit = [&](auto const i, auto const& x) {
    SEQ_CHECK(static_cast<long long>(i) == k, "element %d has the number %lld", k, static_cast<long long>(i));
    if (form != 2) SEQ_CHECK(&x == &*p++, "element %d is another", k);
    SEQ_CHECK(x == static_cast<typename C::value_type>(30 + k), "element %d is wrong", k);
    ++k;
  };
  if (form == 0) for (auto&& [i, x] : utl::enumerate(c)) visit(i, x);
  else if (form == 1) for (auto&& [i, x] : utl::enumerate(std::as_const(c))) visit(i, x);
  else for (auto&& [i, x] : utl::enumerate(C(c))) visit(i, x);
  SEQ_CHECK(k == n, "%d of %d elements are visited", k, n);
}
template <typename C>
void enumerate_use(int const max_len) {
  auto const n = pick(max_len + 1);
  auto const form = pick(6);
  auto c = filled<C>(n, 30);
  seq::op();
  if (n > 1) seq::nontrivial();
  if (seq::recording()) seq::note("%d elements, form %d", n, form);
  auto count = 0;
  switch (form) {
    case 0:
      for (auto const [i, x] : utl::enumerate(c)) { x += static_cast<typename C::value_type>(100 * (i + 1)); ++count; }
      for (auto k = 0; k < n; ++k) SEQ_CHECK(at(c, k) == 30 + k + 100 * (k + 1), "a write through the enumeration of element %d is lost", k);
      break;
    case 1:
      for (auto const [i, x] : utl::enumerate(filled<C>(n, 30))) { SEQ_CHECK(x == static_cast<typename C::value_type>(30 + i), "element %zu of a temporary is wrong", static_cast<std::size_t>(i)); ++count; }
      break;
    case 2: {
      std::vector<std::unique_ptr<int>> p;
      for (auto k = 0; k < n; ++k) p.push_back(std::make_unique<int>(k));
      auto e = utl::enumerate(std::move(p));
      p.clear();
      for (auto const [i, x] : e) { SEQ_CHECK(x && *x == static_cast<int>(i), "element %zu of a moved container is wrong", static_cast<std::size_t>(i)); ++count; }
      break;
    }
    case 3: {  // pointers are passed on
      std::vector<int> v = filled<std::vector<int>>(n, 0);
      std::vector<int*> p;
      for (auto& x : v) p.push_back(&x);
      for (auto const [i, x] : utl::enumerate(p)) { SEQ_CHECK(x == &v[i], "pointer %zu is wrong", static_cast<std::size_t>(i)); *x = 9; ++count; }
      SEQ_CHECK(std::all_of(v.begin(), v.end(), [](int x) { return x == 9; }), "a write through a pointer is lost");
      break;
    }
    case 4: {
      std::map<int, int> m;
      for (auto k = 0; k < n; ++k) m[10 * k] = 0;
      for (auto [i, kv] : utl::enumerate(m)) { SEQ_CHECK(kv.first == 10 * static_cast<int>(i), "entry %zu is wrong", static_cast<std::size_t>(i)); kv.second = static_cast<int>(i) + 1; ++count; }
      auto k = 0;
      for (auto const& [key, v] : m) SEQ_CHECK(v == ++k && key == 10 * (k - 1), "a write to entry %d is lost", key);
      break;
    }
    default: {
      int arr[3] = {5, 6, 7};
      auto k = 0;
      for (auto const [i, x] : utl::enumerate(arr)) { SEQ_CHECK(&x == &arr[i] && static_cast<int>(i) == k, "array element %d is wrong", k); ++k; }
      SEQ_CHECK(k == 3, "%d of 3 array elements", k);
      std::vector<bool> bits(static_cast<std::size_t>(n));
      for (auto [i, b] : utl::enumerate(bits)) { b = i % 2 == 0; ++count; }
      for (auto j = 0; j < n; ++j) SEQ_CHECK(bits[static_cast<std::size_t>(j)] == (j % 2 == 0), "bit %d is wrong", j);
    }
  }
  SEQ_CHECK(count == n, "%d of %d elements are visited", count, n);
}

#endif
// ------------------------------------------------------------ I03
#if !defined(ONLY_PROP) || defined(WANT_I03)
template <std::size_t N, typename R, typename C>
void windows(R const& r, C& c) {
  auto const m = length(c);
  auto const want = std::max(0, m - static_cast<int>(N) + 1);
  auto k = 0;
  for (auto it = r.begin(); it != r.end(); ++it) {
    SEQ_CHECK(k < want, "more than %d windows of %zu in %d elements", want, N, m);
    auto const check = [&]<std::size_t... I>(auto const& t, std::index_sequence<I...>) { return ((&std::get<I>(t) == &at(c, k + static_cast<int>(I))) && ...); };
    SEQ_CHECK(check(*it, std::make_index_sequence<N>{}), "window %d of %zu in %d elements is wrong", k, N, m);
    SEQ_CHECK(!(it == r.end()) && (it == r.begin()) == (k == 0), "comparison at window %d", k);
    ++k;
    seq::op();
  }
  SEQ_CHECK(k == want, "%d windows of %zu in %d elements, expected %d", k, N, m, want);
  SEQ_CHECK(r.size() == static_cast<std::size_t>(want), "size is %zu, expected %d", r.size(), want);
  SEQ_CHECK((r.begin() == r.end()) == (want == 0), "emptiness is wrong");
  // (several passes and copies of an iterator)
  if (want > 1) {
    auto a = r.begin();
    auto b = a;
    auto& x = ++b;
    SEQ_CHECK(&x == &b && a != b && std::distance(r.begin(), r.end()) == want, "copies of an iterator are not independent");
    ++a;
    SEQ_CHECK(a == b, "equal iterators differ");
  }
}
template <std::size_t N, typename C>
void nwise_all(int const max_len) {
  auto const m = max_len ? pick(max_len + 1) : seq::of({255, 256, 257, 32768, 65535, 65536, 65537, 70000});
  auto const form = pick(5);
  auto c = filled<C>(m, 40);
  if (m >= static_cast<int>(N)) seq::nontrivial();
  if (seq::recording()) seq::note("windows of %zu in %d elements, form %d", N, m, form);
  switch (form) {
    case 0: windows<N>(utl::nwise<N>(c), c); break;
    case 1: windows<N>(utl::nwise<N>(std::as_const(c)), std::as_const(c)); break;
    case 2: { auto const r = utl::nwise<N>(std::move(c)); windows<N>(r, std::as_const(r.t_)); break; }
    case 3: {
      auto r = utl::nwise<N>(filled<C>(m, 40));
      auto const copy = r;
      windows<N>(copy, std::as_const(copy.t_));
      auto const moved = std::move(r);
      windows<N>(moved, std::as_const(moved.t_));
      break;
    }
    default: {  // writes go through: every first element of a window gets the window's number
      auto k = 0;
      for (auto t : utl::nwise<N>(c)) std::get<0>(t) = static_cast<typename C::value_type>(k++);
      for (auto i = 0; i < m; ++i) SEQ_CHECK(at(c, i) == (i < k ? i : 40 + i), "element %d is wrong after writing through", i);
      // sum over windows of a temporary
      auto n = 0;
      for (auto const t : utl::nwise<N>(filled<C>(m, 0))) { SEQ_CHECK(std::get<0>(t) == n && std::get<N - 1>(t) == n + static_cast<int>(N) - 1, "window %d of a temporary is wrong", n); ++n; }
      SEQ_CHECK(n == k, "%d windows of a temporary, %d of the range", n, k);
    }
  }
}
template <typename C>
void pairs(int const max_len) {
  auto const m = max_len ? pick(max_len + 1) : seq::of({255, 256, 257, 32768, 65535, 65536, 65537, 70000});
  auto const form = pick(4);
  auto c = filled<C>(m, 40);
  if (m >= 2) seq::nontrivial();
  if (seq::recording()) seq::note("pairs of %d elements, form %d", m, form);
  switch (form) {
    case 0: windows<2>(utl::pairwise(c), c); break;
    case 1: windows<2>(utl::pairwise(std::as_const(c)), std::as_const(c)); break;
    case 2: { auto const r = utl::pairwise(std::move(c)); windows<2>(r, std::as_const(r.t_)); break; }
    default: {
      auto k = 0;
      auto const e = utl::pairwise_end(c);
      for (auto it = utl::pairwise_begin(c); it != e; ++it) {
        SEQ_CHECK(k + 1 < m, "too many pairs");
        auto const [x, y] = *it;
        SEQ_CHECK(&x == &at(c, k) && &y == &at(c, k + 1), "pair %d is wrong", k);
        ++k;
      }
      SEQ_CHECK(k == std::max(0, m - 1), "%d pairs of %d elements", k, m);
      auto const n = std::count_if(utl::pairwise_begin(std::as_const(c)), utl::pairwise_end(std::as_const(c)), [](auto const& t) { return std::get<0>(t) + 1 == std::get<1>(t); });
      SEQ_CHECK(n == std::max(0, m - 1), "count_if over pairs gives %td", n);
    }
  }
}

#endif
// ------------------------------------------------------------ I04
#if !defined(ONLY_PROP) || defined(WANT_I04)
// iterators of every category over a common array of elements; every way to
// satisfy the facade
struct item { int v; };
struct handle { int v; };  // a temporary with members
struct end_mark {};

struct ra_ref : utl::iterator_facade<ra_ref> {  // random access, references
  ra_ref(item* p = nullptr) : p{p} {}
  item& dereference() const { return *p; }
  void advance(std::ptrdiff_t const n) { p += n; }
  std::ptrdiff_t distance_to(ra_ref const& o) const { return o.p - p; }
  item* p;
};
struct ra_val : utl::iterator_facade<ra_val> {  // random access, temporaries, own equality, small difference type
  ra_val(item* p = nullptr) : p{p} {}
  handle dereference() const { return {p->v}; }
  void advance(int const n) { p += n; }
  int distance_to(ra_val const& o) const { return static_cast<int>(o.p - p); }
  bool equal_to(ra_val const& o) const { return p == o.p; }
  item* p;
};
struct ra_full : utl::iterator_facade<ra_full> {  // everything provided, and a sentinel
  using sentinel_type = end_mark;
  ra_full(item* p = nullptr, item* e = nullptr) : p{p}, e{e} {}
  item const& dereference() const { return *p; }
  void increment() { ++p; }
  void decrement() { --p; }
  void advance(std::ptrdiff_t const n) { p += n; }
  std::ptrdiff_t distance_to(ra_full const& o) const { return o.p - p; }
  bool equal_to(ra_full const& o) const { return p == o.p; }
  bool at_end() const { return p == e; }
  item *p, *e;
};
struct bidi : utl::iterator_facade<bidi> {  // increment and decrement
  bidi(item* p = nullptr) : p{p} {}
  item& dereference() const { return *p; }
  void increment() { ++p; }
  void decrement() { --p; }
  bool equal_to(bidi const& o) const { return p == o.p; }
  item* p;
};
struct bidi_adv : utl::iterator_facade<bidi_adv> {  // advance by one only
  bidi_adv(item* p = nullptr) : p{p} {}
  handle dereference() const { return {p->v}; }
  void advance(std::ptrdiff_t const n) { SEQ_CHECK(n == 1 || n == -1, "advance by %td", n); p += n; }
  bool equal_to(bidi_adv const& o) const { return p == o.p; }
  item* p;
};
struct fwd : utl::iterator_facade<fwd> {  // forward, with a sentinel
  using sentinel_type = end_mark;
  fwd(item* p = nullptr, item* e = nullptr) : p{p}, e{e} {}
  item& dereference() const { return *p; }
  void increment() { ++p; }
  bool equal_to(fwd const& o) const { return p == o.p; }
  bool at_end() const { return p == e; }
  item *p, *e;
};
struct single : utl::iterator_facade<single> {  // single pass
  using sentinel_type = end_mark;
  enum { single_pass_iterator = 1 };
  single(item* p = nullptr, item* e = nullptr) : p{p}, e{e} {}
  handle dereference() const { return {p->v}; }
  void increment() { ++p; }
  bool equal_to(single const& o) const { return p == o.p; }
  bool at_end() const { return p == e; }
  item *p, *e;
};
template <typename Inner>
struct wrap : utl::iterator_wrapper_facade<wrap<Inner>, Inner> {
  using utl::iterator_wrapper_facade<wrap<Inner>, Inner>::iterator_wrapper_facade;
  auto& dereference() const { return *this->wrapped_iterator; }
};
template <typename Inner>
struct wrap_value : utl::iterator_wrapper_facade<wrap_value<Inner>, Inner> {
  using utl::iterator_wrapper_facade<wrap_value<Inner>, Inner>::iterator_wrapper_facade;
  handle dereference() const { return {this->wrapped_iterator->v}; }
};

// positions far apart
struct far : utl::iterator_facade<far> {
  far(long long p = 0) : p{p} {}
  long long dereference() const { return 3 * p; }
  void advance(long long const n) { p += n; }
  long long distance_to(far const& o) const { return o.p - p; }
  long long p;
};
struct far_eq : utl::iterator_facade<far_eq> {
  far_eq(long long p = 0) : p{p} {}
  long long dereference() const { return 3 * p; }
  void increment() { ++p; }
  void decrement() { --p; }
  void advance(long long const n) { p += n; }
  long long distance_to(far_eq const& o) const { return o.p - p; }
  bool equal_to(far_eq const& o) const { return p == o.p; }
  long long p;
};
struct far_wrap : utl::iterator_wrapper_facade<far_wrap, far> {
  far_wrap(long long p = 0) : utl::iterator_wrapper_facade<far_wrap, far>{far{p}} {}
  long long dereference() const { return *this->wrapped_iterator; }
};
template <typename It>
void far_apart() {
  std::vector<long long> const places{-(5LL << 40), -(1LL << 33), -(1LL << 32), -(1LL << 31) - 1, -(1LL << 31), -1, 0, 1, 255, 256, 32768, 65536, (1LL << 31) - 1, 1LL << 31, (1LL << 32) - 1, 1LL << 32, (1LL << 32) + 7, 3LL << 31, 1LL << 40};
  auto const p = seq::of(places), q = seq::of(places), d = q - p;
  seq::op();
  if (d > 65536 || d < -65536) seq::nontrivial();
  if (seq::recording()) seq::note("%lld and %lld", p, q);
  It const a{p}, b{q};
  SEQ_CHECK((a < b) == (p < q) && (a <= b) == (p <= q) && (a > b) == (p > q) && (a >= b) == (p >= q), "order of %lld and %lld", p, q);
  SEQ_CHECK((a == b) == (p == q) && (a != b) == (p != q), "equality of %lld and %lld", p, q);
  SEQ_CHECK(b - a == d && a - b == -d, "difference of %lld and %lld", p, q);
  SEQ_CHECK(a + d == b && d + a == b && b - d == a && *(a + d) == 3 * q && *(d + a) == 3 * q && *(b - d) == 3 * p && a[d] == 3 * q && b[-d] == 3 * p, "arithmetic from %lld to %lld", p, q);
  auto u = a;
  u += d;
  SEQ_CHECK(*u == 3 * q, "+= from %lld to %lld", p, q);
  u -= d;
  SEQ_CHECK(*u == 3 * p, "-= from %lld to %lld", q, p);
  SEQ_CHECK(*std::next(a, d) == 3 * q && *std::prev(b, d) == 3 * p && std::distance(a, b) == d, "std::next and std::distance from %lld to %lld", p, q);
  if (d >= 0) SEQ_CHECK(*std::lower_bound(a, b, 3 * (p + d / 2), [](long long const x, long long const y) { return x < y; }) == 3 * (p + d / 2), "searching between %lld and %lld", p, q);
}

// every walk of a facade iterator; mk(i) is an iterator at position i
template <typename It, typename Tag, typename Mk>
void facade_walk(std::vector<item*> const& items, int const depth, Mk const mk) {
  using traits = std::iterator_traits<It>;
  constexpr auto is_bidi = std::is_base_of_v<std::bidirectional_iterator_tag, Tag>;
  constexpr auto is_ra = std::is_base_of_v<std::random_access_iterator_tag, Tag>;
  constexpr auto is_fwd = std::is_base_of_v<std::forward_iterator_tag, Tag>;
  constexpr auto is_ref = std::is_reference_v<decltype(*std::declval<It const&>())>;
  SEQ_CHECK((std::is_same_v<typename traits::iterator_category, Tag>), "the category of the iterator is not the one its operations support");
  SEQ_CHECK((std::is_same_v<typename traits::reference, decltype(*std::declval<It const&>())>), "the reference type is not the type of *it");
  SEQ_CHECK((std::is_same_v<typename traits::value_type, std::conditional_t<is_ref, item, handle>>), "the value type is wrong");
  SEQ_CHECK((std::is_signed_v<typename traits::difference_type>), "the difference type is not signed");
  auto const n = static_cast<int>(items.size());
  auto const shows = [&](It const& it, int const p, char const* what) {
    if (p < 0 || p >= n) return;
    if constexpr (is_ref) {
      SEQ_CHECK(&*it == items[static_cast<std::size_t>(p)], "%s: *it is another element, expected number %d", what, p);
      SEQ_CHECK(it.operator->() == items[static_cast<std::size_t>(p)], "%s: it-> is another element, expected number %d", what, p);
    } else {
      SEQ_CHECK((*it).v == items[static_cast<std::size_t>(p)]->v, "%s: *it is another element, expected number %d", what, p);
    }
    SEQ_CHECK(it->v == items[static_cast<std::size_t>(p)]->v, "%s: it->v is wrong at %d", what, p);
  };
  auto const everything = [&](It const& it, int const p) {
    shows(it, p, "position");
    for (auto q = 0; q <= n; ++q) {
      auto const o = mk(q);
      SEQ_CHECK((it == o) == (p == q) && (it != o) == (p != q) && (o == it) == (p == q) && (o != it) == (p != q), "equality of positions %d and %d", p, q);
      if constexpr (is_ra) {
        SEQ_CHECK((it < o) == (p < q) && (it <= o) == (p <= q) && (it > o) == (p > q) && (it >= o) == (p >= q), "order of positions %d and %d", p, q);
        SEQ_CHECK(o - it == q - p && it - o == p - q, "difference of positions %d and %d is %td", p, q, static_cast<std::ptrdiff_t>(it - o));
        shows(it + (q - p), q, "it + k");
        shows((q - p) + it, q, "k + it");
        shows(it - (p - q), q, "it - k");
        if (q >= p) SEQ_CHECK(it + static_cast<std::size_t>(q - p) == o && o - static_cast<std::size_t>(q - p) == it && static_cast<std::size_t>(q - p) + it == o, "unsigned arithmetic from %d to %d", p, q);
        if (q >= p) { auto u = it; u += static_cast<unsigned>(q - p); SEQ_CHECK(u == o, "unsigned += from %d to %d", p, q); u -= static_cast<unsigned>(q - p); SEQ_CHECK(u == it, "unsigned -= from %d to %d", q, p); }
        SEQ_CHECK(it + (q - p) == o && (q - p) + it == o && it - (p - q) == o, "arithmetic from %d to %d", p, q);
        if (q < n) {
          if constexpr (is_ref) SEQ_CHECK(&it[q - p] == items[static_cast<std::size_t>(q)], "it[%d] at %d is another element", q - p, p);
          else SEQ_CHECK(it[q - p].v == items[static_cast<std::size_t>(q)]->v, "it[%d] at %d is another element", q - p, p);
        }
      }
    }
    if constexpr (requires { typename It::sentinel_type; }) {
      auto const e = typename It::sentinel_type{};
      SEQ_CHECK((it == e) == (p == n) && (e == it) == (p == n) && (it != e) == (p != n) && (e != it) == (p != n), "comparison with the sentinel at %d of %d", p, n);
    }
  };
  auto pos = pick(n + 1);
  auto it = mk(pos);
  for (auto step = 0;; ++step) {
    everything(it, pos);
    if (step == depth) break;
    auto const op = pick(is_ra ? 9 : is_bidi ? 5 : 3);
    if (op == 0) break;
    seq::op();
    switch (op) {
      case 1: { if (pos == n) return; auto& r = ++it; SEQ_CHECK(&r == &it, "++ does not return the iterator"); ++pos; break; }
      case 2:
        if (pos == n) return;
        if constexpr (is_fwd) { auto const old = it++; everything(old, pos); }
        else { SEQ_CHECK(std::is_void_v<decltype(it++)>, "the postfix increment of a single-pass iterator returns a copy"); it++; }
        ++pos;
        break;
      case 3: if constexpr (is_bidi) { if (pos == 0) return; auto& r = --it; SEQ_CHECK(&r == &it, "-- does not return the iterator"); --pos; seq::nontrivial(); } break;
      case 4: if constexpr (is_bidi) { if (pos == 0) return; auto const old = it--; everything(old, pos); --pos; seq::nontrivial(); } break;
      default:
        if constexpr (is_ra) {
          auto const to = pick(n + 1);
          auto const k = to - pos;
          if (op == 5) { auto& r = (it += k); SEQ_CHECK(&r == &it, "+= does not return the iterator"); }
          else if (op == 6) { auto& r = (it -= -k); SEQ_CHECK(&r == &it, "-= does not return the iterator"); }
          else if (op == 7) it = it + k;
          else it = it - -k;
          pos = to;
          seq::nontrivial();
        }
    }
    if (seq::recording()) seq::note("op %d -> %d", op, pos);
  }
  // the standard library agrees
  if constexpr (is_fwd) {
    SEQ_CHECK(std::distance(mk(0), mk(n)) == n, "std::distance is %td, expected %d", static_cast<std::ptrdiff_t>(std::distance(mk(0), mk(n))), n);
    auto k = 0;
    std::for_each(mk(0), mk(n), [&](auto&& x) { SEQ_CHECK(x.v == items[static_cast<std::size_t>(k)]->v, "std::for_each"); ++k; });
    SEQ_CHECK(k == n, "std::for_each visits %d of %d", k, n);
    auto const f = std::find_if(mk(0), mk(n), [&](auto&& x) { return pos < n && x.v == items[static_cast<std::size_t>(pos)]->v; });
    SEQ_CHECK(f == mk(pos), "std::find_if ends elsewhere");
  }
  if constexpr (is_bidi) {
    auto k = n;
    auto r = std::make_reverse_iterator(mk(n));
    for (; k > 0; ++r) SEQ_CHECK((*r).v == items[static_cast<std::size_t>(--k)]->v, "reverse iteration at %d", k);
    SEQ_CHECK(r.base() == mk(0), "reverse iteration ends elsewhere");
  }
  if constexpr (is_ra) {
    auto const l = std::lower_bound(mk(0), mk(n), pos, [&](auto const& x, int const p) { return x.v < 60 + p; });
    SEQ_CHECK(l == mk(pos), "std::lower_bound ends elsewhere");
  }
}
template <typename F>
void with_items(int const max_len, F&& f) {
  auto const n = pick(max_len + 1);
  std::unique_ptr<item[]> store{new item[static_cast<std::size_t>(n)]};
  std::vector<item*> p;
  for (auto i = 0; i < n; ++i) { store[static_cast<std::size_t>(i)].v = 60 + i; p.push_back(&store[static_cast<std::size_t>(i)]); }
  if (seq::recording()) seq::note("%d elements", n);
  f(store.get(), p);
}
template <typename It, typename Tag>
void facade(int const max_len, int const depth) {
  with_items(max_len, [&](item* s, std::vector<item*> const& p) {
    facade_walk<It, Tag>(p, depth, [&](int const i) {
      if constexpr (std::is_constructible_v<It, item*, item*>) return It{s + i, s + p.size()};
      else return It{s + i};
    });
  });
}
template <typename C, template <typename> typename W>
void wrapper(int const max_len, int const depth) {
  with_items(max_len, [&](item*, std::vector<item*> const& p) {
    std::vector<item> v;
    for (auto const x : p) v.push_back(*x);
    C c(v.begin(), v.end());
    std::vector<item*> q;
    for (auto& x : c) q.push_back(&x);
    using I = typename C::iterator;
    facade_walk<W<I>, typename std::iterator_traits<I>::iterator_category>(q, depth, [&](int const i) { return W<I>{std::next(c.begin(), i)}; });
  });
}
void facade_sort(int const max_len) {  // algorithms that write through random access iterators
  auto const n = pick(max_len + 1);
  std::vector<item> v;
  for (auto i = 0; i < n; ++i) v.push_back({pick(3)});
  std::vector<int> want;
  for (auto const& x : v) want.push_back(x.v);
  std::vector<int> back(want.rbegin(), want.rend());
  auto const vals = [&] { std::vector<int> r; for (auto const& x : v) r.push_back(x.v); return r; };
  std::reverse(bidi{v.data()}, bidi{v.data() + n});
  SEQ_CHECK(vals() == back, "std::reverse through the facade is wrong");
  std::sort(ra_ref{v.data()}, ra_ref{v.data() + n}, [](item const& a, item const& b) { return a.v < b.v; });
  std::sort(want.begin(), want.end());
  SEQ_CHECK(vals() == want, "std::sort through the facade is wrong");
  using W = wrap<std::vector<item>::iterator>;
  std::sort(W{v.begin()}, W{v.end()}, [](item const& a, item const& b) { return a.v > b.v; });
  std::reverse(want.begin(), want.end());
  SEQ_CHECK(vals() == want, "std::sort through the wrapper is wrong");
  seq::op();
  if (n > 1) seq::nontrivial();
}
#endif
}  // namespace

std::vector<seq::config> seq::configs(std::string const& prop) {
  std::vector<config> c;
  auto const add = [&](std::string name, std::function<void()> f, int tier = 0, int shards = 1, int depth = 2) { c.push_back({std::move(name), std::move(f), tier, shards, depth}); };
  auto const n = [](int i) { return std::to_string(i); };
#if !defined(ONLY_PROP) || defined(WANT_I01)
  if (prop == "I01") {
    for (auto const t : {0, 1}) {
      auto const l = t ? 6 : 5, d = t ? 12 : 9;
      auto const s = ": up to " + n(l) + " elements, every walk of " + n(d) + " steps";
      add("walks, vectors" + s, [=] { zip_walk<std::vector<int>, std::vector<long>>(l, d); }, t, t ? 24 : 8, 6);
      add("walks, list and deque" + s, [=] { zip_walk<std::list<int>, std::deque<long>>(l, d); }, t, t ? 24 : 8, 6);
    }
    add("moved-in containers: up to 4 elements, with a vector", [] { zip_owned<std::vector<int>>(4); });
    add("moved-in containers: up to 4 elements, with a list", [] { zip_owned<std::list<long>>(4); });
    add("size check: 2 to 4 containers of up to 4 elements", [] { zip_sizes(4); });
    add("use, vectors of up to 6 elements", [] { zip_use<std::vector<int>, std::vector<long>>(6); });
    add("use, deque and list of up to 6 elements", [] { zip_use<std::deque<long>, std::list<int>>(6); });
    add("vectors of up to 70000 elements", [] { zip_many<std::vector<int>, std::vector<long>>(); });
    add("deque and list of up to 70000 elements", [] { zip_many<std::deque<long>, std::list<int>>(); });
    add("up to 12 containers", [] { zip_wide(); });
    add("size check: up to 70000 elements", [] { zip_sizes_many(); });
    add("constness and references", [] { zip_types(); });
    add("size check: 2 to 4 containers of up to 7 elements", [] { zip_sizes(7); }, 1, 4);
    add("use, vectors of up to 40 elements", [] { zip_use<std::vector<int>, std::vector<long>>(40); });
  }
#endif
#if !defined(ONLY_PROP) || defined(WANT_I02)
  if (prop == "I02") {
    for (auto const t : {0, 1}) {
      auto const l = t ? 5 : 4;
      add("walks, vector: up to " + n(l) + " elements, " + n(t ? 6 : 5) + " steps", [=] { enumerate_walk<std::vector<int>>(l, t ? 6 : 5); }, t, t ? 24 : 8, 3);
      add("walks, deque: up to " + n(l) + " elements, " + n(t ? 6 : 4) + " steps", [=] { enumerate_walk<std::deque<long>>(l, t ? 6 : 4); }, t, t ? 24 : 8, 3);
      add("walks, list: up to " + n(l) + " elements, " + n(t ? 9 : 7) + " steps", [=] { enumerate_walk<std::list<int>>(l, t ? 9 : 7); }, t, 8, 3);
      add("walks, forward list: up to " + n(2 * l) + " elements, " + n(2 * l) + " steps", [=] { enumerate_walk<std::forward_list<int>>(2 * l, 2 * l); }, t);
    }
    add("use, vector of up to 12 elements", [] { enumerate_use<std::vector<int>>(12); });
    add("use, list of up to 12 elements", [] { enumerate_use<std::list<long>>(12); });
    add("vector of up to 70000 elements", [] { enumerate_many<std::vector<int>>(); });
    add("list of up to 70000 elements", [] { enumerate_many<std::list<long>>(); });
    add("use, vector of up to 300 elements", [] { enumerate_use<std::vector<long>>(300); });
  }
#endif
#if !defined(ONLY_PROP) || defined(WANT_I03)
  if (prop == "I03") {
    auto const m = 16;
    auto const all = [&]<typename C>(C*, std::string const& what) {
      add("windows of 1, " + what, [=] { nwise_all<1, C>(m); });
      add("windows of 2, " + what, [=] { nwise_all<2, C>(m); });
      add("windows of 3, " + what, [=] { nwise_all<3, C>(m); });
      add("windows of 4, " + what, [=] { nwise_all<4, C>(m); });
      add("windows of 7, " + what, [=] { nwise_all<7, C>(m); });
      add("pairs, " + what, [=] { pairs<C>(m); });
    };
    all(static_cast<std::vector<int>*>(nullptr), "vector of up to 16 elements");
    all(static_cast<std::list<long>*>(nullptr), "list of up to 16 elements");
    all(static_cast<std::deque<int>*>(nullptr), "deque of up to 16 elements");
    all(static_cast<std::forward_list<int>*>(nullptr), "forward list of up to 16 elements");
    add("windows of 3, vector of up to 70000 elements", [] { nwise_all<3, std::vector<int>>(0); });
    add("windows of 17, vector of up to 70000 elements", [] { nwise_all<17, std::vector<int>>(0); }, 1);
    add("pairs, deque of up to 70000 elements", [] { pairs<std::deque<int>>(0); });
    add("windows of 5, vector of up to 200 elements", [] { nwise_all<5, std::vector<int>>(200); }, 1, 4, 1);
    add("windows of 5, list of up to 100 elements", [] { nwise_all<5, std::list<int>>(100); }, 1, 4, 1);
  }
#endif
#if !defined(ONLY_PROP) || defined(WANT_I04)
  if (prop == "I04") {
    add("positions far apart, advance and distance", [] { far_apart<far>(); });
    add("positions far apart, everything provided", [] { far_apart<far_eq>(); });
    add("positions far apart, wrapper", [] { far_apart<far_wrap>(); });
    for (auto const t : {0, 1}) {
      auto const l = t ? 5 : 4, d = t ? 4 : 3;
      auto const sh = t ? 16 : 4;
      auto const ra = ": up to " + n(l) + " elements, every walk of " + n(d) + " steps";
      auto const bi = ": up to " + n(l + 1) + " elements, every walk of " + n(d + 3) + " steps";
      add("random access, advance and distance, references" + ra, [=] { facade<ra_ref, std::random_access_iterator_tag>(l, d); }, t, sh, 3);
      add("random access, temporaries, int distance" + ra, [=] { facade<ra_val, std::random_access_iterator_tag>(l, d); }, t, sh, 3);
      add("random access, everything provided, sentinel" + ra, [=] { facade<ra_full, std::random_access_iterator_tag>(l, d); }, t, sh, 3);
      add("bidirectional, increment and decrement" + bi, [=] { facade<bidi, std::bidirectional_iterator_tag>(l + 1, d + 3); }, t, sh, 3);
      add("bidirectional, advance by one" + bi, [=] { facade<bidi_adv, std::bidirectional_iterator_tag>(l + 1, d + 3); }, t, sh, 3);
      add("forward, sentinel" + bi, [=] { facade<fwd, std::forward_iterator_tag>(l + 1, d + 3); }, t);
      add("single pass, sentinel" + bi, [=] { facade<single, std::input_iterator_tag>(l + 1, d + 3); }, t);
      add("wrapper of a vector iterator" + ra, [=] { wrapper<std::vector<item>, wrap>(l, d); }, t, sh, 3);
      add("wrapper of a deque iterator, temporaries" + ra, [=] { wrapper<std::deque<item>, wrap_value>(l, d); }, t, sh, 3);
      add("wrapper of a list iterator" + bi, [=] { wrapper<std::list<item>, wrap>(l + 1, d + 3); }, t, sh, 3);
      add("wrapper of a forward list iterator" + bi, [=] { wrapper<std::forward_list<item>, wrap>(l + 1, d + 3); }, t);
      add("sorting and reversing: up to " + n(2 * l + 1) + " elements of 3 values", [=] { facade_sort(2 * l + 1); }, t);
    }
  }
#endif
  return c;
}
