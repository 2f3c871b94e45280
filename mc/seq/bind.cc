// Field binding (D04): every pair of source and view struct from a family of
// generated types, every combination of null and non-null owners.
#include "seq.h"
#include <memory>
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>
#include "utl/init_from.h"

using seq::flip;
using seq::pick;

namespace {
struct thing { int v = 0; };        // a type of its own
struct solid { explicit solid(int x) : v{x} {} int v; };  // not an aggregate
struct fwd;                         // never completed

template <typename T> struct value_of { static T make(int const v) { return T{v}; } static int get(T const& t) { return t.v; } static void set(T& t, int const v) { t.v = v; } };
template <> struct value_of<int> { static int make(int const v) { return v; } static int get(int const& t) { return t; } static void set(int& t, int const v) { t = v; } };
template <> struct value_of<float> { static float make(int const v) { return static_cast<float>(v); } static int get(float const& t) { return static_cast<int>(t); } static void set(float& t, int const v) { t = static_cast<float>(v); } };

// ---- what a source member is
enum form { VALUE, RAW, UNIQUE, SHARED };
template <typename M> struct member;  // M: the member's type
template <typename T> struct member { using base = T; static constexpr form f = VALUE; };
template <typename T> struct member<T*> { using base = T; static constexpr form f = RAW; };
template <typename T> struct member<std::unique_ptr<T>> { using base = T; static constexpr form f = UNIQUE; };
template <typename T> struct member<std::shared_ptr<T>> { using base = T; static constexpr form f = SHARED; };

// address of the bound object: the member, or what it points to (null: nothing)
template <typename M>
void const* object_of(M const& m) {
  if constexpr (member<M>::f == VALUE) return &m;
  else if constexpr (member<M>::f == RAW) return m;
  else return m.get();
}
template <typename M>
struct slot {  // fills a member, keeps what a raw pointer points to alive
  std::unique_ptr<typename member<M>::base> keep;
  M make(bool const null, int const v) {
    using T = typename member<M>::base;
    if constexpr (member<M>::f == VALUE) return value_of<T>::make(v);
    else if constexpr (member<M>::f == RAW) { if (null) return nullptr; keep = std::make_unique<T>(value_of<T>::make(v)); return keep.get(); }
    else if constexpr (member<M>::f == UNIQUE) return null ? nullptr : std::make_unique<T>(value_of<T>::make(v));
    else return null ? nullptr : std::make_shared<T>(value_of<T>::make(v));
  }
};
template <typename M> bool choose_null() { if constexpr (member<M>::f == VALUE) return false; else return flip(); }

// ---- the specification: index of the first member of the source that V binds to, -1 if none
// V: the view member's type without reference and const
template <typename V, typename M>
constexpr bool binds() {
  if constexpr (std::is_same_v<V, M>) return true;                                             // that very type
  else if constexpr (member<M>::f != VALUE && std::is_same_v<typename member<M>::base, V>) return true;  // owns or points to it
  else if constexpr (std::is_pointer_v<V> && member<M>::f != VALUE) return std::is_same_v<std::remove_pointer_t<V>, typename member<M>::base>;
  else return false;
}
template <typename V, typename... M>
constexpr int first() {
  auto at = -1, i = 0;
  ((at = at < 0 && binds<V, M>() ? i : at, ++i), ...);
  return at;
}
template <typename X> using plain = std::remove_const_t<std::remove_reference_t<X>>;

template <typename A, typename B, typename C> struct src3 { A a; B b; C c; };
template <typename X> struct view1 { X x; };
template <typename X, typename Y> struct view2 { X x; Y y; };
template <typename X, typename Y, typename Z, typename W> struct view4 { X x; Y y; Z z; W w; };

// checks one bound view member X against member i of the source
template <typename X, typename M>
void check_member(X const& x, M& m, int const which) {
  using V = plain<X>;
  if constexpr (std::is_same_v<V, M> && !std::is_reference_v<X>) {
    SEQ_CHECK(x == m, "view member %d is not a copy of the pointer it is bound to", which);
    if (x) { value_of<std::remove_const_t<std::remove_pointer_t<V>>>::set(*x, 71 + which); SEQ_CHECK(value_of<typename member<M>::base>::get(*m) == 71 + which, "writing through view member %d does not write the source", which); }
  } else if constexpr (std::is_same_v<V, M>) {
    SEQ_CHECK(static_cast<void const*>(&x) == static_cast<void const*>(&m), "view member %d is not bound to the source's first member of its type", which);
  } else if constexpr (std::is_pointer_v<V>) {
    SEQ_CHECK(static_cast<void const*>(x) == object_of(m), "pointer member %d of the view points elsewhere", which);
  } else {
    SEQ_CHECK(static_cast<void const*>(&x) == object_of(m), "reference member %d of the view refers to another object", which);
    if constexpr (!std::is_const_v<std::remove_reference_t<X>>) {
      value_of<V>::set(const_cast<V&>(x), 91 + which);
      if constexpr (member<M>::f == VALUE) SEQ_CHECK(value_of<V>::get(m) == 91 + which, "writing view member %d does not write the source", which);
      else SEQ_CHECK(value_of<V>::get(*m) == 91 + which, "writing view member %d does not write the source", which);
    }
  }
}
// null behind a reference?
template <typename X, typename M>
bool blocked(M const& m) {
  if constexpr (std::is_same_v<plain<X>, M> || std::is_pointer_v<plain<X>>) return false;
  else return object_of(m) == nullptr;
}

template <typename View, typename... X, typename... M, std::size_t... I>
void check_binding(std::tuple<M&...> s, std::optional<View>& v, std::tuple<X&...> x, std::index_sequence<I...>, std::type_identity<std::tuple<X...>>);

template <typename A, typename B, typename C, typename... X>
constexpr bool bindable() { return ((first<plain<X>, A, B, C>() >= 0) && ...); }

template <typename View, typename A, typename B, typename C, typename... X, typename Get>
void bind_one(Get&& members) {
  seq::op();
  slot<A> sa; slot<B> sb; slot<C> sc;
  auto const na = choose_null<A>(), nb = choose_null<B>(), nc = choose_null<C>();
  src3<A, B, C> s{sa.make(na, 11), sb.make(nb, 22), sc.make(nc, 33)};
  auto t = std::tie(s.a, s.b, s.c);
  auto const block = (blocked<X>(std::get<static_cast<std::size_t>(first<plain<X>, A, B, C>())>(t)) || ...);
  if (na || nb || nc) seq::nontrivial();
  if (seq::recording()) seq::note("source nulls %d%d%d, expect %s", na, nb, nc, block ? "nothing" : "a view");
  auto v = utl::init_from<View>(s);
  static_assert(std::is_same_v<decltype(v), std::optional<View>>);
  SEQ_CHECK(v.has_value() == !block, "a view was %s although %s owner behind a reference is null", v.has_value() ? "built" : "refused", block ? "an" : "no");
  if (!v) return;
  members(*v, t);
}
template <typename A, typename B, typename C, typename X>
void case1() {
  if constexpr (bindable<A, B, C, X>())
    bind_one<view1<X>, A, B, C, X>([](auto& v, auto& t) { check_member<X>(v.x, std::get<static_cast<std::size_t>(first<plain<X>, A, B, C>())>(t), 0); });
}
template <typename A, typename B, typename C, typename X, typename Y>
void case2() {
  if constexpr (bindable<A, B, C, X, Y>())
    bind_one<view2<X, Y>, A, B, C, X, Y>([](auto& v, auto& t) {
      check_member<X>(v.x, std::get<static_cast<std::size_t>(first<plain<X>, A, B, C>())>(t), 0);
      check_member<Y>(v.y, std::get<static_cast<std::size_t>(first<plain<Y>, A, B, C>())>(t), 1);
    });
}

// one choice of member types per position
template <typename... T> struct types {};
template <typename T> using tag = std::type_identity<T>;
template <typename... T, typename F>
void pick_type(types<T...>, F&& f) {
  auto const k = pick(static_cast<int>(sizeof...(T)));
  auto i = 0;
  ((i++ == k ? (f(tag<T>{}), 0) : 0), ...);
}

#if PART == 0
using members_ = types<int, int*, std::unique_ptr<int>, std::shared_ptr<int>, float, std::unique_ptr<thing>>;
template <typename T> constexpr bool no_int_pointer = member<T>::f == VALUE || !std::is_same_v<typename member<T>::base, int>;
void single() {
  pick_type(members_{}, [](auto a) { pick_type(members_{}, [&](auto b) {
    using A = typename decltype(a)::type; using B = typename decltype(b)::type;
    switch (pick(8)) {
      case 0: return case1<A, B, float*, int&>();
      case 1: return case1<A, B, int, int*>();
      case 2: return case1<A, B, std::unique_ptr<float>, float&>();
      case 3: return case1<A, B, int*, int const&>();
      case 4: return case1<A, B, thing, thing&>();
      case 5: return case1<A, B, thing*, thing*>();
      case 6: if constexpr (no_int_pointer<A> && no_int_pointer<B>) return case1<A, B, std::shared_ptr<int>, std::shared_ptr<int>&>(); else return;
      default: if constexpr (no_int_pointer<A> && no_int_pointer<B>) return case1<A, B, std::shared_ptr<int>, std::shared_ptr<int> const&>(); else return;
    }
  }); });
}
void pairs() {
  pick_type(types<int, int*, std::unique_ptr<int>, float, std::unique_ptr<thing>>{}, [](auto a) { pick_type(types<int, float*, std::unique_ptr<thing>, std::shared_ptr<int>>{}, [&](auto b) {
    using A = typename decltype(a)::type; using B = typename decltype(b)::type;
    switch (pick(5)) {
      case 0: return case2<A, B, std::unique_ptr<float>, int&, float&>();
      case 1: return case2<A, B, std::unique_ptr<int>, int&, int*>();
      case 2: return case2<A, B, std::unique_ptr<int>, int*, int&>();
      case 3: return case2<A, B, std::unique_ptr<thing>, thing*, int const&>();
      default: return case2<A, B, float*, float*, thing&>();
    }
  }); });
}
// four members, the README's use
struct engine { int v = 0; };
struct owner { double z; std::unique_ptr<float> x; int y; std::unique_ptr<thing> t; std::shared_ptr<solid> s; };
struct parts { int& i; float& f; thing* t; solid& s; int& again; };
void larger() {
  seq::op();
  auto const f = flip(), t = flip(), s = flip();
  owner o{0.0, f ? std::make_unique<float>(2.F) : nullptr, 7, t ? std::make_unique<thing>() : nullptr, s ? std::make_shared<solid>(3) : nullptr};
  auto v = utl::init_from<parts>(o);
  seq::nontrivial();
  SEQ_CHECK(v.has_value() == (f && s), "view %d although float %d solid %d", v.has_value(), f, s);
  if (!v) return;
  SEQ_CHECK(&v->i == &o.y && &v->again == &o.y && &v->f == o.x.get() && v->t == o.t.get() && &v->s == o.s.get(), "a member is bound to something else");
  v->i = 9; v->f = 1.F; v->s.v = 8;
  SEQ_CHECK(o.y == 9 && *o.x == 1.F && o.s->v == 8 && v->again == 9, "writing through the view does not write the source");
  o.y = 4;
  SEQ_CHECK(v->i == 4, "the view does not see the source change");
  auto copy = *v;
  SEQ_CHECK(&copy.i == &o.y && copy.t == o.t.get(), "a copied view is bound to something else");
}
// a source that lists its members itself, a const source, an rvalue source
struct listed {
  auto cista_members() { return std::tie(second, first); }  // only these, in this order
  int hidden = 1, first = 2, second = 3;
  std::unique_ptr<int> p;
};
struct frozen { int* raw; std::unique_ptr<thing> t; };
struct frozen_view { int& i; thing& t; };
struct opaque { double d; fwd* f; };
struct opaque_view { fwd& f; double& d; };
struct frozen_ptrs { thing* t; int* i; };
void special_sources() {
  seq::op();
  switch (pick(4)) {
    case 3: {
      long storage = 0;
      auto const a = flip();
      opaque o{1.0, a ? reinterpret_cast<fwd*>(&storage) : nullptr};
      auto v = utl::init_from<opaque_view>(o);
      SEQ_CHECK(v.has_value() == a && (!v || (static_cast<void*>(&v->f) == &storage && &v->d == &o.d)), "pointer to an incomplete type");
      break;
    }
    case 0: {
      listed l;
      auto v = utl::init_from<view1<int&>>(l);
      SEQ_CHECK(v && &v->x == &l.second, "a source listing its members is not bound in its order");
      break;
    }
    case 1: {
      auto const a = flip(), b = flip();
      int i = 5;
      frozen const f{a ? &i : nullptr, b ? std::make_unique<thing>() : nullptr};
      auto v = utl::init_from<frozen_view>(f);
      SEQ_CHECK(v.has_value() == (a && b), "const source: view %d", v.has_value());
      if (v) SEQ_CHECK(&v->i == &i && &v->t == f.t.get(), "const source: bound to something else");
      auto p = utl::init_from<frozen_ptrs>(f);
      SEQ_CHECK(p && p->t == f.t.get() && p->i == f.raw, "const source: pointers");
      break;
    }
    default: {
      int i = 5;
      auto const a = flip();
      auto v = utl::init_from<view1<int&>>(src3<float, int*, std::unique_ptr<thing>>{1.F, a ? &i : nullptr, nullptr});
      SEQ_CHECK(v.has_value() == a && (!v || &v->x == &i), "temporary source");
    }
  }
}
#else
// every member count: N members, the first K of another type, the view binds to member K
template <bool F> using mt = std::conditional_t<F, float, int>;
#define M(i) mt<(i < K)> m##i;
#define UP_TO_1 M(0)
#define UP_TO_2 UP_TO_1 M(1)
#define UP_TO_3 UP_TO_2 M(2)
#define UP_TO_4 UP_TO_3 M(3)
#define UP_TO_5 UP_TO_4 M(4)
#define UP_TO_6 UP_TO_5 M(5)
#define UP_TO_7 UP_TO_6 M(6)
#define UP_TO_8 UP_TO_7 M(7)
#define UP_TO_9 UP_TO_8 M(8)
#define UP_TO_10 UP_TO_9 M(9)
#define UP_TO_11 UP_TO_10 M(10)
#define UP_TO_12 UP_TO_11 M(11)
#define UP_TO_13 UP_TO_12 M(12)
#define UP_TO_14 UP_TO_13 M(13)
#define UP_TO_15 UP_TO_14 M(14)
#define UP_TO_16 UP_TO_15 M(15)
#define UP_TO_17 UP_TO_16 M(16)
#define UP_TO_18 UP_TO_17 M(17)
#define UP_TO_19 UP_TO_18 M(18)
#define UP_TO_20 UP_TO_19 M(19)
#define UP_TO_21 UP_TO_20 M(20)
#define UP_TO_22 UP_TO_21 M(21)
#define UP_TO_23 UP_TO_22 M(22)
#define UP_TO_24 UP_TO_23 M(23)
#define UP_TO_25 UP_TO_24 M(24)
#define UP_TO_26 UP_TO_25 M(25)
#define UP_TO_27 UP_TO_26 M(26)
#define UP_TO_28 UP_TO_27 M(27)
#define UP_TO_29 UP_TO_28 M(28)
#define UP_TO_30 UP_TO_29 M(29)
#define UP_TO_31 UP_TO_30 M(30)
template <int N, int K> struct wide;
#define WIDE(n) template <int K> struct wide<n, K> { UP_TO_##n };
WIDE(1) WIDE(2) WIDE(3) WIDE(4) WIDE(5) WIDE(6) WIDE(7) WIDE(8) WIDE(9) WIDE(10) WIDE(11) WIDE(12) WIDE(13) WIDE(14) WIDE(15) WIDE(16)
WIDE(17) WIDE(18) WIDE(19) WIDE(20) WIDE(21) WIDE(22) WIDE(23) WIDE(24) WIDE(25) WIDE(26) WIDE(27) WIDE(28) WIDE(29) WIDE(30) WIDE(31)

template <int N, int K>
void wide_case() {
  seq::op();
  if (N > 8) seq::nontrivial();
  wide<N, K> s{};
  auto const base = reinterpret_cast<char const*>(&s);
  static_assert(sizeof(float) == sizeof(int));
  auto v = utl::init_from<view1<int&>>(s);
  SEQ_CHECK(v.has_value(), "no view of a complete source");
  auto const at = (reinterpret_cast<char const*>(&v->x) - base) / static_cast<long>(sizeof(int));
  SEQ_CHECK(at == K, "of %d members, the first int is member %d but member %ld was bound", N, K, static_cast<long>(at));
  if constexpr (K > 0) {
    auto w = utl::init_from<view2<float&, int&>>(s);
    SEQ_CHECK(w && reinterpret_cast<char const*>(&w->x) == base && reinterpret_cast<char const*>(&w->y) == base + K * static_cast<int>(sizeof(int)), "of %d members, wrong members are bound", N);
  }
}
template <int N, int... K>
void wide_k(std::integer_sequence<int, K...>) {
  auto const k = pick(N);
  ((K == k ? wide_case<N, K>() : void()), ...);
}
template <int From, int... D>
void wide_n(std::integer_sequence<int, D...>) {
  auto const d = pick(static_cast<int>(sizeof...(D)));
  ((D == d ? wide_k<From + D>(std::make_integer_sequence<int, From + D>{}) : void()), ...);
}
#endif
}  // namespace

std::vector<seq::config> seq::configs(std::string const& p) {
  std::vector<config> c;
  if (p != "D04") return c;
#if PART == 0
  c.push_back({"one member, every kind of source member before it, every null", single, 0, 2});
  c.push_back({"two members, every kind of source, every null", pairs, 0, 2});
  c.push_back({"five members of all kinds", larger, 0, 1});
  c.push_back({"listed, const and temporary sources", special_sources, 0, 1});
#elif PART == 1
  c.push_back({"sources of 1 to 16 members", [] { wide_n<1>(std::make_integer_sequence<int, 16>{}); }, 0, 1});
#elif PART == 2
  c.push_back({"sources of 17 to 22 members", [] { wide_n<17>(std::make_integer_sequence<int, 6>{}); }, 0, 1});
#elif PART == 3
  c.push_back({"sources of 23 to 27 members", [] { wide_n<23>(std::make_integer_sequence<int, 5>{}); }, 0, 1});
#else
  c.push_back({"sources of 28 to 31 members", [] { wide_n<28>(std::make_integer_sequence<int, 4>{}); }, 0, 1});
#endif
  return c;
}
