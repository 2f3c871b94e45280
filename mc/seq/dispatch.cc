// Type dispatch (D01), verification helpers (D02), printable enums (D03).
#include "seq.h"
#include <system_error>
#include <typeinfo>
#include <utility>
#include <array>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <variant>
#include <ctime>
#include <vector>
#if PART == 1
#include "utl/match.h"
#include "utl/overloaded.h"
#elif PART == 2
#include "utl/verify.h"
#else
#include "utl/printable_enum.h"
#endif

using seq::flip;
using seq::obj;
using seq::pick;

#if PART == 3
namespace enums {
#include "enums.inc"
}
#endif

namespace {

#if PART == 1
// ------------------------------------------------------------ D01: match
// node <- a <- aa <- aaa ; node <- b ; a, other <- m (second base, pointer adjustment); node is a virtual base of d
struct node { virtual ~node() = default; int tag = 1; };
struct a : node { int x = 2; };
struct aa : a { int y = 3; };
struct aaa final : aa { int z = 4; };
struct b : node { int x = 5; };
struct other { virtual ~other() = default; int o = 6; };
struct m : other, a { int w = 7; };
template <int K> struct type_of;
template <> struct type_of<0> { using t = node; };
template <> struct type_of<1> { using t = a; };
template <> struct type_of<2> { using t = aa; };
template <> struct type_of<3> { using t = b; };
template <> struct type_of<4> { using t = m; };
template <> struct type_of<5> { using t = other; };
constexpr auto const kTypes = 6;

struct call { int handler; void const* object; };
std::vector<call> calls;
enum kind { VALUE, CONST_ARG, MUTABLE, THROWS };
struct boom { int handler; };

// handlers of every shape: what they are given is recorded, they return 100 + position
template <int K, int I>
auto const_handler() { return [](typename type_of<K>::t const* p) { calls.push_back({I, p}); return 100 + I; }; }
template <int K, int I>
struct functor {
  explicit functor(int* n) : count{n}, own{new int{I}} {}
  functor(functor&&) = default;
  long operator()(typename type_of<K>::t* p) { calls.push_back({I, p}); ++*count; SEQ_CHECK(own != nullptr, "a moved-from handler was called"); return 100 + *own; }
  int* count;
  std::unique_ptr<int> own;  // not copyable
};
template <int K, int I>
struct ref_handler {  // must be called itself, not a copy of it
  std::string operator()(typename type_of<K>::t const* p) { calls.push_back({I, p}); ++called; return std::string(40, static_cast<char>('a' + I)); }
  int called = 0;
};
template <int K, int I>
auto throwing() { return [](typename type_of<K>::t const* p) -> void { calls.push_back({I, p}); if (flip()) throw boom{I}; }; }

struct dyn {
  char const* name;
  std::unique_ptr<node> obj;
  std::array<void const*, kTypes> as;  // address as each handler type, null: not of that type
};
template <typename T>
dyn make(char const* name) {
  auto o = std::make_unique<T>();
  auto const p = o.get();
  dyn d{name, nullptr, {}};
  auto const put = [&]<int K>() { if constexpr (std::is_convertible_v<T*, typename type_of<K>::t*>) d.as[K] = static_cast<typename type_of<K>::t*>(p); };
  put.template operator()<0>(); put.template operator()<1>(); put.template operator()<2>(); put.template operator()<3>(); put.template operator()<4>(); put.template operator()<5>();
  d.obj = std::move(o);
  return d;
}
dyn any_object() {
  switch (pick(7)) {
    case 0: return make<node>("node");
    case 1: return make<a>("a");
    case 2: return make<aa>("aa");
    case 3: return make<aaa>("aaa");
    case 4: return make<b>("b");
    case 5: return make<m>("m");
    default: { struct local : b {}; return make<local>("local : b"); }
  }
}

template <int... K>
void one_list(std::integer_sequence<int, K...>) {
  seq::op();
  auto d = any_object();
  auto const ks = std::array{K...};
  auto want = -1;
  for (auto i = 0; i < static_cast<int>(ks.size()); ++i) if (d.as[static_cast<std::size_t>(ks[static_cast<std::size_t>(i)])]) { want = i; break; }
  if (want > 0) seq::nontrivial();
  calls.clear();
  if (seq::recording()) { std::string s; ((s += " " + std::to_string(K)), ...); seq::note("object %s, handlers for types%s, expect %d", d.name, s.c_str(), want); }
  auto const verdict = [&](bool const threw, int const result) {
    if (want < 0) {
      SEQ_CHECK(threw, "no handler matches a %s but match did not throw", d.name);
      SEQ_CHECK(calls.empty(), "no handler matches a %s but handler %d was called", d.name, calls[0].handler);
      return;
    }
    SEQ_CHECK(!threw, "handler %d matches a %s but match threw", want, d.name);
    SEQ_CHECK(calls.size() == 1U, "%zu handlers were called for a %s", calls.size(), d.name);
    SEQ_CHECK(calls[0].handler == want, "handler %d was called for a %s, expected %d", calls[0].handler, d.name, want);
    SEQ_CHECK(calls[0].object == d.as[static_cast<std::size_t>(ks[static_cast<std::size_t>(want)])], "handler %d was given another object", want);
    SEQ_CHECK(result == 100 + want, "match returned %d, handler %d returned %d", result, want, 100 + want);
  };
  auto const seqn = std::make_index_sequence<sizeof...(K)>{};
  switch (sizeof...(K) > 2U ? 0 : pick(4)) {
    case 0: {  // pointer to const, temporaries
      auto threw = false; auto r = 0;
      try { [&]<std::size_t... I>(std::index_sequence<I...>) { r = utl::match(const_cast<node const*>(d.obj.get()), const_handler<K, static_cast<int>(I)>()...); }(seqn); }
      catch (std::runtime_error const&) { threw = true; }
      verdict(threw, r);
      break;
    }
    case 1: if constexpr (sizeof...(K) < 3U) {  // move-only handlers on a mutable object
      auto threw = false; auto r = 0L; int n = 0;
      try { [&]<std::size_t... I>(std::index_sequence<I...>) { r = utl::match(d.obj.get(), functor<K, static_cast<int>(I)>{&n}...); }(seqn); }
      catch (std::runtime_error const&) { threw = true; }
      verdict(threw, static_cast<int>(r));
      SEQ_CHECK(n == (want < 0 ? 0 : 1), "%d handler calls", n);
      break;
    }
    case 2: if constexpr (sizeof...(K) < 3U) {  // handlers passed by reference keep their state; the pointer is an lvalue
      [&]<std::size_t... I>(std::index_sequence<I...>) {
        std::tuple<ref_handler<K, static_cast<int>(I)>...> h;
        auto threw = false; std::string r;
        auto* p = d.obj.get();
        try { r = utl::match(p, std::get<I>(h)...); }
        catch (std::runtime_error const&) { threw = true; }
        verdict(threw, r.empty() ? 0 : 100 + r[0] - 'a');
        SEQ_CHECK(threw || r.size() == 40U, "the result arrived damaged");
        auto const times = [&](int const i, int const n) { SEQ_CHECK(n == (i == want), "handler %d called %d times", i, n); };
        (times(static_cast<int>(I), std::get<I>(h).called), ...);
        SEQ_CHECK(p == d.obj.get(), "the pointer was modified");
      }(seqn);
      break;
    }
    default: if constexpr (sizeof...(K) < 3U) {  // void handlers, which may throw: nothing else is tried
      auto threw = false; auto by = -1;
      try { [&]<std::size_t... I>(std::index_sequence<I...>) { utl::match(const_cast<node const*>(d.obj.get()), throwing<K, static_cast<int>(I)>()...); }(seqn); }
      catch (boom const& x) { by = x.handler; }
      catch (std::runtime_error const&) { threw = true; }
      SEQ_CHECK(by == -1 || by == want, "handler %d threw, expected %d to be called", by, want);
      verdict(threw, 100 + want);
    }
  }
}
template <int N, int... K>
void lists() {  // every ordered list of handler types extending K...
  if constexpr (sizeof...(K) == N) { one_list(std::integer_sequence<int, K...>{}); }
  else {
    switch (pick(kTypes)) {
      case 0: return lists<N, K..., 0>();
      case 1: return lists<N, K..., 1>();
      case 2: return lists<N, K..., 2>();
      case 3: return lists<N, K..., 3>();
      case 4: return lists<N, K..., 4>();
      default: return lists<N, K..., 5>();
    }
  }
}
int from_b(b const* p) { calls.push_back({0, p}); return 100; }
int from_node(node const* p) noexcept { calls.push_back({1, p}); return 101; }
void function_pointers() {
  seq::op();
  auto d = any_object();
  calls.clear();
  auto const mixed = flip();
  auto const r = mixed ? utl::match(const_cast<node const*>(d.obj.get()), from_b, [](node const* p) noexcept { return from_node(p); })
                       : utl::match(const_cast<node const*>(d.obj.get()), &from_b, &from_node);
  auto const want = d.as[3] ? 0 : 1;
  SEQ_CHECK(r == 100 + want && calls.size() == 1U && calls[0].handler == want && calls[0].object == d.obj.get(), "function handlers for a %s: result %d", d.name, r);
}
template <int I> struct leaf : node { int v = I; };
template <std::size_t... I>
void many_handlers_of(std::index_sequence<I...>) {
  constexpr auto const n = static_cast<int>(sizeof...(I));
  std::unique_ptr<node> o;
  auto const k = pick(18);
  [&]<int... K>(std::integer_sequence<int, K...>) { ((K == k ? o.reset(new leaf<K>) : void()), ...); }(std::make_integer_sequence<int, 18>{});
  auto const with_base = seq::of({0, n + 1, n});  // 0: the first handler takes any node, n: none does, else the last
  std::vector<int> called;
  auto threw = false;
  auto result = -1;
  seq::op();
  try {
    node* const p = o.get();
    if (with_base == n) result = utl::match(p, [&](leaf<static_cast<int>(I)> const* l) { called.push_back(static_cast<int>(I)); return static_cast<int>(I) * 100 + l->v; }...);
    else {
      if (with_base == 0) result = utl::match(p, [&](node const* l) { called.push_back(50); return 5000 + l->tag; }, [&](leaf<static_cast<int>(I)> const* l) { called.push_back(static_cast<int>(I)); return static_cast<int>(I) * 100 + l->v; }...);
      else result = utl::match(p, [&](leaf<static_cast<int>(I)> const* l) { called.push_back(static_cast<int>(I)); return static_cast<int>(I) * 100 + l->v; }..., [&](node const* l) { called.push_back(60); return 6000 + l->tag; });
    }
  } catch (std::runtime_error const&) { threw = true; }
  auto const own = k < n;
  auto const want = with_base == 0 ? 5001 : own ? k * 101 : with_base != n ? 6001 : -1;
  SEQ_CHECK(threw == (want < 0) && result == want && called.size() == (want < 0 ? 0U : 1U), "%d handlers, object %d, any-handler %d: result %d, expected %d, %zu calls", n, k, with_base, result, want, called.size());
  if (k > 2) seq::nontrivial();
}
void many_handlers() {
  [&]<int... N>(std::integer_sequence<int, N...>) { auto const n = pick(16); ((N == n ? many_handlers_of(std::make_index_sequence<N + 1>{}) : void()), ...); }(std::make_integer_sequence<int, 16>{});
}
void null_pointer() {
  seq::op();
  calls.clear();
  auto threw = false;
  node const* p = nullptr;
  try { utl::match(p, [](a const*) { calls.push_back({0, nullptr}); }, [](node const*) { calls.push_back({1, nullptr}); }); }
  catch (std::runtime_error const&) { threw = true; }
  SEQ_CHECK(threw && calls.empty(), "a null pointer was dispatched");
}

// ------------------------------------------------------------ D01: overload sets
struct base { int v = 0; };
struct derived : base {};
struct any_of {  // argument types of every kind
  static constexpr auto const n = 9;
};
struct hit { int which; void const* at; };
std::vector<hit> hits;

template <typename O>
void call_all(O& o, std::array<int, any_of::n> const& want, bool const lvalues) {
  int i = 7; long l = 8; short s = 1; double d = 1.5; bool bo = true; std::string str = "text"; char const* cs = "chars"; base ba; derived de;
  auto const one = [&](int const k, auto&& call, void const* at) {
    hits.clear();
    call();
    auto const w = want[static_cast<std::size_t>(k)];
    SEQ_CHECK(hits.size() == (w >= 0 ? 1U : 0U), "argument type %d: %zu callables were called, expected %d", k, hits.size(), w >= 0);
    if (w >= 0) {
      SEQ_CHECK(hits[0].which == w, "argument type %d went to callable %d, expected %d", k, hits[0].which, w);
      if (at) SEQ_CHECK(hits[0].at == at, "argument type %d: the callable did not get the object itself", k);
    }
  };
  switch (pick(any_of::n)) {
    case 0: one(0, [&] { if (lvalues) o(i); else o(7); }, nullptr); break;
    case 1: one(1, [&] { if (lvalues) o(l); else o(8L); }, nullptr); break;
    case 2: one(2, [&] { if (lvalues) o(s); else o(static_cast<short>(1)); }, nullptr); break;
    case 3: one(3, [&] { if (lvalues) o(d); else o(1.5); }, nullptr); break;
    case 4: one(4, [&] { if (lvalues) o(bo); else o(true); }, nullptr); break;
    case 5: one(5, [&] { if (lvalues) o(str); else o(std::string{"text"}); }, lvalues ? &str : nullptr); break;
    case 6: one(6, [&] { if (lvalues) o(cs); else o(static_cast<char const*>("chars")); }, nullptr); break;
    case 7: one(7, [&] { if (lvalues) o(ba); else o(base{}); }, lvalues ? &ba : nullptr); break;
    default: one(8, [&] { if (lvalues) o(de); else o(derived{}); }, lvalues ? &de : nullptr); break;
  }
}
#define L(T, K) [](T x) { hits.push_back({K, nullptr}); (void)x; }
#define R(T, K) [](T const& x) { hits.push_back({K, &x}); }
void overload_sets() {
  seq::op();
  auto const lv = flip();
  auto go = [&](auto o, std::initializer_list<int> w) {
    std::array<int, any_of::n> want;
    want.fill(-1);
    for (auto const k : w) want[static_cast<std::size_t>(k)] = k;
    seq::nontrivial();
    call_all(o, want, lv);
  };
  switch (pick(10)) {
    case 0: go(utl::overloaded{L(int, 0)}, {0}); break;
    case 1: go(utl::overloaded{R(std::string, 5)}, {5}); break;
    case 2: go(utl::overloaded{L(int, 0), L(long, 1)}, {0, 1}); break;
    case 3: go(utl::overloaded{L(long, 1), R(std::string, 5), L(int, 0)}, {0, 1, 5}); break;
    case 4: go(utl::overloaded{R(base, 7)}, {7}); break;
    case 5: go(utl::overloaded{R(derived, 8), R(base, 7)}, {7, 8}); break;
    case 6: go(utl::overloaded{L(bool, 4), L(double, 3)}, {3, 4}); break;
    case 7: go(utl::overloaded{L(char const*, 6), L(short, 2), R(base, 7)}, {2, 6, 7}); break;
    case 8: go(utl::overloaded{[n = std::make_shared<int>(0)](int x) { hits.push_back({0, nullptr}); *n += x; }, [](double const& x) { hits.push_back({3, &x}); }}, {0, 3}); break;
    default: go(utl::overloaded{L(int, 0), L(long, 1), L(short, 2), L(double, 3), L(bool, 4), R(std::string, 5), L(char const*, 6), R(base, 7), R(derived, 8)}, {0, 1, 2, 3, 4, 5, 6, 7, 8});
  }
}
void variant_visit() {  // the use it is made for
  seq::op();
  std::variant<int, std::string, double, std::monostate> v;
  auto const k = pick(4);
  if (k == 0) v = 3; else if (k == 1) v = std::string(30, 's'); else if (k == 2) v = 2.5; else v = std::monostate{};
  auto ints = 0; std::string strings;
  std::visit(utl::overloaded{[&](int x) { ints += x; }, [&](std::string const& s) { strings += s; }}, v);
  SEQ_CHECK(ints == (k == 0 ? 3 : 0) && strings == (k == 1 ? std::string(30, 's') : ""), "visiting alternative %d", k);
}

#endif
#if PART == 2
// ------------------------------------------------------------ D02
struct capture {
  capture() : old{std::clog.rdbuf(s.rdbuf())} {}
  ~capture() { std::clog.rdbuf(old); }
  std::string text() const { return s.str(); }
  std::ostringstream s;
  std::streambuf* old;
};
std::size_t count_of(std::string const& s, std::string const& what) {
  if (what.empty()) return 1U;
  std::size_t n = 0, p = 0;
  while ((p = s.find(what, p)) != std::string::npos) { ++n; p += what.size(); }
  return n;
}
struct my_error : std::logic_error { my_error(int c, std::string w) : std::logic_error{w}, code{c} {} int code; };
struct plain_error { int code; std::string s; };

std::string const kPlain(70001, 'p');
// runs f; checks it throws a runtime_error with the message (empty optional: must not throw), logging as stated
template <typename F>
void expect(bool const ok, std::string const& msg, bool const logs, F&& f, char const* what) {
  auto threw = false;
  std::string got, log;
  {
    capture c;
    try { f(); }
    catch (std::runtime_error const& e) { threw = true; got = e.what(); }
    log = c.text();
  }
  SEQ_CHECK(threw == !ok, "%s: condition %s but it %s", what, ok ? "holds" : "fails", threw ? "threw" : "did not throw");
  if (ok) { SEQ_CHECK(log.empty(), "%s: logged although the condition holds: %s", what, seq::quote(log).c_str()); return; }
  seq::nontrivial();
  SEQ_CHECK(got == msg, "%s: exception message %s, expected %s", what, seq::quote(got).c_str(), seq::quote(msg).c_str());
  if (!logs) SEQ_CHECK(log.empty(), "%s: logged %s", what, seq::quote(log).c_str());
  else {
    SEQ_CHECK(count_of(log, msg) == 1U || msg.empty() || msg.size() < 4, "%s: the message was logged %zu times: %s", what, count_of(log, msg), seq::quote(log).c_str());
    SEQ_CHECK(log.size() > msg.size() && log.compare(log.size() - msg.size() - 1, msg.size(), msg) == 0 && log.back() == '\n', "%s: the log does not end with the message and a line break: %s", what, seq::quote(log).c_str());
    auto tm = std::tm{};  // a time stamp marked as UTC is the current time in UTC
    if (char z = 0; std::sscanf(log.c_str(), "%d-%d-%dT%d:%d:%d%c", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &z) == 7 && z == 'Z') {
      tm.tm_year -= 1900;
      --tm.tm_mon;
      SEQ_CHECK(std::abs(std::difftime(timegm(&tm), std::time(nullptr))) < 600, "%s: the time stamp is wrong: %s", what, seq::quote(log).c_str());
    }
    SEQ_CHECK(std::count(begin(log), end(log), '\n') == 1 + std::count(begin(msg), end(msg), '\n'), "%s: more than one line logged: %s", what, seq::quote(log).c_str());
  }
}
// a failing check without message arguments
void plain_macro() {
  auto const ok = flip();
  auto n = 0;
  seq::op();
  switch (pick(3)) {
    case 0: expect(ok, "plain", true, [&] { utl_verify((++n, ok), "plain"); }, "utl_verify"); break;
    case 1: expect(ok, "{plain}", true, [&] { utl_verify((++n, ok), "{{plain}}"); }, "utl_verify"); break;
    default: expect(ok, kPlain, true, [&] { utl_verify((++n, ok), kPlain); }, "utl_verify");
  }
  SEQ_CHECK(n == 1, "utl_verify evaluated its condition %d times", n);
}
struct text_arg { std::string fmt; std::string value; };

template <typename... A>
void helpers(bool const ok, std::string const& f, std::string const& msg, A const&... args) {
  switch (pick(3)) {
    case 0: expect(ok, msg, true, [&] { utl::verify(ok, f, args...); }, "verify"); break;
    case 1: {
      auto evaluated = 0;
      auto const ev = [&](int const n, auto const& x) -> auto const& { evaluated += n; return x; };
      expect(ok, msg, true, [&] { utl_verify(ev(1, ok), f, ev(10, args)..., ev(100, ok)); }, "utl_verify");
      SEQ_CHECK(evaluated == (ok ? 1 : 101 + 10 * static_cast<int>(sizeof...(A))), "utl_verify evaluated its arguments: trace %d", evaluated);
      break;
    }
    default: {  // fail() makes the exception, the caller throws it
      if (ok) return;
      expect(ok, msg, true, [&] { throw utl::fail(f, args...); }, "fail");
    }
  }
}
std::string const kLong(300, 'L');

void verify_messages() {
  seq::op();
  auto const ok = flip();
  auto const n = pick(12);
  auto const i = seq::of({0, -1, 2147483647});
  auto const s = seq::of<std::string>({"", "short", "a string that is longer than fifteen characters", kLong, "{}", "line\nbreak"});
  auto const si = std::to_string(i);
  switch (n) {
    case 0: helpers(ok, "no arguments", "no arguments"); break;
    case 1: helpers(ok, "value {}", "value " + si, i); break;
    case 2: helpers(ok, "{}{}", s + si, s, i); break;
    case 3: helpers(ok, "[{1}|{0}|{1}]", "[" + si + "|" + s + "|" + si + "]", s, i); break;
    case 4: helpers(ok, "{{braces}} {} {{{}}}", "{braces} " + s + " {" + si + "}", s, i); break;
    case 5: helpers(ok, "view {} chars {} {}", "view " + s + " chars " + s + " end", std::string_view{s}, s.c_str(), "end"); break;
    case 6: helpers(ok, "{:>5}|{:04}|{:x}", "    a|" + std::string("0042") + "|ff", 'a', 42, 255); break;
    case 7: helpers(ok, "{}", s, s); break;
    case 8: helpers(ok, "{{}} {{0}} }}{{", "{} {0} }{"); break;
    case 9: helpers(ok, "", ""); break;
    case 10: helpers(ok, "100% {} %s %d", "100% " + s + " %s %d", s); break;
    default: helpers(ok, "{} {} {} {} {} {}", si + " " + s + " true 2.5 c " + si, i, s, true, 2.5, 'c', i); break;
  }
  SEQ_CHECK(s.size() == s.size(), "unreachable");
}
// verify_ex: the very object given is thrown, whatever its type
struct derived_error : my_error { derived_error(int c, std::string w) : my_error{c, w}, more{"more " + w} {} std::string more; };
struct copies { copies(int v) : id{v} {} seq::obj id; };
int code_of(int const x) { return x; }
int code_of(std::string const& s) { return s.empty() ? 0 : static_cast<int>(s.size()); }
int code_of(my_error const& e) { return e.code + static_cast<int>(std::string{e.what()}.size()); }
int code_of(derived_error const& e) { return e.code + static_cast<int>(e.more.size()); }
int code_of(plain_error const& e) { return e.code + static_cast<int>(e.s.size()); }
int code_of(copies const& e) { return e.id.get(); }
int code_of(std::exception const& e) { return static_cast<int>(std::string{e.what()}.size()); }

template <typename E, typename Make>
void exceptions(Make make) {
  seq::op();
  auto const ok = flip();
  auto const i = seq::of({0, -1, 1000});
  auto const s = seq::of<std::string>({"", "short", "a string that is longer than fifteen characters", kLong, "{}"});
  E e = make(i, s);
  auto const want = code_of(e);
  auto threw = false, other = false;
  auto got = 0;
  capture c;
  try {
    switch (pick(3)) {
      case 0: utl::verify_ex(ok, make(i, s)); break;
      case 1: utl::verify_ex(ok, e); break;
      default: utl::verify_ex(ok, std::as_const(e));
    }
  } catch (E const& x) { threw = true; got = code_of(x); other = typeid(x) != typeid(E); }
  catch (...) { threw = other = true; }
  if (!ok) seq::nontrivial();
  SEQ_CHECK(threw == !ok, "verify_ex: condition %s but it %s", ok ? "holds" : "fails", threw ? "threw" : "did not throw");
  SEQ_CHECK(!other, "verify_ex threw an object of another type");
  SEQ_CHECK(ok || got == want, "verify_ex threw another object");
  SEQ_CHECK(code_of(e) == want, "verify_ex damaged the caller's object");
  SEQ_CHECK(c.text().empty(), "verify_ex logged %s", seq::quote(c.text()).c_str());
}

void verify_silent_and_nested() {
  seq::op();
  auto const ok = flip();
  auto const i = seq::of({0, -1, 2147483647});
  auto const s = seq::of<std::string>({"", "short", "a string that is longer than fifteen characters", kLong, "{}"});
  auto const si = std::to_string(i);
  switch (pick(5)) {
    case 0: expect(ok, "silent", false, [&] { utl::verify_silent(ok, "silent"); }, "verify_silent"); break;
    case 1: expect(ok, "a " + si + " b " + s, false, [&] { utl::verify_silent(ok, "a {} b {}", i, s); }, "verify_silent"); break;
    case 2: expect(ok, "{" + s + "} " + s, false, [&] { utl::verify_silent(ok, "{{{0}}} {0}", std::string_view{s}); }, "verify_silent"); break;
    case 3: {  // macro with a temporary condition and names from an enclosing scope
      auto [x, y] = std::pair{i, s};
      std::vector<int> v{1, 2, 3};
      expect(ok, "size 3 " + s, true, [&] { utl_verify(v.size() == (ok ? 3U : 4U) && !v.empty(), "size {} {}", v.size(), y); (void)x; }, "utl_verify");
      break;
    }
    default: {  // nested: one failing check while handling another
      auto n = 0;
      expect(ok, "outer " + si, true, [&] {
        try { utl::verify_silent(ok, "inner"); } catch (std::runtime_error const&) { ++n; utl::verify(false, "outer {}", i); }
      }, "nested verify");
      SEQ_CHECK(n == (ok ? 0 : 1), "the inner check was caught %d times", n);
    }
  }
}

#endif
#if PART == 3
// ------------------------------------------------------------ D03
struct enum_case {
  char const* type;
  std::vector<char const*> names;
  std::string (*as)(std::size_t);
  void (*stream)(std::ostream&, std::size_t);
};
template <typename E>
std::string as(std::size_t const i) { return as_string(static_cast<E>(i)); }
template <typename E>
void stream(std::ostream& o, std::size_t const i) { o << '<' << static_cast<E>(i) << '|' << static_cast<E>(i) << '>'; }
void add(std::vector<enum_case>& r, char const* type, char const* const* n, std::size_t const size, std::string (*a)(std::size_t), void (*s)(std::ostream&, std::size_t)) {
  r.push_back({type, {n, n + size}, a, s});
}
std::vector<enum_case> const& enum_cases() {
  static auto const v = [] {
    std::vector<enum_case> r;
#define CASE(T, ...)                                                                         \
  {                                                                                          \
    static char const* const n[] = {__VA_ARGS__};                                            \
    add(r, #T, n, sizeof(n) / sizeof(*n), as<enums::T>, stream<enums::T>);                   \
  }
    ENUM_CASES
    return r;
  }();
  return v;
}
void printable() {
  auto const& e = seq::of(enum_cases());
  auto const i = static_cast<std::size_t>(pick(static_cast<int>(e.names.size())));
  seq::op();
  if (e.names.size() > 1) seq::nontrivial();
  if (seq::recording()) seq::note("enum %s of %zu, enumerator %zu %s", e.type, e.names.size(), i, e.names[i]);
  auto const s = e.as(i);
  SEQ_CHECK(s == e.names[i], "enumerator %s of %s is printed as %s", e.names[i], e.type, seq::quote(s).c_str());
  std::ostringstream os;
  e.stream(os, i);
  auto const o = os.str();
  SEQ_CHECK(o == "<" + s + "|" + s + ">", "enumerator %s of %s is streamed as %s", e.names[i], e.type, seq::quote(o).c_str());
}
#endif
}  // namespace

std::vector<seq::config> seq::configs(std::string const& p) {
  std::vector<config> c;
#if PART == 1
  if (p == "D01") c.push_back({"every handler list of length 1, every object", [] { lists<1>(); }, 0, 1});
  if (p == "D01") c.push_back({"every handler list of length 2, every object", [] { lists<2>(); }, 0, 1});
  if (p == "D01") c.push_back({"every handler list of length 3, every object", [] { lists<3>(); }, 0, 2});
  if (p == "D01") c.push_back({"functions as handlers", function_pointers, 0, 1});
  if (p == "D01") c.push_back({"up to 17 handlers", many_handlers});
  if (p == "D01") c.push_back({"null pointer", null_pointer, 0, 1});
  if (p == "D01") c.push_back({"overload sets, every argument type and value category", overload_sets, 0, 1});
  if (p == "D01") c.push_back({"overload sets visiting a variant", variant_visit, 0, 1});
#endif
#if PART == 2
  if (p == "D02") {
    setenv("TZ", "XXX-5:30", 1);  // far from UTC
    tzset();
    c.push_back({"utl_verify without message arguments", plain_macro});
  }
  if (p == "D02") c.push_back({"verify, utl_verify and fail: every message shape and condition", verify_messages, 0, 1});
  if (p == "D02") c.push_back({"verify_silent, nesting", verify_silent_and_nested, 0, 1});
#endif
#if PART == 2
  if (p == "D02") c.push_back({"verify_ex, runtime_error", [] { exceptions<std::runtime_error>([](int, std::string const& s) { return std::runtime_error{s}; }); }});
  if (p == "D02") c.push_back({"verify_ex, out_of_range", [] { exceptions<std::out_of_range>([](int, std::string const& s) { return std::out_of_range{s}; }); }});
  if (p == "D02") c.push_back({"verify_ex, bad_alloc", [] { exceptions<std::bad_alloc>([](int, std::string const&) { return std::bad_alloc{}; }); }});
  if (p == "D02") c.push_back({"verify_ex, system_error", [] { exceptions<std::system_error>([](int, std::string const& s) { return std::system_error{std::make_error_code(std::errc::io_error), s}; }); }});
  if (p == "D02") c.push_back({"verify_ex, own exception class", [] { exceptions<my_error>([](int i, std::string const& s) { return my_error{i, s}; }); }});
  if (p == "D02") c.push_back({"verify_ex, class derived from an own exception class", [] { exceptions<derived_error>([](int i, std::string const& s) { return derived_error{i, s}; }); }});
  if (p == "D02") c.push_back({"verify_ex, unrelated class", [] { exceptions<plain_error>([](int i, std::string const& s) { return plain_error{i, s}; }); }});
  if (p == "D02") c.push_back({"verify_ex, tracked object", [] { exceptions<copies>([](int i, std::string const&) { return copies{i}; }); }});
  if (p == "D02") c.push_back({"verify_ex, number", [] { exceptions<int>([](int i, std::string const&) { return i; }); }});
  if (p == "D02") c.push_back({"verify_ex, string", [] { exceptions<std::string>([](int, std::string const& s) { return s; }); }});
#endif
#if PART == 3
  if (p == "D03") c.push_back({"every enumerator of every enum in every layout", printable, 0, 1});
#endif
  return c;
}
