// Integers (T05), floating point, booleans and strings (T06).
#include "seq.h"
#include <cmath>
#include <limits>
#include <stdexcept>
#include <typeinfo>
#include "utl/parser/arg_parser.h"

using seq::pick;
using seq::quote;
using utl::cstr;

namespace {
using big = __int128;

struct block {  // the text alone in a heap block, or inside other digits
  explicit block(std::string const& s) : alone{seq::flip()}, e{alone ? s : "79" + s + "3.5"}, n{s.size()} {}
  cstr view() const { return {e.data() + (alone ? 0 : 2), n}; }
  bool alone;
  seq::exact e;
  std::size_t n;
};

bool digit(char c) { return c >= '0' && c <= '9'; }

struct int_ref {
  bool any = false, fits = true, unspecified = false;
  big v = 0;
  std::size_t used = 0;
};

template <typename T>
int_ref reference(std::string const& s) {
  int_ref r;
  auto neg = false;
  auto i = std::size_t{0};
  if (std::is_signed_v<T> && i < s.size() && s[i] == '-') { neg = true; ++i; }
  if (i < s.size() && s[i] == '+') { r.unspecified = neg; ++i; }  // "-+": one sign too many
  auto const lo = static_cast<big>(std::numeric_limits<T>::min());
  auto const hi = static_cast<big>(std::numeric_limits<T>::max());
  while (i < s.size() && digit(s[i])) {
    r.any = true;
    if (r.fits) {
      r.v = r.v * 10 + (neg ? -(s[i] - '0') : s[i] - '0');
      if (r.v < lo || r.v > hi) r.fits = false;
    }
    ++i;
  }
  r.used = i;
  return r;
}

std::string str(big v) {
  if (v == 0) return "0";
  auto const neg = v < 0;
  std::string s;
  while (v != 0) { auto const d = static_cast<int>(v % 10); s.insert(s.begin(), static_cast<char>('0' + (d < 0 ? -d : d))); v /= 10; }
  return neg ? "-" + s : s;
}

template <typename T>
void check_int(std::string const& s) {
  auto const name = std::string{std::is_signed_v<T> ? "int" : "uint"} + std::to_string(sizeof(T) * 8);
  auto const ref = reference<T>(s);
  auto const b = block{s};
  auto const okay = ref.any && ref.used == s.size();
  seq::note("%s from %s", name.c_str(), quote(s).c_str());
  seq::op();
  if (ref.any) seq::nontrivial();
  auto const value = [&](T got, T def, char const* how) {
    if (ref.unspecified) return;
    if (!ref.any) SEQ_CHECK(got == def, "%s: %s of %s without a digit yields %s instead of the default %s", name.c_str(), how, quote(s).c_str(), str(got).c_str(), str(def).c_str());
    else if (ref.fits) SEQ_CHECK(static_cast<big>(got) == ref.v, "%s: %s of %s yields %s", name.c_str(), how, quote(s).c_str(), str(got).c_str());
  };
  auto const rest = [&](cstr c, char const* how) {
    SEQ_CHECK(c.len <= s.size() && (c.str + c.len == b.view().str + s.size() || c.len == 0), "%s: %s of %s leaves something outside the text", name.c_str(), how, quote(s).c_str());
    if (!ref.unspecified) SEQ_CHECK(c.len == s.size() - ref.used, "%s: %s of %s leaves %zu bytes instead of %zu", name.c_str(), how, quote(s).c_str(), c.len, s.size() - ref.used);
  };
  {
    auto c = b.view();
    auto v = static_cast<T>(77);
    auto const ok = utl::parse_arg(c, v);
    value(v, T{0}, "parse_arg");
    rest(c, "parse_arg");
    if (!ref.unspecified) SEQ_CHECK(ok == okay, "%s: parse_arg of %s reports %d", name.c_str(), quote(s).c_str(), ok);
  }
  {
    auto c = b.view();
    auto v = static_cast<T>(77);
    auto const ok = utl::parse_arg(c, v, static_cast<T>(42));
    value(v, static_cast<T>(42), "parse_arg with default");
    rest(c, "parse_arg with default");
    if (!ref.unspecified) SEQ_CHECK(ok == okay, "%s: parse_arg of %s reports %d", name.c_str(), quote(s).c_str(), ok);
  }
  value(utl::parse<T>(b.view()), T{0}, "parse");
  value(utl::parse<T>(b.view(), static_cast<T>(41)), static_cast<T>(41), "parse with default");
  {
    auto c = b.view();
    auto v = static_cast<T>(77);
    auto& r = c >> v;
    SEQ_CHECK(&r == &c, ">> returns another text");
    value(v, T{0}, ">>");
    rest(c, ">>");
  }
  if (!ref.unspecified) {
    auto threw = false;
    auto v = T{};
    try { v = utl::parse_verify<T>(b.view()); } catch (std::runtime_error const&) { threw = true; }
    SEQ_CHECK(threw == !okay, "%s: parse_verify of %s %s", name.c_str(), quote(s).c_str(), threw ? "throws" : "does not throw");
    if (!threw) value(v, T{0}, "parse_verify");
  }
}

template <typename Fn>
void each_type(Fn&& fn) {
  switch (pick(8)) {
    case 0: fn.template operator()<std::int8_t>(); break;
    case 1: fn.template operator()<std::uint8_t>(); break;
    case 2: fn.template operator()<std::int16_t>(); break;
    case 3: fn.template operator()<std::uint16_t>(); break;
    case 4: fn.template operator()<std::int32_t>(); break;
    case 5: fn.template operator()<std::uint32_t>(); break;
    case 6: fn.template operator()<std::int64_t>(); break;
    case 7: fn.template operator()<std::uint64_t>(); break;
  }
}

void ints(int max, std::string_view alphabet) {
  each_type([&]<typename T>() { check_int<T>(seq::text(max, alphabet)); });
}

// around the limits of every type, with signs, leading zeros and what follows
void limits(int around) {
  each_type([&]<typename T>() {
    big base = 0;
    switch (pick(6)) {
      case 0: base = std::numeric_limits<T>::min(); break;
      case 1: base = std::numeric_limits<T>::max(); break;
      case 2: base = static_cast<big>(std::numeric_limits<T>::max()) / 10; break;
      case 3: base = static_cast<big>(std::numeric_limits<T>::max()) * 10; break;
      case 4: base = -static_cast<big>(std::numeric_limits<T>::max()) * 10; break;
      case 5: base = static_cast<big>(1) << (sizeof(T) * 8); break;
    }
    auto v = str(base + seq::range(-around, around));
    auto const z = pick(4);
    if (z != 0) v.insert(v[0] == '-' ? 1 : 0, z == 1 ? "0" : z == 2 ? "000000000000000000000000" : "+");
    v += seq::of<std::string>({"", " ", "x", ".5", "-", std::string("\0", 1), "999999999999999999999999999999"});
    check_int<T>(v);
  });
}

template <typename T>
void all_values(long lo, long hi, int parts) {
  auto const part = pick(parts);
  auto const w = (hi - lo) / parts + 1;
  auto const a = lo + part * w;
  auto const v = a + pick(static_cast<int>(w));
  if (v > hi) return;
  check_int<T>(std::to_string(v));
}

// ------------------------------------------------------------------ T06
struct fp_ref { bool whole = false, unspecified = false; };

fp_ref fp_form(std::string const& s) {
  fp_ref r;
  auto i = std::size_t{0};
  auto neg = false;
  if (i < s.size() && s[i] == '-') { neg = true; ++i; }
  if (i < s.size() && s[i] == '+') { r.unspecified = neg; ++i; }
  auto n = 0;
  while (i < s.size() && digit(s[i])) { ++i; ++n; }
  if (i < s.size() && s[i] == '.') {
    ++i;
    while (i < s.size() && digit(s[i])) { ++i; ++n; }
  }
  r.whole = i == s.size() && n != 0;
  return r;
}

template <typename T>
void check_fp(std::string const& s, char const* name) {
  auto const ref = fp_form(s);
  auto const b = block{s};
  auto const want = strtold(s.c_str(), nullptr);
  seq::note("%s from %s", name, quote(s).c_str());
  seq::op();
  if (ref.whole) seq::nontrivial();
  if (ref.unspecified) {
    T v{};
    auto c = b.view();
    utl::parse_arg(c, v);
    return;
  }
  auto const value = [&](T const got, char const* how) {
    if (!ref.whole || fabsl(want) > std::numeric_limits<T>::max() / 4) return;
    auto const tol = 4 * (static_cast<long double>(s.size()) + 4) * std::numeric_limits<T>::epsilon() * fabsl(want);
    auto const tiny = static_cast<long double>(std::numeric_limits<T>::min());
    SEQ_CHECK(fabsl(static_cast<long double>(got) - want) <= tol + tiny, "%s: %s of %s yields %.20g", name, how, quote(s).c_str(), static_cast<double>(got));
  };
  T v{77};
  auto c = b.view();
  auto const ok = utl::parse_arg(c, v);
  SEQ_CHECK(ok == ref.whole, "%s: parse_arg of %s reports %d", name, quote(s).c_str(), ok);
  SEQ_CHECK(c.len <= s.size() && (c.len == 0 || c.str + c.len == b.view().str + s.size()), "%s: %s left something outside the text", name, quote(s).c_str());
  value(v, "parse_arg");
  value(utl::parse<T>(b.view()), "parse");
  auto d = b.view();
  v = 77;
  d >> v;
  value(v, ">>");
  auto threw = false;
  try { v = utl::parse_verify<T>(b.view()); } catch (std::runtime_error const&) { threw = true; }
  SEQ_CHECK(threw == !ref.whole, "%s: parse_verify of %s %s", name, quote(s).c_str(), threw ? "throws" : "does not throw");
  if (!threw) value(v, "parse_verify");
}

void fp(std::string const& s) {
  if (seq::flip()) check_fp<float>(s, "float"); else check_fp<double>(s, "double");
}

void fps(int max, std::string_view alphabet) { fp(seq::text(max, alphabet)); }

void long_fps(int max_int, int max_frac) {
  auto const sign = seq::of<std::string>({"", "-", "+"});
  auto const pat = seq::of<std::string>({"9", "1", "12345678901234567890", "50", "05"});
  auto rep = [&](int n) { std::string r; while (static_cast<int>(r.size()) < n) r += pat; r.resize(static_cast<std::size_t>(n)); return r; };
  auto const n = pick(max_int + 1);
  auto s = sign + rep(n);
  if (seq::flip()) s += "." + rep(pick(max_frac + 1));
  if (pick(4) == 3) s += seq::of<std::string>({"x", ".", "-", "e5"});
  fp(s);
}

std::string lower(std::string s) {
  for (auto& c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c - 'A' + 'a');
  return s;
}

void check_bool(std::string const& s) {
  auto const b = block{s};
  auto const t = lower(s) == "true";
  auto const f = lower(s) == "false";
  seq::note("bool from %s", quote(s).c_str());
  seq::op();
  if (t || f) seq::nontrivial();
  auto const def = seq::flip();
  auto const other = s.empty() || (lower(s)[0] != 't' && lower(s)[0] != 'f');
  auto c = b.view();
  auto v = !def;
  auto const ok = utl::parse_arg(c, v, def);
  SEQ_CHECK(ok == (t || f), "parsing %s as bool reports %d", quote(s).c_str(), ok);
  SEQ_CHECK(c.len <= s.size(), "parsing %s leaves more than the text", quote(s).c_str());
  SEQ_CHECK(c.len == 0 || c.str + c.len == b.view().str + s.size(), "parsing %s leaves something outside the text", quote(s).c_str());
  if (t || f) SEQ_CHECK(v == t && c.len == 0, "%s parsed as %d, %zu characters left", quote(s).c_str(), v, c.len);
  if (other) SEQ_CHECK(v == def, "%s parsed as %d instead of the default", quote(s).c_str(), v);
  auto w = utl::parse<bool>(b.view());
  if (t || f || other) SEQ_CHECK(w == t, "%s parsed as %d", quote(s).c_str(), w);
  w = utl::parse<bool>(b.view(), def);
  if (t || f || other) SEQ_CHECK(w == (other ? def : t), "%s parsed as %d with default %d", quote(s).c_str(), w, def);
  auto d = b.view();
  d >> w;
  if (t || f || other) SEQ_CHECK(w == t, "%s extracted as %d", quote(s).c_str(), w);
  if (t || f) SEQ_CHECK(d.len == 0, "extracting %s leaves %zu characters", quote(s).c_str(), d.len);
  auto threw = false;
  try { w = utl::parse_verify<bool>(b.view()); } catch (std::runtime_error const&) { threw = true; }
  SEQ_CHECK(threw == !(t || f), "parse_verify of %s %s", quote(s).c_str(), threw ? "throws" : "does not throw");
  if (!threw) SEQ_CHECK(w == t, "%s parsed as %d", quote(s).c_str(), w);
}

// every spelling of the two words with one character replaced, dropped or added
void near_bools() {
  auto s = seq::of<std::string>({"true", "false"});
  for (auto& c : s) if (seq::flip()) c = static_cast<char>(c - 'a' + 'A');
  switch (pick(4)) {
    case 0: break;
    case 1: s[static_cast<std::size_t>(pick(static_cast<int>(s.size())))] = seq::of<char>({'x', '\0', ' ', '\xff'}); break;
    case 2: s.erase(static_cast<std::size_t>(pick(static_cast<int>(s.size()))), 1); break;
    case 3: s.insert(s.begin() + pick(static_cast<int>(s.size()) + 1), seq::of<char>({'e', '\0', ' ', 't'})); break;
  }
  check_bool(s);
}

void strings(int max) {
  auto const s = seq::text(max, std::string_view{"a\0/\xff \"", 6});
  auto const b = block{s};
  seq::note("string from %s", quote(s).c_str());
  seq::op();
  if (!s.empty()) seq::nontrivial();
  {
    auto c = b.view();
    std::string x = "old";
    utl::parse_arg(c, x);
    SEQ_CHECK(x == s, "string is %s instead of %s", quote(x).c_str(), quote(s).c_str());
    SEQ_CHECK(utl::parse<std::string>(b.view()) == s, "parse<string> of %s differs", quote(s).c_str());
    auto d = b.view();
    std::string y;
    d >> y;
    SEQ_CHECK(y == s, ">> string is %s instead of %s", quote(y).c_str(), quote(s).c_str());
  }
  {
    auto c = b.view();
    cstr x{"old"};
    utl::parse_arg(c, x);
    SEQ_CHECK(x.view() == s && (s.empty() || x.str == b.view().str), "view of %s differs", quote(s).c_str());
  }
  {
    auto c = b.view();
    cista::raw::generic_string x;
    utl::parse_arg(c, x);
    SEQ_CHECK(x.view() == s && (s.empty() || x.data() == b.view().str) && !x.owning(), "non-owning string of %s differs", quote(s).c_str());
  }
  {
    auto c = b.view();
    std::filesystem::path x{"old"};
    utl::parse_arg(c, x);
    SEQ_CHECK(x.native() == s, "path is %s instead of %s", quote(x.native()).c_str(), quote(s).c_str());
    SEQ_CHECK(utl::parse<std::filesystem::path>(b.view()).native() == s, "parse<path> of %s differs", quote(s).c_str());
  }
}
}  // namespace

namespace seq {
std::vector<config> configs(std::string const& p) {
  std::vector<config> v;
  if (p == "T05") {
    v.push_back({"all types, texts up to 5 bytes of {-,+,0,1,9,a}", [] { ints(5, "-+019a"); }, 0, 8});
    v.push_back({"all types, texts up to 3 bytes of {-,0,/,:,NUL,0xff,2}", [] { ints(3, std::string_view{"-0/:\0\xff" "2", 7}); }, 0, 4});
    v.push_back({"all types, around their limits", [] { limits(3); }, 0, 4});
    v.push_back({"every value of int8, uint8", [] { if (seq::flip()) all_values<std::int8_t>(-1000, 1000, 4); else all_values<std::uint8_t>(-1000, 1000, 4); }});
    v.push_back({"all types, texts up to 7 bytes of {-,+,0,1,9,a}", [] { ints(7, "-+019a"); }, 1, 8});
    v.push_back({"all types, 60 around their limits", [] { limits(60); }, 1, 8});
    v.push_back({"every value of int16", [] { all_values<std::int16_t>(-70000, 70000, 16); }, 0, 8});
    v.push_back({"every value of uint16", [] { all_values<std::uint16_t>(-70000, 140000, 16); }, 0, 8});
  }
  if (p == "T06") {
    v.push_back({"float and double, texts up to 6 bytes of {-,+,.,0,5,a}", [] { fps(6, "-+.05a"); }, 0, 8});
    v.push_back({"float and double, up to 40 digits and 30 decimals", [] { long_fps(40, 30); }, 0, 4});
    v.push_back({"bool, texts up to 5 bytes of {t,T,r,u,e,f,A,l,s,E}", [] { check_bool(seq::text(5, "tTruefAlsE")); }, 0, 8});
    v.push_back({"bool, spellings with one change", [] { near_bools(); }, 0, 2});
    v.push_back({"strings, texts up to 4 bytes", [] { strings(4); }});
    v.push_back({"float and double, texts up to 7 bytes of {-,+,.,0,5,a,9}", [] { fps(7, "-+.05a9"); }, 1, 8});
    v.push_back({"float and double, up to 300 digits and 60 decimals", [] { long_fps(300, 60); }, 1, 8});
    v.push_back({"strings, texts up to 6 bytes", [] { strings(6); }, 1, 8});
  }
  return v;
}
}  // namespace seq
