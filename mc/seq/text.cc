// String views: slicing (T01), comparison and search (T02), tokens and lines (T03).
#include "seq.h"
#include "utl/parser/cstr.h"
#include <limits>
#include <map>
#include <set>

using utl::cstr;
using seq::pick;

namespace {

// a view into the middle of a larger block: reading or reporting bytes outside shows
struct placed {
  explicit placed(std::string const& s, bool const exact_block) : e{exact_block ? s : "<<" + s + ">>"}, off{exact_block ? 0U : 2U}, s{s} {}
  cstr view() const { return {e.data() + off, s.size()}; }
  bool inside(cstr c) const { return c.len == 0 || (c.str >= e.data() + off && c.str + c.len <= e.data() + off + s.size()); }
  seq::exact e;
  std::size_t off;
  std::string s;
};

std::size_t pick_pos(std::size_t len) {
  auto const k = pick(static_cast<int>(len) + 6);
  if (k <= static_cast<int>(len) + 2) return static_cast<std::size_t>(k);
  switch (k - static_cast<int>(len)) {
    case 3: return std::numeric_limits<std::size_t>::max();
    case 4: return std::numeric_limits<std::size_t>::max() - 1;
    default: return static_cast<std::size_t>(std::numeric_limits<int>::max());
  }
}

void check_slice(placed const& p, cstr r, std::size_t from, std::size_t to, char const* what) {
  auto const n = p.s.size();
  seq::op();
  if (r.len != 0) SEQ_CHECK(p.inside(r), "%s leaves the text: offset %td length %zu of %zu", what, r.str - (p.e.data() + p.off), r.len, n);
  SEQ_CHECK(r.len <= n, "%s has length %zu of %zu", what, r.len, n);
  auto const f = std::min(from, n);
  auto const t = std::max(f, std::min(to, n));
  SEQ_CHECK(r.view() == std::string_view{p.s}.substr(f, t - f), "%s of %s yields %s instead of [%zu,%zu)", what, seq::quote(p.s).c_str(), seq::quote(r.view()).c_str(), f, t);
  if (n != 0) SEQ_CHECK(r.len == 0 || r.str == p.e.data() + p.off + f, "%s is a view at the wrong place", what);
}

std::size_t plus(std::size_t a, std::size_t b) { return a > std::numeric_limits<std::size_t>::max() - b ? std::numeric_limits<std::size_t>::max() : a + b; }

// long texts: lengths and positions around the ranges of small integers
std::vector<std::size_t> const long_sizes{65, 127, 128, 129, 255, 256, 257, 511, 513, 1025, 4097, 32767, 32768, 65535, 65536, 65537, 70001};

std::string pattern(std::size_t const n) {
  std::string s(n, 'a');
  auto x = 12345U;
  for (auto& c : s) { x = x * 1103515245U + 12345U; c = static_cast<char>('a' + (x >> 16U) % 23U); }
  return s;
}

std::vector<std::size_t> positions(std::size_t const n) {
  std::vector<std::size_t> v{0, 1};
  for (auto const x : {127UL, 128UL, 255UL, 256UL, 257UL, 32767UL, 32768UL, 65535UL, 65536UL, 65537UL, n / 2, n - 2, n - 1}) {
    if (x < n) v.push_back(x);
  }
  return v;
}

std::size_t pick_far(std::size_t const n) {
  auto v = positions(n);
  for (auto const x : {n, n + 1, n + 65536, std::numeric_limits<std::size_t>::max()}) v.push_back(x);
  return seq::of(v);
}

template <typename Pick>
void slicing_of(std::string const& s, Pick pick_pos) {
  placed const p{s, seq::flip()};
  auto const c = p.view();
  auto const how = pick(5);
  auto const a = pick_pos(s.size());
  auto const b = how == 2 ? 0 : pick_pos(s.size());
  seq::note("text %s how=%d a=%zu b=%zu", seq::quote(s).c_str(), how, a, b);
  if (a > s.size() || b > s.size() || b < a) seq::nontrivial();
  switch (how) {
    case 0: check_slice(p, c.substr(a, utl::size{b}), a, plus(a, b), "substr(position, size)"); break;
    case 1: check_slice(p, c.substr(a, b), a, b, "substr(begin, end)"); break;
    case 2: check_slice(p, c.substr(a), a, s.size(), "substr(begin)"); break;
    case 3: check_slice(p, c.substr(utl::field{a, b}), a, b == static_cast<std::size_t>(utl::field::MAX_SIZE) ? s.size() : plus(a, b), "substr(field)"); break;
    case 4: {  // chained
      auto const r1 = c.substr(a, b);
      auto const f = std::min(a, s.size());
      auto const t = std::max(f, std::min(b, s.size()));
      auto const x = pick_pos(r1.len);
      check_slice(p, r1.substr(x), std::min(plus(f, x), t), t, "substr of substr");
      break;
    }
  }
}

void slicing(int max) { slicing_of(seq::text(max, "ab"), pick_pos); }
void slicing_long() { slicing_of(pattern(seq::of(long_sizes)), pick_far); }

void trimming_of(std::string const& s) {
  placed const p{s, seq::flip()};
  auto const c = p.view();
  seq::note("text %s", seq::quote(s).c_str());
  auto const sp = [](char x) { return x == ' ' || x == '\n'; };
  auto f = std::size_t{0};
  while (f < s.size() && sp(s[f])) ++f;
  auto t = s.size();
  while (t > 0 && sp(s[t - 1])) --t;
  if (f != 0 || t != s.size()) seq::nontrivial();
  check_slice(p, c.skip_whitespace_front(), f, s.size(), "skip_whitespace_front");
  check_slice(p, c.skip_whitespace_back(), 0, t, "skip_whitespace_back");
  check_slice(p, c.trim(), f, std::max(f, t), "trim");
  check_slice(p, utl::strip_cr(c), 0, !s.empty() && s.back() == '\r' ? s.size() - 1 : s.size(), "strip_cr");
  check_slice(p, utl::strip_cr(cstr{}), 0, 0, "strip_cr of null");
}

void trimming(int max) { trimming_of(seq::text(max, " \n\ra\t")); }

void trimming_long() {
  std::vector<std::size_t> const n{0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1025, 65535, 65536, 70001};
  auto const space = pick(3);
  auto spaces = [&](std::size_t const k) {
    std::string r(k, space == 1 ? '\n' : ' ');
    if (space == 2) for (auto i = std::size_t{0}; i < k; i += 3) r[i] = '\n';
    return r;
  };
  auto const body = pick(3);
  trimming_of(spaces(seq::of(n)) + (body == 0 ? std::string{} : body == 1 ? std::string{"a b\r"} : "a" + spaces(300) + "\t") + spaces(seq::of(n)));
}

// ------------------------------------------------------------------ T02
int sign(int x) { return (x > 0) - (x < 0); }

void compare_of(std::string const& a, std::string const& b) {
  placed const pa{a, true}, pb{b, true};
  auto const null_a = a.empty() && seq::flip();
  auto const null_b = b.empty() && seq::flip();
  auto const x = null_a ? cstr{} : pa.view();
  auto const y = null_b ? cstr{} : pb.view();
  seq::note("%s vs %s", seq::quote(a).c_str(), seq::quote(b).c_str());
  if (a.size() == b.size() && a != b) seq::nontrivial();
  seq::op();
  SEQ_CHECK((x == y) == (a == b), "%s == %s is %d", seq::quote(a).c_str(), seq::quote(b).c_str(), x == y);
  SEQ_CHECK((x != y) == (a != b), "%s != %s is %d", seq::quote(a).c_str(), seq::quote(b).c_str(), x != y);
  // bytes >= 0x80 may be ordered as signed or unsigned char, but only one of them
  auto const u = sign(std::string_view{a}.compare(b)) < 0;
  auto const s = std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](char l, char r) { return static_cast<signed char>(l) < static_cast<signed char>(r); });
  auto const lt = x < y;
  static auto const high_first = [] { return cstr{"\xC0"} < cstr{"A"}; }();
  SEQ_CHECK(lt == (high_first ? s : u), "%s < %s is %d", seq::quote(a).c_str(), seq::quote(b).c_str(), lt);
  SEQ_CHECK(!(lt && y < x), "ordering is not antisymmetric");
  SEQ_CHECK(x.starts_with(y) == (a.compare(0, std::min(a.size(), b.size()), b) == 0 && a.size() >= b.size()), "%s starts_with %s is %d", seq::quote(a).c_str(), seq::quote(b).c_str(), x.starts_with(y));
  SEQ_CHECK(x.contains(y) == (a.find(b) != std::string::npos), "%s contains %s is %d", seq::quote(a).c_str(), seq::quote(b).c_str(), x.contains(y));
  if (!(a.empty() && b.empty())) {
    auto const pos = a.find(b);
    auto h = x;
    auto const got = h.substr_offset(y);
    SEQ_CHECK(got == (pos == std::string::npos ? std::numeric_limits<std::size_t>::max() : pos), "offset of %s in %s is %zu", seq::quote(b).c_str(), seq::quote(a).c_str(), got);
  }
}

void compare(int max, std::string_view alphabet) {
  auto const a = seq::text(max, alphabet);
  compare_of(a, seq::text(max, alphabet));
}

void compare_long() {
  auto const n = seq::of(long_sizes);
  auto const a = pattern(n);
  auto const swap = seq::flip();
  std::string b;
  switch (pick(4)) {
    case 0: b = a; break;
    case 1: {  // one byte differs
      b = a;
      b[seq::of(positions(n))] = seq::of<char>({'A', 'z', '\0'});
      break;
    }
    case 2: b = a + a.substr(0, seq::of<std::size_t>({1, 255, 256, 65536, 131072})); break;
    case 3: b = a + pattern(seq::of<std::size_t>({1, 256, 65536})) + "x"; break;
  }
  compare_of(swap ? b : a, swap ? a : b);
}

// needles in long texts
void search_long() {
  auto const n = seq::of(long_sizes);
  auto s = pattern(n);
  std::string needle = "XYZ";
  switch (pick(4)) {
    case 0: break;  // nowhere
    case 1: s.insert(seq::of(positions(n)), needle); break;
    case 2: s.insert(seq::of(positions(n)), "XYXY"); s += seq::flip() ? "XYZ" : "XY"; break;
    case 3: {
      auto const at = seq::of(positions(n));
      needle = s.substr(at, seq::of<std::size_t>({3, 64, 256, 300, 65536}));
      if (seq::flip()) needle += '!';
      break;
    }
  }
  compare_of(s, needle);
}

void convert(int max) {
  auto const s = seq::text(max, std::string_view{"a\0\xff", 3});
  auto const how = pick(7);
  seq::note("%s constructed by way %d", seq::quote(s).c_str(), how);
  auto const e = seq::exact{s};
  auto const zt = seq::exact{s + '\0'};
  auto const str = std::string{s};
  auto want = s;
  cstr c;
  switch (how) {
    case 0: c = cstr{str}; SEQ_CHECK(c.str == str.data(), "not a view"); break;
    case 1: c = cstr{e.view()}; break;
    case 2: c = cstr{zt.data()}; want = s.substr(0, s.find('\0')); break;
    case 3: c = cstr{e.data(), e.size()}; break;
    case 4: c = cstr{reinterpret_cast<unsigned char const*>(e.data()), e.size()}; break;
    case 5: c = cstr{e.data(), e.data() + e.size()}; break;
    case 6: c = cstr{nullptr, s.size()}; want.clear(); break;
  }
  seq::op();
  SEQ_CHECK(c.length() == want.size() && c.view() == want, "view shows %s instead of %s", seq::quote(c.view()).c_str(), seq::quote(want).c_str());
  SEQ_CHECK(c.to_str() == want, "copy is %s instead of %s", seq::quote(c.to_str()).c_str(), seq::quote(want).c_str());
  SEQ_CHECK(std::string(c.begin(), c.end()) == want && std::string(begin(c), end(c)) == want, "iteration differs");
  auto d = c;
  SEQ_CHECK(static_cast<std::string_view>(d) == want, "conversion differs");
  SEQ_CHECK(c.empty() == want.empty(), "empty() is wrong");
  SEQ_CHECK(c.valid() == !want.empty() && static_cast<bool>(c) == !want.empty(), "valid() is wrong");
  for (auto i = 0U; i != want.size(); ++i) SEQ_CHECK(c[i] == want[i], "byte %u differs", i);
  if (how == 6) SEQ_CHECK(c.str == nullptr && c.data() == nullptr && c.c_str() == nullptr, "null view is not null");
  cstr as;
  as.assign(e.data(), e.size());
  SEQ_CHECK(as.view() == s, "assign differs");
  // stepping inside the text
  auto n = static_cast<std::size_t>(pick(static_cast<int>(want.size()) + 1));
  SEQ_CHECK((c + n).view() == std::string_view{want}.substr(n), "c + %zu differs", n);
  auto f = c;
  f += n;
  SEQ_CHECK(f.view() == std::string_view{want}.substr(n), "c += %zu differs", n);
  auto g = c;
  for (auto i = 0U; i != n; ++i) ++g;
  SEQ_CHECK(g.view() == std::string_view{want}.substr(n), "%zu times ++c differs", n);
  SEQ_CHECK(c.view() == want, "view changed by copies");
}

void until_long() {
  auto const n = seq::of(long_sizes);
  auto s = pattern(n);
  auto const at = pick_far(n);
  if (at < n) s[at] = ',';
  if (seq::flip()) s += ',';
  placed const p{s, seq::flip()};
  auto const pos = s.find(',');
  seq::nontrivial();
  check_slice(p, utl::get_until(p.view(), ','), 0, pos == std::string::npos ? s.size() : pos, "get_until");
  // construction and stepping
  auto c = p.view();
  auto const z = seq::exact{s + '\0'};
  SEQ_CHECK(cstr{z.data()}.view() == s && cstr{s}.view() == s && c.to_str() == s && c.length() == s.size(), "view of %zu bytes differs", s.size());
  auto const k = std::min(at, s.size());
  SEQ_CHECK((c + k).view() == std::string_view{s}.substr(k), "c + %zu differs", k);
  auto f = c;
  f += k;
  SEQ_CHECK(f.view() == std::string_view{s}.substr(k), "c += %zu differs", k);
  auto g = c;
  for (auto i = std::size_t{0}; i != k; ++i) ++g;
  SEQ_CHECK(g.view() == std::string_view{s}.substr(k), "%zu times ++c differs", k);
  for (auto i = std::size_t{0}; i != s.size(); ++i) SEQ_CHECK(c[i] == s[i], "byte %zu differs", i);
  cstr as;
  as.assign(z.data(), s.size());
  SEQ_CHECK(as.view() == s && static_cast<std::string_view>(as) == s, "assign differs");
}

void until(int max) {
  auto const s = seq::text(max, std::string_view{"a,\0\n", 4});
  auto const d = seq::of<char>({',', '\n', '\0', 'a', 'x'});
  placed const p{s, seq::flip()};
  seq::note("%s until %d", seq::quote(s).c_str(), d);
  auto const pos = s.find(d);
  if (pos != std::string::npos) seq::nontrivial();
  check_slice(p, utl::get_until(p.view(), d), 0, pos == std::string::npos ? s.size() : pos, "get_until");
}

// ------------------------------------------------------------------ T03
std::vector<std::string> tokens_of(std::string const& s, char sep) {
  std::vector<std::string> v;
  std::string cur;
  for (auto c : s) {
    if (c == sep) { v.push_back(cur); cur.clear(); } else cur += c;
  }
  if (!cur.empty()) v.push_back(cur);
  return v;
}

std::vector<std::string> lines_of(std::string const& s) {
  auto v = tokens_of(s, '\n');
  for (auto& l : v) if (!l.empty() && l.back() == '\r') l.pop_back();
  return v;
}

using seq::show;

void tokens_of_text(std::string const& s, char const sep) {
  placed const p{s, seq::flip()};
  auto const want = tokens_of(s, sep);
  seq::note("%s split at %d: %s", seq::quote(s).c_str(), sep, show(want).c_str());
  if (want.size() > 1) seq::nontrivial();
  std::vector<std::string> got;
  utl::for_each_token(p.view(), sep, [&](cstr t) { SEQ_CHECK(p.inside(t), "token outside the text"); got.push_back(t.to_str()); SEQ_CHECK(got.size() <= s.size() + 1, "too many tokens"); });
  SEQ_CHECK(got == want, "tokens of %s are %s instead of %s", seq::quote(s).c_str(), show(got).c_str(), show(want).c_str());
  got.clear();
  auto no = 0;
  utl::for_each_token_numbered(p.view(), sep, [&](cstr t, int n) { SEQ_CHECK(n == ++no, "token number %d instead of %d", n, no); got.push_back(t.to_str()); });
  SEQ_CHECK(got == want, "numbered tokens differ");
  // breaking off after the k-th token
  auto const k = want.size() < 50 ? static_cast<std::size_t>(pick(static_cast<int>(want.size()) + 1)) : std::min(pick_far(want.size()), want.size());
  got.clear();
  utl::for_each_token(p.view(), sep, [&](cstr t) {
    got.push_back(t.to_str());
    return got.size() > k ? utl::continue_t::kBreak : utl::continue_t::kContinue;
  });
  auto cut = want;
  if (cut.size() > k + 1) cut.resize(k + 1);
  SEQ_CHECK(got == cut, "tokens up to a break are %s instead of %s", show(got).c_str(), show(cut).c_str());
}

void tokens(int max) {
  auto const s = seq::text(max, std::string_view{"a,\0;", 4});
  tokens_of_text(s, seq::of<char>({',', '\0', ';'}));
}

// many parts, long parts
std::string many_parts(char const sep) {
  auto const n = seq::of(long_sizes);
  auto const sort = pick(4);
  std::string s;
  if (sort == 3) {  // one part of n bytes between two short ones
    s = "ab" + std::string(1, sep) + pattern(n);
    if (sep == '\n' && seq::flip()) s += '\r';
    s += sep;
    s += "c";
  } else {
    for (auto i = std::size_t{0}; i != n; ++i) {
      if (i != 0) s += sep;
      if (sort == 1 || (sort == 2 && i % 7 != 3)) s += static_cast<char>('a' + i % 26);
      if (sort == 2 && i % 5 == 0) s += "b\r";
    }
  }
  if (seq::flip()) s += sep;
  return s;
}

void lines_of_text(std::string const& s) {
  placed const p{s, seq::flip()};
  auto const want = lines_of(s);
  seq::note("%s lines %s", seq::quote(s).c_str(), show(want).c_str());
  if (want.size() > 1) seq::nontrivial();
  auto const c = p.view();
  auto bad = [&](char const* what, std::vector<std::string> const& got) { SEQ_CHECK(got == want, "%s of %s: %s instead of %s", what, seq::quote(s).c_str(), show(got).c_str(), show(want).c_str()); };
  std::vector<std::string> got;
  utl::for_each_line(c, [&](cstr l) { SEQ_CHECK(p.inside(l), "line outside the text"); got.push_back(l.to_str()); });
  bad("for_each_line", got);
  got.clear();
  auto no = 0U;
  utl::for_each_line_numbered(c, [&](cstr l, unsigned n) { SEQ_CHECK(n == ++no, "line number %u instead of %u", n, no); got.push_back(l.to_str()); });
  bad("for_each_line_numbered", got);
  got.clear();
  utl::lines const ls{c};
  for (auto const& l : ls) {
    SEQ_CHECK(p.inside(l), "line outside the text");
    got.push_back(l.to_str());
    SEQ_CHECK(got.size() <= s.size() + 1, "line range does not end");
  }
  bad("lines", got);
  if (!want.empty()) SEQ_CHECK(utl::get_line(c).view() == want[0], "first line is %s", seq::quote(utl::get_line(c).view()).c_str());
  else SEQ_CHECK(utl::get_line(c).view().empty(), "first line of nothing");
}

void lines(int max, std::string_view alphabet) { lines_of_text(seq::text(max, alphabet)); }

// iterator walks: any sequence of ++, post ++, += n, + n against the index
void line_walk(int max, int steps) {
  auto const s = seq::text(max, "a\n\r");
  placed const p{s, true};
  auto const want = lines_of(s);
  utl::lines const ls{p.view()};
  auto it = begin(ls);
  auto const last = end(ls);
  auto i = std::size_t{0};
  auto at = [&](utl::line_iterator const& x, std::size_t k) {
    SEQ_CHECK((x == last) == (k == want.size()) && (x != last) == (k != want.size()), "iterator at line %zu of %zu of %s: at end is %d", k, want.size(), seq::quote(s).c_str(), x == last);
    if (k != want.size()) SEQ_CHECK((*x).view() == want[k], "iterator at line %zu of %s shows %s", k, seq::quote(s).c_str(), seq::quote((*x).view()).c_str());
  };
  at(it, i);
  for (auto k = 0; k != steps; ++k) {
    auto const rest = want.size() - i;
    if (rest == 0) break;
    seq::op();
    switch (pick(4)) {
      case 0: { auto& r = ++it; SEQ_CHECK(&r == &it, "++ returns something else"); ++i; break; }
      case 1: { auto const old = it++; at(old, i); ++i; break; }
      case 2: { auto const n = static_cast<std::size_t>(pick(static_cast<int>(rest) + 1)); it += static_cast<std::ptrdiff_t>(n); i += n; if (n > 1) seq::nontrivial(); break; }
      case 3: { auto const n = static_cast<std::size_t>(pick(static_cast<int>(rest) + 1)); auto const r = it + static_cast<std::ptrdiff_t>(n); at(r, i + n); if (n > 0) seq::nontrivial(); break; }
    }
    at(it, i);
  }
  seq::note("%s ends at line %zu", seq::quote(s).c_str(), i);
}

// steps over many lines at once
void line_jumps() {
  auto const n = seq::of<std::size_t>({129, 257, 1025, 32769, 65537, 70001});
  std::string s;
  for (auto i = std::size_t{0}; i != n; ++i) { s += std::to_string(i); s += i % 3 == 0 ? "\r\n" : "\n"; }
  utl::lines const ls{cstr{s}};
  auto it = begin(ls);
  auto const last = end(ls);
  auto i = std::size_t{0};
  auto at = [&](utl::line_iterator const& x, std::size_t const k) {
    SEQ_CHECK((x == last) == (k == n) && (x != last) == (k != n), "iterator at line %zu of %zu: at end is %d", k, n, x == last);
    if (k != n) SEQ_CHECK((*x).view() == std::to_string(k), "iterator at line %zu of %zu shows %s", k, n, seq::quote((*x).view()).c_str());
  };
  for (auto k = 0; k != 2 && i != n; ++k) {
    auto d = k == 0 ? pick_far(n) : seq::of<std::size_t>({1, 129, 256, 65536});
    d = std::min(d, n - i);
    seq::op();
    seq::nontrivial();
    if (seq::flip()) { auto const r = it + static_cast<std::ptrdiff_t>(d); at(r, i + d); it = r; } else it += static_cast<std::ptrdiff_t>(d);
    i += d;
    at(it, i);
    if (i != n && seq::flip()) { ++it; ++i; at(it, i); }
  }
  seq::note("%zu lines, ends at line %zu", n, i);
}

void skip_many() {
  auto const n = seq::of(long_sizes);
  auto const k = std::min(pick_far(n), n);
  std::string s;
  auto off = std::size_t{0};
  for (auto i = std::size_t{0}; i != n; ++i) {
    if (i == k) off = s.size();
    s += i < k ? "#\r\n" : "x\n";
  }
  if (k == n) off = s.size();
  placed const p{s, true};
  auto seen = std::size_t{0};
  auto const rest = utl::skip_lines(p.view(), [&](cstr l) { ++seen; return l.view() == "#"; });
  SEQ_CHECK(seen == std::min(n, k + 1), "predicate called %zu times for %zu of %zu lines", seen, k, n);
  check_slice(p, rest, off, s.size(), "skip_lines");
  seq::nontrivial();
}

void skipping(int max) {
  auto const s = seq::text(max, "a#\n\r");
  placed const p{s, seq::flip()};
  auto const mode = pick(3);
  auto const k = mode == 0 ? pick(4) : 0;
  auto const raw = tokens_of(s, '\n');
  auto const want = lines_of(s);
  auto skip = [&](std::string const& l, std::size_t i) { return mode == 0 ? i < static_cast<std::size_t>(k) : mode == 1 ? !l.empty() && l[0] == '#' : true; };
  auto off = std::size_t{0};
  auto calls = std::size_t{0};
  for (auto i = std::size_t{0}; i != want.size(); ++i) {
    ++calls;
    if (!skip(want[i], i)) break;
    off += raw[i].size() + 1;
    off = std::min(off, s.size());
  }
  seq::note("%s skip mode %d k=%d: rest from %zu", seq::quote(s).c_str(), mode, k, off);
  if (off != 0) seq::nontrivial();
  auto seen = std::size_t{0};
  auto const rest = utl::skip_lines(p.view(), [&](cstr l) {
    SEQ_CHECK(seen < want.size() && l.view() == want[seen], "line %zu of %s presented as %s", seen, seq::quote(s).c_str(), seq::quote(l.view()).c_str());
    auto const i = seen++;
    return skip(want[i], i);
  });
  SEQ_CHECK(seen == calls, "predicate called %zu instead of %zu times", seen, calls);
  check_slice(p, rest, off, s.size(), "skip_lines");
}
}  // namespace

namespace seq {
std::vector<config> configs(std::string const& p) {
  std::vector<config> v;
  if (p == "T01") {
    v.push_back({"substr, texts up to 4 bytes", [] { slicing(4); }});
    v.push_back({"trim, texts up to 6 bytes", [] { trimming(6); }});
    v.push_back({"substr, long texts", [] { slicing_long(); }, 0, 4});
    v.push_back({"trim, long runs of white space", [] { trimming_long(); }, 0, 2});
    v.push_back({"substr, texts up to 7 bytes", [] { slicing(7); }, 1, 4});
    v.push_back({"trim, texts up to 9 bytes", [] { trimming(9); }, 1, 8});
  }
  if (p == "T02") {
    v.push_back({"compare and search, up to 4 bytes of {a,b,NUL}", [] { compare(4, std::string_view{"ab\0", 3}); }});
    v.push_back({"compare and search, up to 3 bytes of {A,0x7f,0x80,0xff,NUL}", [] { compare(3, std::string_view{"A\x7f\x80\xff\0", 5}); }});
    v.push_back({"construct and convert, up to 4 bytes", [] { convert(4); }});
    v.push_back({"get_until, up to 5 bytes", [] { until(5); }});
    v.push_back({"compare, long texts", [] { compare_long(); }});
    v.push_back({"search, long texts", [] { search_long(); }});
    v.push_back({"get_until, construct and step, long texts", [] { until_long(); }});
    v.push_back({"compare and search, up to 6 bytes of {a,b}", [] { compare(6, "ab"); }});
    v.push_back({"compare and search, up to 6 bytes of {a,b,NUL}", [] { compare(6, std::string_view{"ab\0", 3}); }, 1, 8});
    v.push_back({"compare and search, up to 8 bytes of {a,b}", [] { compare(8, "ab"); }, 1, 8});
    v.push_back({"get_until, up to 9 bytes", [] { until(9); }, 1, 4});
  }
  if (p == "T03") {
    v.push_back({"tokens, up to 5 bytes", [] { tokens(5); }});
    v.push_back({"lines, up to 8 bytes of {a,LF,CR}", [] { lines(8, "a\n\r"); }, 0, 2});
    v.push_back({"lines, up to 5 bytes of {a,LF,CR,NUL,space}", [] { lines(5, std::string_view{"a\n\r\0 ", 5}); }});
    v.push_back({"line iterator walks, up to 5 bytes, 3 steps", [] { line_walk(5, 3); }, 0, 2});
    v.push_back({"skip_lines, up to 6 bytes", [] { skipping(6); }, 0, 2});
    v.push_back({"tokens, many or long ones", [] { tokens_of_text(many_parts(','), ','); }, 0, 4});
    v.push_back({"lines, many or long ones", [] { lines_of_text(many_parts('\n')); }});
    v.push_back({"line iterator, steps over many lines", [] { line_jumps(); }, 0, 4});
    v.push_back({"skip_lines, many lines", [] { skip_many(); }});
    v.push_back({"tokens, up to 8 bytes", [] { tokens(8); }, 1, 8});
    v.push_back({"lines, up to 11 bytes of {a,LF,CR}", [] { lines(11, "a\n\r"); }, 1, 8});
    v.push_back({"line iterator walks, up to 7 bytes, 4 steps", [] { line_walk(7, 4); }, 1, 8});
    v.push_back({"skip_lines, up to 9 bytes", [] { skipping(9); }, 1, 8});
  }
  return v;
}
}  // namespace seq
