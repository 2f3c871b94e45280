// CSV tables (T07), CSV ranges (T08), malformed input (T09), split (T11).
#include "seq.h"
#include <cmath>
#include <optional>
#include <stdexcept>
#include <tuple>
#include "utl/parser/buf_reader.h"
#include "utl/parser/csv.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/line_range.h"
#include "utl/parser/mmap_reader.h"
#include "utl/parser/split.h"
#include "utl/pipes.h"

using seq::pick;
using seq::quote;
using utl::cstr;

namespace {
struct cell { std::string text, value; };  // as written, as meant

std::vector<cell> const INTS{{"0", "0"}, {"-5", "-5"}, {"\"12\"", "12"}};
std::vector<cell> const BOOLS{{"true", "1"}, {"FALSE", "0"}, {"\"True\"", "1"}};
std::vector<cell> const DOUBLES{{"1.5", "1.5"}, {"-2", "-2"}, {"\"0.25\"", "0.25"}};
std::vector<cell> VIEWS(char const sep) { return {{"x y", "x y"}, {"", ""}, {std::string{"\"p"} + sep + "q\"", std::string{"p"} + sep + "q"}, {"\"\"", ""}}; }
std::vector<cell> STRINGS(char const sep) {
  auto v = VIEWS(sep);
  v.push_back({"\"\"\"\"", "\""});
  v.push_back({"\"a\"\"b\"", "a\"b"});
  v.push_back({std::string{"\"\"\"s\"\""} + sep + " \"", std::string{"\"s\""} + sep + " "});
  return v;
}
std::vector<cell> OTHER(char const sep) { return {{"z", ""}, {std::string{"\"1"} + sep + "\"\"\"", ""}, {"", ""}}; }

std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.6g", d); return b; }
std::string show(int v) { return std::to_string(v); }
std::string show(bool v) { return v ? "1" : "0"; }
std::string show(double v) { return num(v == 0 ? 0 : v); }
std::string show(std::string const& v) { return v; }
std::string show(cstr v) { return v.to_str(); }
std::string show(cista::raw::generic_string const& v) { return v.str(); }

using row = std::vector<std::string>;
std::string show_row(row const& r) { std::string s = "("; for (auto const& x : r) s += quote(x) + " "; return s + ")"; }
std::string show_rows(std::vector<row> const& v) { std::string s; for (auto const& r : v) s += show_row(r); return s; }

template <typename... Ts>
row flat(std::tuple<Ts...> const& t) {
  return std::apply([](auto const&... x) { return row{show(x)...}; }, t);
}

enum kind { INT, STR, VIEW, DBL, BOOL };

struct table {
  std::string text;
  std::vector<row> want;  // requested columns; absent ones are "-"
  int columns = 0;
};

// layouts over the requested columns (0..n-1) and two others (8, 9)
std::vector<std::vector<int>> const LAYOUTS2{{0, 1}, {1, 0}, {8, 0, 1}, {1, 8, 0}, {0, 1, 8}, {8, 1, 9, 0}, {0}, {1}, {8, 1}, {0, 8}, {8}, {0, 8, 9}};
std::vector<std::vector<int>> const LAYOUTS3{{0, 1, 2}, {2, 1, 0}, {1, 8, 2, 0}, {2, 0}, {8, 1}, {0, 2, 8, 1}};

struct options { int max_rows = 2; bool blank_lines = false, bom = false; };

table make(std::vector<kind> const& kinds, char const sep, options const o) {
  static char const* const NAMES[] = {"A", "B", "C"};
  table t;
  auto const& layout = seq::of(kinds.size() == 2 ? LAYOUTS2 : LAYOUTS3);
  auto const eol = std::string{seq::flip() ? "\r\n" : "\n"};
  auto const final_eol = seq::flip();
  auto const quoted_header = seq::flip();
  if (o.bom && seq::flip()) t.text += "\xEF\xBB\xBF";
  t.columns = static_cast<int>(layout.size());
  for (auto i = std::size_t{0}; i != layout.size(); ++i) {
    if (i) t.text += sep;
    auto const name = layout[i] < 8 ? std::string{NAMES[layout[i]]} : layout[i] == 8 ? std::string{"AB"} : std::string{"\"B"} + sep + "\"";
    t.text += quoted_header && name[0] != '"' ? "\"" + name + "\"" : name;
  }
  auto const rows = pick(o.max_rows + 1);
  auto blank = [&] { if (o.blank_lines && pick(2)) t.text += eol; };
  for (auto r = 0; r != rows; ++r) {
    t.text += eol;
    blank();
    row want(kinds.size(), "-");
    std::string line;
    for (auto i = std::size_t{0}; i != layout.size(); ++i) {
      if (i) line += sep;
      cell c;
      if (layout[i] >= 8) c = r == 0 ? seq::of(OTHER(sep)) : OTHER(sep)[0];
      else {
        switch (kinds[static_cast<std::size_t>(layout[i])]) {
          case INT: c = seq::of(INTS); break;
          case BOOL: c = seq::of(BOOLS); break;
          case DBL: c = seq::of(DOUBLES); break;
          case VIEW: c = seq::of(VIEWS(sep)); break;
          case STR: c = seq::of(STRINGS(sep)); break;
        }
        want[static_cast<std::size_t>(layout[i])] = c.value;
      }
      line += c.text;
    }
    if (line.empty()) line = "\"\"";  // an empty line would be no row
    t.text += line;
    t.want.push_back(want);
  }
  if (final_eol) { t.text += eol; blank(); }
  return t;
}

row with_defaults(row r, row const& def) {
  for (auto i = std::size_t{0}; i != r.size(); ++i) if (r[i] == "-") r[i] = def[i];
  return r;
}
row zero_row(std::vector<kind> const& k) {
  row r;
  for (auto const x : k) r.push_back(x == INT || x == BOOL || x == DBL ? "0" : "");
  return r;
}

void compare(std::vector<row> const& got, std::vector<row> want, row const& def, std::string const& text, char const* what) {
  for (auto& r : want) r = with_defaults(r, def);
  SEQ_CHECK(got == want, "%s of %s yields %s instead of %s", what, quote(text).c_str(), show_rows(got).c_str(), show_rows(want).c_str());
}

// a cell of free content, written plainly (if it can be) or in quotes
std::string const CONTENT_BYTES = "a\" \xFF";
std::string content(int const max_len, char const sep, bool const quotes = true) {
  std::string v;
  auto const n = pick(max_len + 1);
  for (auto i = 0; i != n; ++i) {
    auto const k = pick(static_cast<int>(CONTENT_BYTES.size()) + 1);
    v += k == static_cast<int>(CONTENT_BYTES.size()) ? sep : CONTENT_BYTES[static_cast<std::size_t>(k)];
    if (!quotes && v.back() == '"') v.back() = '\'';
  }
  return v;
}
std::string written(std::string const& v, char const sep) {
  if (v.find(sep) == std::string::npos && v.find('"') == std::string::npos && !seq::flip()) return v;
  std::string r = "\"";
  for (auto const c : v) r += c == '"' ? "\"\"" : std::string(1, c);
  return r + "\"";
}

// ---- large: long cells, many rows, many columns
std::vector<std::size_t> const large{15, 16, 17, 22, 23, 31, 32, 63, 64, 127, 128, 255, 256, 257, 300, 1025, 32768, 65535, 65536, 65537, 70001};
std::string pattern(std::size_t const n) {
  std::string s(n, 'a');
  for (auto i = std::size_t{0}; i != n; ++i) s[i] = static_cast<char>('a' + (i * 7 + i / 256) % 26);
  return s;
}
std::vector<std::size_t> positions(std::size_t const n) {
  std::vector<std::size_t> v{0};
  for (auto const x : {1UL, 127UL, 128UL, 255UL, 256UL, 257UL, 32767UL, 65535UL, 65536UL, n / 2, n - 1}) if (x > v.back() && x < n) v.push_back(x);
  return v;
}
// content and how it is written
cell long_cell(char const sep, bool const quotes = true) {
  auto v = pattern(seq::of(large));
  switch (pick(quotes ? 5 : 3)) {
    case 0: return {v, v};
    case 1: return {"\"" + v + "\"", v};
    case 2: v[seq::of(positions(v.size()))] = sep; return {"\"" + v + "\"", v};
    case 3: v[seq::of(positions(v.size()))] = '"'; break;
    default: for (auto i = std::size_t{0}; i < v.size(); i += 3) v[i] = '"';
  }
  std::string w = "\"";
  for (auto const c : v) w += c == '"' ? std::string{"\"\""} : std::string(1, c);
  return {w + "\"", v};
}

// columns A (int) and B (text)
table big(char const sep, bool const blank_lines) {
  table t;
  auto const eol = std::string{seq::flip() ? "\r\n" : "\n"};
  auto const final_eol = seq::flip();
  switch (pick(blank_lines ? 4 : 3)) {
    case 0: {  // one long cell
      auto const c = long_cell(sep);
      auto const first = seq::flip();
      t.text = (first ? std::string{"B"} + sep + "A" : std::string{"A"} + sep + "B") + eol + (first ? c.text + sep + "17" : "17" + (sep + c.text)) + eol + (first ? std::string{"x"} + sep + "18" : std::string{"18"} + sep + "x");
      t.want = {{"17", c.value}, {"18", "x"}};
      break;
    }
    case 1: {  // many rows
      auto const n = seq::of(large);
      t.text = std::string{"A"} + sep + "B";
      for (auto i = std::size_t{0}; i != n; ++i) {
        auto const k = std::to_string(i);
        t.text += eol + k + sep + "r" + k;
        t.want.push_back({k, "r" + k});
      }
      break;
    }
    case 2: {  // many columns
      auto const n = seq::of<std::size_t>({15, 16, 17, 31, 32, 33, 62, 63, 64});
      auto const a = seq::of<std::size_t>({0, 1, 14, 15, 16, 30, 31, 32, 61, 62, 63});
      auto const b = seq::of<std::size_t>({0, 1, 15, 16, 30, 31, 32, 61, 62, 63});
      auto const gap = pattern(seq::of<std::size_t>({0, 1, 255, 256, 1025}));
      for (auto row = 0; row != 3; ++row) {
        if (row) t.text += eol;
        for (auto i = std::size_t{0}; i != n; ++i) {
          if (i) t.text += sep;
          t.text += row == 0 ? (i == a ? "A" : i == b ? "B" : "x" + std::to_string(i)) : i == a ? std::to_string(40 + row) : i == b ? "v" + std::to_string(row) : gap;
        }
        if (row) t.want.push_back({a < n ? std::to_string(40 + row) : "-", b < n && b != a ? "v" + std::to_string(row) : "-"});
      }
      break;
    }
    case 3: {  // long runs of empty lines
      auto const n = seq::of(large);
      auto blank = [&] { for (auto i = std::size_t{0}; i != n; ++i) t.text += eol; };
      t.text = std::string{"A"} + sep + "B";
      if (seq::flip()) blank();
      t.text += eol + "1" + sep + "x" + eol;
      if (seq::flip()) blank();
      t.text += std::string{"2"} + sep + "y";
      t.want = {{"1", "x"}, {"2", "y"}};
      if (seq::flip()) { t.text += eol; blank(); }
    }
  }
  if (final_eol) t.text += eol;
  return t;
}

// header names that could be confused with each other or with a byte order mark
std::vector<std::string> const NAMES{"A", "a", "AB", "A B", " A", "\xC3\xA4", "\xEF\xBC\xA1", "\xFF", "0", "A;", "\"q"};
struct named_table { std::string text; std::vector<std::string> header; };
named_table named(int const max_columns, char const sep, bool const bom, std::vector<std::string> const& NAMES = ::NAMES) {
  named_table t;
  auto const n = 1 + pick(max_columns);
  std::vector<bool> used(NAMES.size());
  if (bom && seq::flip()) t.text += "\xEF\xBB\xBF";
  for (auto i = 0; i != n; ++i) {
    auto k = static_cast<std::size_t>(pick(static_cast<int>(NAMES.size()) - i));
    for (auto j = std::size_t{0}; j <= k; ++j) if (used[j]) ++k;
    used[k] = true;
    if (i) t.text += sep;
    auto const& name = NAMES[k];
    t.text += name[0] == '"' || name.find(sep) != std::string::npos ? "\"" + (name[0] == '"' ? "\"" + name : name) + "\"" : name;
    t.header.push_back(name[0] == '"' ? "" : name);  // names with quotes are not requested by anyone
  }
  t.text += "\n";
  for (auto i = 0; i != n; ++i) t.text += (i ? std::string(1, sep) : "") + std::to_string(i + 1);
  t.text += "\n";
  return t;
}
std::string at(named_table const& t, std::string const& name) {
  for (auto i = std::size_t{0}; i != t.header.size(); ++i) if (t.header[i] == name) return std::to_string(i + 1);
  return "0";
}

// ------------------------------------------------------------------ T07
#if !defined(ONLY_PROP) || defined(WANT_T07)
template <typename Tuple>
std::vector<row> rows_of(std::vector<Tuple> const& v) {
  std::vector<row> r;
  for (auto const& x : v) r.push_back(flat(x));
  return r;
}

template <typename Tuple, char Sep, bool Owning>
void read_table(std::vector<kind> const& kinds, options const o) {
  auto const t = make(kinds, Sep, o);
  utl::column_mapping<Tuple> cols;
  static char const* const NAMES[] = {"A", "B", "C"};
  for (auto i = std::size_t{0}; i != kinds.size(); ++i) cols[i] = cstr{NAMES[i]};
  auto const def = zero_row(kinds);
  seq::note("%s -> %s", quote(t.text).c_str(), show_rows(t.want).c_str());
  seq::op();
  if (t.want.size() > 1) seq::nontrivial();
  seq::exact const e{t.text};
  auto const c = cstr{e.data(), e.size()};
  switch (pick(Owning ? 4 : 2)) {
    case 0: compare(rows_of(utl::read<Tuple, Sep>(c, cols)), t.want, def, t.text, "read"); break;
    case 1: {
      std::vector<Tuple> v;
      utl::read<Tuple, Sep>(c, v, cols);
      compare(rows_of(v), t.want, def, t.text, "read into a vector");
      break;
    }
    case 2: {
      auto const p = seq::put_file("t07.csv", t.text);
      std::vector<Tuple> v;
      utl::read_file<Tuple, Sep>(p.c_str(), v, cols);
      compare(rows_of(v), t.want, def, t.text, "read_file");
      break;
    }
    case 3: {
      auto const p = seq::put_file("t07.csv", t.text);
      compare(rows_of(utl::read_file<Tuple, std::string, Sep>(p, cols)), t.want, def, t.text, "read_file");
      break;
    }
  }
}

void tables(int variant, int rows) {
  options o;
  o.max_rows = rows;
  switch (variant) {
    case 0: read_table<std::tuple<int, std::string>, ',', true>({INT, STR}, o); break;
    case 1: read_table<std::tuple<std::string, bool>, ';', true>({STR, BOOL}, o); break;
    case 2: read_table<std::tuple<cstr, double>, '\t', false>({VIEW, DBL}, o); break;
    case 3: read_table<std::tuple<double, cista::raw::generic_string, int>, ',', false>({DBL, STR, INT}, o); break;
    case 4: read_table<std::tuple<cstr, std::string, bool>, '|', false>({VIEW, STR, BOOL}, o); break;
  }
}

// the one cell of a free content
template <typename Str>
void free_cell(int const max_len, char const sep_name) {
  auto const run = [&]<char Sep>(std::integral_constant<char, Sep>) {
    auto const v = content(max_len, Sep);
    auto const first = seq::flip();
    auto const eol = std::string{seq::flip() ? "\r\n" : "\n"};
    auto const w = written(v, Sep);
    auto const cell2 = std::string{"17"};
    auto line = (first ? w + Sep + cell2 : cell2 + Sep + w);
    auto text = (first ? std::string{"B"} + Sep + "A" : std::string{"A"} + Sep + "B") + eol + line + eol + line + (seq::flip() ? eol : "");
    seq::note("%s", quote(text).c_str());
    seq::op();
    if (v.find('"') != std::string::npos) seq::nontrivial();
    seq::exact const e{text};
    auto const got = rows_of(utl::read<std::tuple<int, Str>, Sep>(cstr{e.data(), e.size()}, {{"A", "B"}}));
    compare(got, {{"17", v}, {"17", v}}, {"0", ""}, text, "read");
  };
  if (sep_name == ',') run(std::integral_constant<char, ','>{}); else run(std::integral_constant<char, ';'>{});
}

template <typename Str, char Sep, bool Owning>
void big_table() {
  auto const t = big(Sep, false);
  using tuple_t = std::tuple<int, Str>;
  utl::column_mapping<tuple_t> const cols{cstr{"A"}, cstr{"B"}};
  seq::note("%s, %zu rows", quote(t.text).c_str(), t.want.size());
  seq::op();
  seq::nontrivial();
  seq::exact const e{t.text};
  auto const c = cstr{e.data(), e.size()};
  std::vector<tuple_t> v;
  if constexpr (Owning) {
    if (seq::flip()) {
      auto const p = seq::put_file("t07.csv", t.text);
      utl::read_file<tuple_t, Sep>(p.c_str(), v, cols);
      compare(rows_of(v), t.want, {"0", ""}, t.text, "read_file");
      return;
    }
    v = utl::read<tuple_t, Sep>(c, cols);
    compare(rows_of(v), t.want, {"0", ""}, t.text, "read");
  } else {
    utl::read<tuple_t, Sep>(c, v, cols);
    auto want = t.want;
    if (std::is_same_v<Str, cstr>) for (auto& r : want) if (r[1].find('"') != std::string::npos) return;  // a view shows what was written
    compare(rows_of(v), want, {"0", ""}, t.text, "read");
  }
}

void long_names() {
  auto const n = seq::of(large);
  auto const a = pattern(n);
  auto b = a;
  switch (pick(3)) {
    case 0: b[seq::of(positions(n))] = 'A'; break;
    case 1: b += 'x'; break;
    case 2: b += pattern(65536); break;
  }
  auto const text = (seq::flip() ? a + "," + b : "\"" + a + "\",\"" + b + "\"") + "\n1,2\n";
  seq::note("%s", quote(text).c_str());
  seq::op();
  seq::nontrivial();
  seq::exact const e{text};
  auto const swap = seq::flip();
  auto const got = rows_of(utl::read<std::tuple<int, int, int>>(cstr{e.data(), e.size()}, {{cstr{swap ? b : a}, cstr{swap ? a : b}, cstr{"zz"}}}));
  compare(got, {{swap ? "2" : "1", swap ? "1" : "2", "0"}}, {"0", "0", "0"}, text, "read");
}

void number_cells() {
  static std::vector<cell> const ints{{"+7", "7"}, {"007", "7"}, {"-0", "0"}, {"2147483647", "2147483647"}, {"-2147483648", "-2147483648"}, {" 5", "5"}, {"\"-12\"", "-12"}, {"1", "1"}};
  static std::vector<cell> const dbls{{".5", "0.5"}, {"5.", "5"}, {"+3.25", "3.25"}, {"-0.125", "-0.125"}, {"12345678", "1.23457e+07"}, {"0", "0"}, {"-7", "-7"}, {"\"1.75\"", "1.75"}, {" 2", "2"}, {"000.5000", "0.5"}};
  auto const a = seq::of(ints);
  auto const b = seq::of(dbls);
  auto const c = seq::of(dbls);
  auto const text = "A,B,C\n" + a.text + "," + b.text + "," + c.text + (seq::flip() ? "\n" : "");
  seq::note("%s", quote(text).c_str());
  seq::op();
  seq::nontrivial();
  seq::exact const e{text};
  std::vector<row> got;
  for (auto const& t : utl::read<std::tuple<int, double, float, long>>(cstr{e.data(), e.size()}, {{"A", "B", "C", "A"}})) got.push_back({show(std::get<0>(t)), show(std::get<1>(t)), show(static_cast<double>(std::get<2>(t)))});
  compare(got, {{a.value, b.value, c.value}}, {"0", "0", "0"}, text, "read");
}

void header_names(int const max_columns) {
  auto const t = named(max_columns, ',', false);
  auto const a = seq::of(NAMES), b = seq::of(NAMES);
  if (a[0] == '"' || b[0] == '"' || a == b) return;
  seq::note("%s: %s and %s", quote(t.text).c_str(), quote(a).c_str(), quote(b).c_str());
  seq::op();
  if (t.header.size() > 1) seq::nontrivial();
  seq::exact const e{t.text};
  auto const got = rows_of(utl::read<std::tuple<int, int>>(cstr{e.data(), e.size()}, {{cstr{a}, cstr{b}}}));
  compare(got, {{at(t, a), at(t, b)}}, {"0", "0"}, t.text, "read");
}
#endif
struct rec2 {
  utl::csv_col<int, UTL_NAME("A")> a;
  utl::csv_col<std::string, UTL_NAME("B")> b;
};
struct rec2d {
  utl::csv_col<int, UTL_NAME("A")> a{7};
  utl::csv_col<std::string, UTL_NAME("B")> b{std::string{"dflt"}};
};
struct rec3 {
  utl::csv_col<cstr, UTL_NAME("A")> a;
  utl::csv_col<double, UTL_NAME("B")> b;
  utl::csv_col<bool, UTL_NAME("C")> c;
};
row flat(rec2 const& r) { return {show(r.a.val()), show(r.b.val())}; }
row flat(rec2d const& r) { return {show(r.a.val()), show(r.b.val())}; }
row flat(rec3 const& r) { return {show(r.a.val()), show(r.b.val()), show(r.c.val())}; }

// ------------------------------------------------------------------ T08
#if !defined(ONLY_PROP) || defined(WANT_T08)
template <typename Rec, char Sep>
void stream(std::vector<kind> const& kinds, row const& def, row const& empty, options const o, int const hows) {
  auto const t = make(kinds, Sep, o);
  auto want = t.want;
  for (auto& r : want) for (auto i = std::size_t{0}; i != r.size(); ++i) if (r[i].empty()) r[i] = empty[i];
  seq::note("%s -> %s", quote(t.text).c_str(), show_rows(want).c_str());
  seq::op();
  if (want.size() > 1) seq::nontrivial();
  seq::exact const e{t.text};
  auto const c = cstr{e.data(), e.size()};
  auto src = [&] { return utl::line_range{utl::make_buf_reader(c, utl::noop_progress_consumer{})}; };
  std::vector<row> got;
  auto const n = want.size();
  auto add = [&](Rec const& r) { got.push_back(flat(r)); SEQ_CHECK(got.size() <= n + 1, "CSV range does not end"); };
  auto const how = pick(hows);
  switch (how) {
    case 0: for (auto const& r : src() | utl::csv<Rec, Sep>() | utl::vec()) add(r); break;
    case 1: src() | utl::csv<Rec, Sep>() | utl::for_each([&](auto&& r) { add(r); }); break;
    case 2: for (auto const r : src() | utl::csv<Rec, Sep>() | utl::iterable()) add(r); break;
    case 3: got = src() | utl::csv<Rec, Sep>() | utl::transform([](auto&& r) { return flat(r); }) | utl::vec(); break;
    case 4: {  // filtered
      auto r = src() | utl::csv<Rec, Sep>() | utl::remove_if([](auto&& r) { return flat(r)[0] == "0"; }) | utl::vec();
      for (auto const& x : r) add(x);
      std::erase_if(want, [&](row const& x) { return with_defaults(x, def)[0] == "0"; });
      break;
    }
    case 5: {
      auto const p = seq::put_file("t08.csv", t.text);
      got = utl::line_range{utl::mmap_reader{p.c_str()}} | utl::csv<Rec, Sep>() | utl::transform([](auto&& r) { return flat(r); }) | utl::vec();
      break;
    }
    case 6: {  // step by step, lazily: one record for each step
      auto r = src() | utl::csv<Rec, Sep>();
      auto it = r.begin();
      while (r.valid(it)) { add(r.read(it)); r.next(it); }
      for (auto i = 0; i != 2; ++i) { r.next(it); SEQ_CHECK(!r.valid(it), "CSV range continues after its end"); }
      break;
    }
  }
  compare(got, want, def, t.text, "csv range");
}

void streams(int variant, int rows, int hows) {
  options o;
  o.max_rows = rows;
  o.blank_lines = o.bom = true;
  switch (variant) {
    case 0: stream<rec2, ','>({INT, STR}, {"0", ""}, {"0", ""}, o, hows); break;
    case 1: stream<rec2d, ';'>({INT, STR}, {"7", "dflt"}, {"7", "dflt"}, o, hows); break;
    case 2: stream<rec3, ','>({VIEW, DBL, BOOL}, {"", "0", "0"}, {"", "0", "0"}, o, hows); break;
  }
}

template <typename Rec, char Sep>
void big_stream(row const& def) {
  auto const t = big(Sep, true);
  seq::note("%s, %zu rows", quote(t.text).c_str(), t.want.size());
  seq::op();
  seq::nontrivial();
  seq::exact const e{t.text};
  std::vector<row> got;
  auto const n = t.want.size();
  auto add = [&](Rec const& r) { got.push_back(flat(r)); SEQ_CHECK(got.size() <= n + 1, "CSV range does not end"); };
  auto src = [&] { return utl::line_range{utl::make_buf_reader(cstr{e.data(), e.size()}, utl::noop_progress_consumer{})}; };
  switch (pick(3)) {
    case 0: for (auto const& r : src() | utl::csv<Rec, Sep>() | utl::vec()) add(r); break;
    case 1: src() | utl::csv<Rec, Sep>() | utl::for_each([&](auto&& r) { add(r); }); break;
    case 2: {
      auto const p = seq::put_file("t08.csv", t.text);
      utl::line_range{utl::mmap_reader{p.c_str()}} | utl::csv<Rec, Sep>() | utl::for_each([&](auto&& r) { add(r); });
      break;
    }
  }
  compare(got, t.want, def, t.text, "csv range");
}

// nothing at all, empty first lines
void no_records() {
  auto const text = seq::of<std::string>({"", "\n", "\r\n", "A,B", "A,B\n", "A,B\r\n", "A,B\n\n\n", "A,B\r\n\r\n", "\xEF\xBB\xBF", "\xEF\xBB\xBF" "A,B\n", "\n\n"});
  seq::note("%s", quote(text).c_str());
  seq::nontrivial();
  seq::exact const e{text};
  auto const v = utl::line_range{utl::make_buf_reader(cstr{e.data(), e.size()}, utl::noop_progress_consumer{})} | utl::csv<rec2>() | utl::vec();
  SEQ_CHECK(v.empty(), "%s yields %zu records", quote(text).c_str(), v.size());
}

// free content and free names
void free_stream(int const max_len) {
  auto const v = content(max_len, ',');
  auto const w = written(v, ',');
  auto const first = seq::flip();
  auto const eol = std::string{seq::flip() ? "\r\n" : "\n"};
  auto const line = first ? w + ",17" : "17," + w;
  auto const text = (first ? "B,A" : "A,B") + eol + line + eol + line + (seq::flip() ? eol : "");
  seq::note("%s", quote(text).c_str());
  seq::op();
  if (v.find('"') != std::string::npos) seq::nontrivial();
  seq::exact const e{text};
  std::vector<row> got;
  utl::line_range{utl::make_buf_reader(cstr{e.data(), e.size()}, utl::noop_progress_consumer{})} | utl::csv<rec2>() | utl::for_each([&](rec2 const& r) { got.push_back(flat(r)); });
  compare(got, {{"17", v}, {"17", v}}, {"0", ""}, text, "csv range");
}
struct recn {
  utl::csv_col<int, UTL_NAME("\xC3\xA4")> a;
  utl::csv_col<int, UTL_NAME("A")> b;
  utl::csv_col<int, UTL_NAME("\xEF\xBC\xA1")> c;
  utl::csv_col<int, UTL_NAME(" A")> d;
  utl::csv_col<int, UTL_NAME("\xFF")> e;
};
void stream_names(int const max_columns) {
  auto const t = named(max_columns, ',', true);
  seq::note("%s", quote(t.text).c_str());
  seq::op();
  if (t.header.size() > 1) seq::nontrivial();
  seq::exact const e{t.text};
  std::vector<row> got;
  utl::line_range{utl::make_buf_reader(cstr{e.data(), e.size()}, utl::noop_progress_consumer{})} | utl::csv<recn>() | utl::for_each([&](recn const& r) { got.push_back({show(r.a.val()), show(r.b.val()), show(r.c.val()), show(r.d.val()), show(r.e.val())}); });
  compare(got, {{at(t, "\xC3\xA4"), at(t, "A"), at(t, "\xEF\xBC\xA1"), at(t, " A"), at(t, "\xFF")}}, {"0", "0", "0", "0", "0"}, t.text, "csv range");
}

// names that agree in their first characters
#define LONG_30 "column-name-of-31-characters-9"
#define LONG_29 "column-name-of-31-characters-"
struct rec_long {
  utl::csv_col<int, UTL_NAME(LONG_30)> a;
  utl::csv_col<int, UTL_NAME(LONG_30 "1")> b;
  utl::csv_col<int, UTL_NAME(LONG_30 "2")> c;
  utl::csv_col<int, UTL_NAME(LONG_30 " and quite a few more " LONG_30 LONG_30 LONG_30 LONG_30 LONG_30 LONG_30 LONG_30 LONG_30 LONG_30)> d;
  utl::csv_col<int, UTL_NAME(LONG_29)> e;
};
std::vector<std::string> const LONG_NAMES{LONG_29, LONG_30, LONG_30 "1", LONG_30 "2", LONG_30 " and quite a few more " LONG_30 LONG_30 LONG_30 LONG_30 LONG_30 LONG_30 LONG_30 LONG_30 LONG_30, LONG_30 " and quite a few"};
void long_names(int const max_columns) {
  auto const t = named(max_columns, ',', false, LONG_NAMES);
  seq::note("%s", quote(t.text).c_str());
  seq::op();
  if (t.header.size() > 1) seq::nontrivial();
  seq::exact const e{t.text};
  std::vector<row> got;
  utl::line_range{utl::make_buf_reader(cstr{e.data(), e.size()}, utl::noop_progress_consumer{})} | utl::csv<rec_long>() | utl::for_each([&](rec_long const& r) { got.push_back({show(r.a.val()), show(r.b.val()), show(r.c.val()), show(r.d.val()), show(r.e.val())}); });
  compare(got, {{at(t, LONG_NAMES[1]), at(t, LONG_NAMES[2]), at(t, LONG_NAMES[3]), at(t, LONG_NAMES[4]), at(t, LONG_NAMES[0])}}, {"0", "0", "0", "0", "0"}, t.text, "csv range");
}

// numbers left empty keep the default
void empty_cells() {
  auto const q = seq::flip();
  auto const text = std::string{"A,B\n"} + (q ? "\"\"" : "") + ",x\n" + "3," + (q ? "\"\"" : "") + "\n";
  seq::exact const e{text};
  auto const v = utl::line_range{utl::make_buf_reader(cstr{e.data(), e.size()}, utl::noop_progress_consumer{})} | utl::csv<rec2d>() | utl::vec();
  SEQ_CHECK(v.size() == 2 && flat(v[0]) == (row{"7", "x"}) && flat(v[1]) == (row{"3", "dflt"}), "empty cells do not keep the default");
}

#endif
struct place {
  explicit place(std::string const& s) : e{s} {}
  cstr view() const { return {e.data(), e.size()}; }
  void inside(cstr c, char const* what, std::string const& s) const {
    SEQ_CHECK(c.len == 0 || (c.len <= e.size() && c.str >= e.data() && c.str + c.len <= e.data() + e.size()), "%s of %s: cell outside the text", what, quote(s).c_str());
  }
  seq::exact e;
};

template <typename Fn>
bool allowed(Fn&& fn, std::string const& s, char const* what) {  // true if it ran, false: too many columns
  try {
    fn();
    return true;
  } catch (std::exception const& e) {
    SEQ_CHECK(std::string_view{e.what()}.find("too many columns") != std::string_view::npos, "%s of %s throws: %s", what, quote(s.substr(0, 80)).c_str(), e.what());
    return false;
  }
}

// ------------------------------------------------------------------ T09
#if !defined(ONLY_PROP) || defined(WANT_T09)
std::string made_of(std::string cell, std::string const& s) {  // copies hold only bytes of the text, in order
  auto pos = std::size_t{0};
  for (auto const c : cell) {
    pos = s.find(c, pos);
    if (pos == std::string::npos) return "no";
    ++pos;
  }
  return "";
}

template <char Sep>
void one_cell(std::string const& s) {
  place const p{s};
  auto rest = p.view();
  cstr c;
  utl::parse_column<cstr, Sep>(rest, c);
  p.inside(c, "parse_column", s);
  SEQ_CHECK(rest.len <= s.size() && rest.str + rest.len == p.view().str + s.size(), "parse_column of %s leaves something outside the text", quote(s).c_str());
  if (s.empty()) return;
  if (s[0] != Sep && s[0] != '\n') SEQ_CHECK(rest.len < s.size(), "parse_column of %s does not advance", quote(s).c_str());
  auto const quoted = s[0] == '"';
  auto end = std::size_t{quoted};
  auto closed = false;
  for (; end < s.size() && s[end] != '\r' && s[end] != '\n'; ++end) {
    if (quoted && s[end] == '"') {
      if (end + 1 < s.size() && s[end + 1] == '"') { ++end; continue; }
      closed = true;
      break;
    }
    if (!quoted && s[end] == Sep) break;
  }
  if (quoted && !closed) seq::nontrivial();
  auto const want = s.substr(quoted, end - quoted);
  SEQ_CHECK(c.view() == want, "cell of %s is %s instead of %s", quote(s).c_str(), quote(c.view()).c_str(), quote(want).c_str());
}

void cells(int max) {
  auto const s = seq::text(max, "\",\n\ra");
  seq::note("cell of %s", quote(s).c_str());
  seq::op();
  one_cell<','>(s);
  one_cell<'a'>(s);
}

void malformed(int max, std::string_view alphabet) {
  auto const head = seq::of<std::string>({"", "A,B\n", "B,X,\"A\"\r\n", "\"A"});
  auto const s = head + seq::text(max, alphabet);
  place const p{s};
  seq::note("%s", quote(s).c_str());
  seq::op();
  if (s.find('"') != std::string::npos) seq::nontrivial();
  auto const limit = s.size() + 2;
  switch (pick(4)) {
    case 0: {
      using t = std::tuple<cstr, std::string, cista::raw::generic_string>;
      auto const v = utl::read<t>(p.view(), utl::column_mapping<t>{cstr{"A"}, cstr{"B"}, cstr{"X"}});
      SEQ_CHECK(v.size() <= limit, "too many rows");
      for (auto const& x : v) {
        p.inside(std::get<0>(x), "read", s);
        SEQ_CHECK(made_of(std::get<1>(x), s).empty(), "cell %s is not of %s", quote(std::get<1>(x)).c_str(), quote(s).c_str());
        SEQ_CHECK(made_of(std::get<2>(x).str(), s).empty(), "cell %s is not of %s", quote(std::get<2>(x).view()).c_str(), quote(s).c_str());
      }
      break;
    }
    case 1: {
      using t = std::tuple<int, double, bool>;
      auto const v = utl::read<t>(p.view(), utl::column_mapping<t>{cstr{"A"}, cstr{"B"}, cstr{"X"}});
      SEQ_CHECK(v.size() <= limit, "too many rows");
      break;
    }
    case 2: {
      auto n = std::size_t{0};
      utl::line_range{utl::make_buf_reader(p.view(), utl::noop_progress_consumer{})} | utl::csv<rec3>() | utl::for_each([&](auto&& r) {
        p.inside(r.a.val(), "csv range", s);
        SEQ_CHECK(++n <= limit, "csv range does not end");
      });
      break;
    }
    case 3: {
      auto const [a, b, c] = utl::split<',', cstr, std::string, int>(p.view());
      p.inside(a, "split", s);
      SEQ_CHECK(made_of(b, s).empty(), "cell %s is not of %s", quote(b).c_str(), quote(s).c_str());
      (void)c;
      break;
    }
  }
}

// long cells, terminated or not
void long_cells() {
  auto const n = seq::of(large);
  auto s = pattern(n);
  if (seq::flip()) s = "\"" + s;
  auto const what = seq::of<std::string>({"\"", "\"\"", ",", "\r", "\n", "\r\n"});
  auto const pos = positions(s.size());
  s.insert(seq::of(pos), what);
  if (seq::flip()) s += seq::of<std::string>({"\"", ",", "\r\n", "\"\""});
  seq::note("cell of %s", quote(s).c_str());
  seq::op();
  one_cell<','>(s);
  place const p{s};
  auto const limit = s.size() + 2;
  {
    using t = std::tuple<cstr, std::string, cista::raw::generic_string>;
    for (auto const& x : utl::read<t>(p.view(), utl::column_mapping<t>{cstr{"A"}, cstr{"B"}, cstr{"X"}})) p.inside(std::get<0>(x), "read", s);
  }
  auto rows = std::size_t{0};
  utl::line_range{utl::make_buf_reader(p.view(), utl::noop_progress_consumer{})} | utl::csv<rec3>() | utl::for_each([&](auto&& r) {
    p.inside(r.a.val(), "csv range", s);
    SEQ_CHECK(++rows <= limit, "csv range does not end");
  });
  auto const [a, b, c] = utl::split<',', cstr, std::string, int>(p.view());
  p.inside(a, "split", s);
  SEQ_CHECK(b.size() <= s.size(), "cell longer than the text");
  (void)c;
}

void many_columns() {
  auto const n = seq::of<int>({1, 62, 63, 64, 65, 66, 127, 128, 254, 255, 256, 257, 320});
  auto const m = seq::of<int>({0, 1, 63, 64, 65, 256, 300});
  auto const at = pick(3);  // where the requested column is
  auto const crlf = seq::flip();
  auto const quoted = seq::flip();
  std::string s;
  auto const pos = at == 0 ? 0 : at == 1 ? n - 1 : n / 2;
  for (auto i = 0; i != n; ++i) s += std::string{i ? "," : ""} + (quoted ? "\"" : "") + (i == pos ? "A" : "x") + (quoted ? "\"" : "");
  s += crlf ? "\r\n" : "\n";
  for (auto i = 0; i != m; ++i) s += std::string{i ? "," : ""} + (i == pos ? "42" : "7");
  s += crlf ? "\r\n" : "\n";
  place const p{s};
  seq::note("%d columns, row with %d cells", n, m);
  seq::op();
  if (n > 64) seq::nontrivial();
  auto const known = m > pos;
  if (seq::flip()) {
    using t = std::tuple<int>;
    std::vector<t> v;
    auto const ok = allowed([&] { utl::read<t>(p.view(), v, utl::column_mapping<t>{cstr{"A"}}); }, s, "read");
    SEQ_CHECK(ok == (n <= utl::MAX_COLUMNS), "%d columns: %s", n, ok ? "no exception" : "exception");
    if (ok && m > 0) SEQ_CHECK(v.size() == 1 && std::get<0>(v[0]) == (known ? 42 : 0), "%d columns, %d cells: wrong row", n, m);
  } else {
    std::vector<int> v;
    auto const ok = allowed([&] { v = utl::line_range{utl::make_buf_reader(p.view(), utl::noop_progress_consumer{})} | utl::csv<rec2>() | utl::transform([](auto&& r) { return r.a.val(); }) | utl::vec(); }, s, "csv range");
    SEQ_CHECK(ok == (n <= utl::MAX_COLUMNS), "%d columns: %s", n, ok ? "no exception" : "exception");
    if (ok && m > 0) SEQ_CHECK(v.size() == 1 && v[0] == (known ? 42 : 0), "%d columns, %d cells: wrong row", n, m);
  }
}

#endif
// ------------------------------------------------------------------ T11
#if !defined(ONLY_PROP) || defined(WANT_T11)
template <char Sep, typename... Ts>
void split_line(std::vector<kind> const& kinds, int extra) {
  auto const n = static_cast<int>(kinds.size());
  auto const k = pick(n + extra + 1);
  std::string line;
  auto want = zero_row(kinds);
  for (auto i = 0; i != k; ++i) {
    if (i) line += Sep;
    cell c;
    if (i >= n) c = seq::of<cell>({{"9", ""}, {"", ""}});
    else {
      std::vector<cell> v;
      switch (kinds[static_cast<std::size_t>(i)]) {
        case INT: v = INTS; v.push_back({"", "0"}); v.push_back({"ab", "0"}); v.push_back({"2147483647", "2147483647"}); break;
        case BOOL: v = BOOLS; v.push_back({"", "0"}); v.push_back({"xy", "0"}); break;
        case DBL: v = DOUBLES; v.push_back({"", "0"}); v.push_back({"ab", "0"}); break;
        default: v = VIEWS(Sep); v.push_back({"\"12\"", "12"}); v.push_back({"\"lo\nng\"", ""}); v.pop_back();
      }
      c = seq::of(v);
      want[static_cast<std::size_t>(i)] = c.value;
    }
    line += c.text;
  }
  place const p{line};
  seq::note("%s -> %s", quote(line).c_str(), show_row(want).c_str());
  seq::op();
  if (k > n) seq::nontrivial();
  auto const t = utl::split<Sep, Ts...>(p.view());
  auto const got = flat(t);
  SEQ_CHECK(got == want, "split of %s yields %s instead of %s", quote(line).c_str(), show_row(got).c_str(), show_row(want).c_str());
  std::apply([&](auto const&... x) {
    auto chk = [&](auto const& y) { if constexpr (std::is_same_v<std::decay_t<decltype(y)>, cstr>) p.inside(y, "split", line); };
    (chk(x), ...);
  }, t);
}

template <char Sep>
void free_split(int const max_len) {
  auto const a = content(max_len, Sep, false), b = content(max_len, Sep, false);
  auto const line = written(a, Sep) + Sep + "17" + Sep + written(b, Sep);
  place const p{line};
  seq::note("%s", quote(line).c_str());
  seq::op();
  seq::nontrivial();
  auto const got = flat(utl::split<Sep, cstr, int, std::string>(p.view()));
  SEQ_CHECK(got == (row{a, "17", b}), "split of %s yields %s", quote(line).c_str(), show_row(got).c_str());
}

void long_split() {
  auto const a = long_cell(';', false);
  auto const b = seq::flip() ? cell{"\"" + pattern(70001) + ";\"", pattern(70001) + ";"} : cell{"", ""};
  auto const surplus = seq::of<std::size_t>({0, 1, 255, 256, 70000});
  auto const line = a.text + ";17;" + b.text + std::string(surplus, ';');
  place const p{line};
  seq::note("%s", quote(line).c_str());
  seq::op();
  seq::nontrivial();
  auto const t = utl::split<';', cstr, int, std::string, std::string>(p.view());
  p.inside(std::get<0>(t), "split", line);
  auto const got = flat(t);
  SEQ_CHECK(got == (row{a.value, "17", b.value, ""}), "split of %s yields %s", quote(line).c_str(), show_row(got).c_str());
}

void splits(int extra) {
  switch (pick(5)) {
    case 0: split_line<',', int, cstr, std::string>({INT, VIEW, VIEW}, extra); break;
    case 1: split_line<';', std::string, double, bool>({VIEW, DBL, BOOL}, extra); break;
    case 2: split_line<'\t', cstr, int, double, cstr>({VIEW, INT, DBL, VIEW}, extra); break;
    case 3: split_line<' ', int>({INT}, extra); break;
    case 4: split_line<',', bool, bool, int, int>({BOOL, BOOL, INT, INT}, extra); break;
  }
}
#endif
}  // namespace

namespace seq {
std::vector<config> configs(std::string const& p) {
  std::vector<config> v;
#if !defined(ONLY_PROP) || defined(WANT_T07)
  if (p == "T07") {
    v.push_back({"tuple<int,string>, up to 2 rows", [] { tables(0, 2); }, 0, 24});
    v.push_back({"tuple<string,bool> with ;, up to 1 row", [] { tables(1, 1); }, 0, 1});
    v.push_back({"tuple<view,double> with tab, up to 2 rows", [] { tables(2, 2); }, 0, 4});
    v.push_back({"tuple<double,generic_string,int>, up to 1 row", [] { tables(3, 1); }, 0, 2});
    v.push_back({"tuple<view,string,bool> with |, up to 1 row", [] { tables(4, 1); }, 0, 2});
    v.push_back({"free cells up to 4 bytes, string", [] { free_cell<std::string>(4, seq::flip() ? ',' : ';'); }, 0, 2});
    v.push_back({"free cells up to 3 bytes, generic_string", [] { free_cell<cista::raw::generic_string>(3, seq::flip() ? ',' : ';'); }});
    v.push_back({"number cells", [] { number_cells(); }});
    v.push_back({"header names, up to 3 columns", [] { header_names(3); }, 0, 2});
    v.push_back({"large tables, string", [] { big_table<std::string, ',', true>(); }, 0, 8});
    v.push_back({"large tables, generic_string", [] { big_table<cista::raw::generic_string, ';', false>(); }, 0, 8});
    v.push_back({"large tables, view", [] { big_table<cstr, '\t', false>(); }, 0, 8});
    v.push_back({"long header names", [] { long_names(); }});
    v.push_back({"free cells up to 6 bytes, string", [] { free_cell<std::string>(6, seq::flip() ? ',' : ';'); }, 1, 8});
    v.push_back({"header names, up to 4 columns", [] { header_names(4); }, 1, 8});
    v.push_back({"tuple<string,bool> with ;, up to 2 rows", [] { tables(1, 2); }, 1, 8});
    v.push_back({"tuple<double,generic_string,int>, up to 2 rows", [] { tables(3, 2); }, 1, 8});
    v.push_back({"tuple<view,string,bool> with |, up to 2 rows", [] { tables(4, 2); }, 1, 8});
    v.push_back({"tuple<view,double> with tab, up to 3 rows", [] { tables(2, 3); }, 1, 8});
  }
#endif
#if !defined(ONLY_PROP) || defined(WANT_T08)
  if (p == "T08") {
    v.push_back({"int and string, up to 1 row, every use", [] { streams(0, 1, 7); }, 0, 2});
    v.push_back({"int and string, up to 2 rows", [] { streams(0, 2, 1); }, 0, 24});
    v.push_back({"int and string with defaults and ;, up to 1 row", [] { streams(1, 1, 7); }, 0, 2});
    v.push_back({"view, double and bool, up to 1 row", [] { streams(2, 1, 7); }, 0, 4});
    v.push_back({"free cells up to 4 bytes", [] { free_stream(4); }, 0, 2});
    v.push_back({"header names, up to 3 columns", [] { stream_names(3); }});
    v.push_back({"long header names, up to 4 columns", [] { long_names(4); }});
    v.push_back({"large streams", [] { big_stream<rec2, ','>({"0", ""}); }, 0, 8});
    v.push_back({"large streams with defaults and ;", [] { big_stream<rec2d, ';'>({"7", "dflt"}); }, 1, 8});
    v.push_back({"free cells up to 6 bytes", [] { free_stream(6); }, 1, 8});
    v.push_back({"header names, up to 5 columns", [] { stream_names(5); }, 1, 8});
    v.push_back({"no records", [] { no_records(); }});
    v.push_back({"empty cells", [] { empty_cells(); }});
    v.push_back({"int and string, up to 2 rows, every use", [] { streams(0, 2, 7); }, 1, 8});
    v.push_back({"int and string with defaults and ;, up to 2 rows", [] { streams(1, 2, 7); }, 1, 8});
    v.push_back({"view, double and bool, up to 2 rows", [] { streams(2, 2, 2); }, 1, 8});
  }
#endif
#if !defined(ONLY_PROP) || defined(WANT_T09)
  if (p == "T09") {
    v.push_back({"single cells, up to 8 bytes", [] { cells(8); }, 0, 2});
    v.push_back({"tables, streams and lines, up to 6 bytes", [] { malformed(6, "\",\n\ra"); }, 0, 8});
    v.push_back({"tables, streams and lines, up to 4 bytes of {\",comma,LF,CR,NUL,0xEF,1,X,B}", [] { malformed(4, std::string_view{"\",\n\r\0\xEF" "1XB", 9}); }, 0, 4});
    v.push_back({"column counts around the limit", [] { many_columns(); }});
    v.push_back({"long cells", [] { long_cells(); }, 0, 8});
    v.push_back({"single cells, up to 10 bytes", [] { cells(10); }, 1, 8});
    v.push_back({"tables, streams and lines, up to 8 bytes", [] { malformed(8, "\",\n\ra"); }, 1, 8});
    v.push_back({"tables, streams and lines, up to 5 bytes of {\",comma,LF,CR,NUL,0xEF,1,X,B}", [] { malformed(5, std::string_view{"\",\n\r\0\xEF" "1XB", 9}); }, 1, 8});
  }
#endif
#if !defined(ONLY_PROP) || defined(WANT_T11)
  if (p == "T11") {
    v.push_back({"five tuple types, up to 3 surplus cells", [] { splits(3); }, 0, 4});
    v.push_back({"free cells up to 2 bytes", [] { free_split<','>(2); }});
    v.push_back({"free cells up to 2 bytes, separated by blanks", [] { free_split<' '>(2); }});
    v.push_back({"long cells, many surplus cells", [] { long_split(); }, 0, 4});
    v.push_back({"free cells up to 4 bytes", [] { free_split<';'>(4); }, 1, 8});
    v.push_back({"five tuple types, up to 5 surplus cells", [] { splits(5); }, 1, 4});
  }
#endif
  return v;
}
}  // namespace seq
