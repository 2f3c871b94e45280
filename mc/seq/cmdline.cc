// Command line flags (T10): every argument vector over a token alphabet.
#include "seq.h"
#include <optional>
#include <sstream>
#include <stdexcept>
#include "utl/cmd_line_parser.h"

using seq::quote;

namespace {
// ---- declared flags
struct small {
  utl::cmd_line_flag<bool, UTL_SHORT("-c"), UTL_LONG("--capture"), UTL_DESC("capture incoming")> c_;
  utl::cmd_line_flag<std::string, utl::required, UTL_LONG("--file"), UTL_DESC("target file")> f_;
  utl::cmd_line_flag<int, UTL_SHORT("-n"), UTL_LONG("--num"), UTL_DESC("size")> n_;
};
struct defaults {
  utl::cmd_line_flag<std::string, UTL_SHORT("-s"), UTL_DESC("short only")> s_{std::string{"dflt"}};
  utl::cmd_line_flag<int, UTL_LONG("--fil"), UTL_DESC("prefix of another")> p_{42};
  utl::cmd_line_flag<int, UTL_LONG("--file"), UTL_DESC("x")> n_{-7};
  utl::cmd_line_flag<bool, UTL_LONG("--on"), UTL_DESC("is on")> on_{true};
};
struct two_required {
  utl::cmd_line_flag<int, utl::required, UTL_SHORT("-r"), UTL_DESC("first")> r_{3};
  utl::cmd_line_flag<bool, utl::required, UTL_SHORT("-b"), UTL_LONG("--bool"), UTL_DESC("second")> b_;
};
struct single {
  utl::cmd_line_flag<double, UTL_SHORT("-d"), UTL_LONG("--dbl"), UTL_DESC("a b  c")> d_{0.5};
};

#define NAME_29 "--flag-name-of-length-xxxxx29"
#define NAME_30 "--flag-name-of-length-xxxxxx30"
#define NAME_31 "--flag-name-of-length-xxxxxxx31"
#define NAME_65 "--flag-name-of-length-xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx65"
#define NAME_257 "--flag-name-of-length-xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx57"
#define SAME "--the-same-first-thirty-charac"
struct long_names {  // names that share their first characters, long descriptions
  utl::cmd_line_flag<int, UTL_LONG(NAME_29), UTL_SHORT("-" NAME_30), UTL_DESC("short")> a_;
  utl::cmd_line_flag<int, UTL_LONG(NAME_31), UTL_DESC("exactly thirty-one characters..")> b_;
  utl::cmd_line_flag<bool, UTL_LONG(NAME_65), UTL_DESC("more than thirty characters of description, a: " NAME_257)> c_;
  utl::cmd_line_flag<std::string, UTL_LONG(NAME_257), UTL_DESC("more than thirty characters of description, b")> d_;
  utl::cmd_line_flag<int, UTL_LONG(SAME "ters-a"), UTL_SHORT("-a"), UTL_DESC("e")> e_{5};
  utl::cmd_line_flag<int, UTL_LONG(SAME "ters-b"), UTL_DESC("f")> f_{6};
};
struct long_required {
  utl::cmd_line_flag<int, utl::required, UTL_LONG(SAME "ters-a"), UTL_DESC("e")> a_;
  utl::cmd_line_flag<bool, utl::required, UTL_SHORT("-" SAME "ters-b"), UTL_DESC("f")> b_;
};

// ---- what they are supposed to be
enum kind { BOOL, STR, INT, DBL };
struct flag { kind k; std::string s, l, desc; bool req; std::string dflt; };

std::string val(bool b) { return b ? "true" : "false"; }
std::string val(int i) { return std::to_string(i); }
std::string val(std::string const& s) { return s; }
std::string val(double d) { std::ostringstream s; s << d; return s.str(); }

std::vector<std::string> values(small const& x) { return {val(x.c_.val()), val(*x.f_), val(x.n_.val())}; }
std::vector<std::string> values(defaults const& x) { return {val(*x.s_), val(*x.p_), val(*x.n_), val(*x.on_)}; }
std::vector<std::string> values(two_required const& x) { return {val(*x.r_), val(*x.b_)}; }
std::vector<std::string> values(long_names const& x) { return {val(*x.a_), val(*x.b_), val(*x.c_), val(*x.d_), val(*x.e_), val(*x.f_)}; }
std::vector<std::string> values(long_required const& x) { return {val(*x.a_), val(*x.b_)}; }
std::vector<std::string> values(single const& x) { return {val(*x.d_)}; }

std::vector<flag> decl(small*) { return {{BOOL, "-c", "--capture", "capture incoming", false, "false"}, {STR, "", "--file", "target file", true, ""}, {INT, "-n", "--num", "size", false, "0"}}; }
std::vector<flag> decl(defaults*) { return {{STR, "-s", "", "short only", false, "dflt"}, {INT, "", "--fil", "prefix of another", false, "42"}, {INT, "", "--file", "x", false, "-7"}, {BOOL, "", "--on", "is on", false, "true"}}; }
std::vector<flag> decl(two_required*) { return {{INT, "-r", "", "first", true, "3"}, {BOOL, "-b", "--bool", "second", true, "false"}}; }
std::vector<flag> decl(single*) { return {{DBL, "-d", "--dbl", "a b  c", false, "0.5"}}; }

std::vector<flag> decl(long_names*) {
  return {{INT, "-" NAME_30, NAME_29, "short", false, "0"},
          {INT, "", NAME_31, "exactly thirty-one characters..", false, "0"},
          {BOOL, "", NAME_65, "more than thirty characters of description, a: " NAME_257, false, "false"},
          {STR, "", NAME_257, "more than thirty characters of description, b", false, ""},
          {INT, "-a", SAME "ters-a", "e", false, "5"},
          {INT, "", SAME "ters-b", "f", false, "6"}};
}
std::vector<flag> decl(long_required*) { return {{INT, "", SAME "ters-a", "e", true, "0"}, {BOOL, "-" SAME "ters-b", "", "f", true, "false"}}; }

bool number(std::string const& s) { return s == "8" || s == "-1" || s == "007"; }
std::string number_value(std::string const& s) { return s == "007" ? "7" : s; }

std::vector<std::string> split_lines(std::string const& s) {
  std::vector<std::string> v{""};
  for (auto const c : s)
    if (c == '\n') v.emplace_back(); else v.back() += c;
  return v;
}

void check_listing(char const* what, std::vector<flag> const& fs, std::string const& text, std::vector<std::string> const& last) {
  auto const lines = split_lines(text);
  SEQ_CHECK(lines.size() == fs.size(), "%s has %zu lines for %zu flags: %s", what, lines.size(), fs.size(), quote(text).c_str());
  for (auto i = std::size_t{0}; i != fs.size(); ++i) {
    auto l = lines[i];
    auto const word = [&](std::string const& w) {
      auto const b = l.find_first_not_of(' ');
      l = b == std::string::npos ? "" : l.substr(b);
      auto const ok = l.compare(0, w.size(), w) == 0 && (l.size() == w.size() || l[w.size()] == ' ');
      if (ok) l = l.substr(w.size());
      return ok;
    };
    if (!fs[i].l.empty()) SEQ_CHECK(word(fs[i].l), "%s: line %zu does not name %s: %s", what, i, fs[i].l.c_str(), quote(lines[i]).c_str());
    if (!fs[i].s.empty()) SEQ_CHECK(word(fs[i].s), "%s: line %zu does not name %s: %s", what, i, fs[i].s.c_str(), quote(lines[i]).c_str());
    if (fs[i].req) SEQ_CHECK(word("*"), "%s: line %zu lacks the required marker: %s", what, i, quote(lines[i]).c_str());
    if (last[i].empty()) SEQ_CHECK(l.find_first_not_of(' ') == std::string::npos, "%s: line %zu: %s", what, i, quote(lines[i]).c_str());
    else SEQ_CHECK(word(last[i]) && l.empty(), "%s: line %zu is %s, expected it to end with %s", what, i, quote(lines[i]).c_str(), quote(last[i]).c_str());
  }
}

template <typename T>
void run_args(std::vector<std::string> const& args) {
  auto const n = static_cast<int>(args.size());
  // exactly sized blocks: any read outside is caught
  std::vector<std::unique_ptr<char[]>> blocks;
  auto argv = std::make_unique<char const*[]>(static_cast<std::size_t>(n));
  for (auto i = 0; i < n; ++i) {
    auto const& t = args[static_cast<std::size_t>(i)];
    blocks.emplace_back(new char[t.size() + 1]);
    std::memcpy(blocks.back().get(), t.c_str(), t.size() + 1);
    argv[static_cast<std::size_t>(i)] = blocks.back().get();
  }
  if (seq::recording()) seq::note("arguments %s", seq::show(args).c_str());

  auto const fs = decl(static_cast<T*>(nullptr));
  std::vector<std::optional<std::string>> want(fs.size());  // none: unspecified
  std::vector<flag> missing;
  for (auto f = std::size_t{0}; f != fs.size(); ++f) {
    auto last = -1, before = -1;
    for (auto i = 0; i < n; ++i)
      if ((!fs[f].s.empty() && args[i] == fs[f].s) || (!fs[f].l.empty() && args[i] == fs[f].l)) { before = last; last = i; }
    auto const has_value = last >= 0 && (fs[f].k == BOOL || (last + 1 < n && !args[static_cast<std::size_t>(last + 1)].empty()));
    if (last >= 0) seq::nontrivial();
    if (fs[f].req && !has_value) missing.push_back(fs[f]);
    if (last < 0) want[f] = fs[f].dflt;
    else if (fs[f].k == BOOL) want[f] = "true";
    else if (!has_value) { if (before < 0) want[f] = fs[f].dflt; }
    else {
      auto const& v = args[static_cast<std::size_t>(last + 1)];
      if (fs[f].k == STR) want[f] = v;
      else if (number(v)) want[f] = number_value(v);
    }
  }

  seq::op();
  std::optional<T> got;
  try {
    got.emplace(utl::parse_flags<T>(n, argv.get()));
  } catch (std::exception const& e) {
    SEQ_CHECK(!missing.empty(), "parsing failed (%s) although nothing required is missing", e.what());
    auto named = false;  // several missing: any of them may be named, by either name
    auto const says = [&](std::string const& name) { return !name.empty() && std::string_view{e.what()}.find(name) != std::string_view::npos; };
    for (auto const& f : missing) named |= says(f.l) || says(f.s);
    SEQ_CHECK(named, "the error %s does not name a missing flag", quote(e.what()).c_str());
    return;
  }
  SEQ_CHECK(missing.empty(), "required flag %s%s is missing but parsing succeeded", missing[0].s.c_str(), missing[0].l.c_str());
  auto const have = values(*got);
  for (auto f = std::size_t{0}; f != fs.size(); ++f)
    SEQ_CHECK(!want[f] || have[f] == *want[f], "flag %s%s is %s, expected %s", fs[f].s.c_str(), fs[f].l.c_str(), quote(have[f]).c_str(), quote(*want[f]).c_str());

  std::vector<std::string> descs;
  for (auto const& f : fs) descs.push_back(f.desc);
  check_listing("description", fs, utl::description<T>(), descs);
  check_listing("listing", fs, utl::print_flags(*got), have);
}

template <typename T>
void run(std::vector<std::string> const& tokens, int const max) {
  auto const n = seq::pick(max + 1);
  std::vector<std::string> args;
  for (auto i = 0; i < n; ++i) args.push_back(seq::of(tokens));
  run_args<T>(args);
}

// many arguments, long values
template <typename T>
void run_many(std::string const& name, std::string const& other, std::vector<std::string> const& required, bool const text) {
  auto const n = seq::of<std::size_t>({2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1025, 32769, 65536, 65537, 70001});
  auto const filler = n > 300 ? std::string{"x"} : seq::of<std::string>({"x", "", "-", "--", "-xy"});
  auto args = std::vector<std::string>(n, filler);
  std::vector<std::size_t> pos{0};
  for (auto const p : {1UL, 30UL, 31UL, 63UL, 126UL, 127UL, 254UL, 255UL, 256UL, 32767UL, 65534UL, 65535UL, 65536UL, n / 2, n - 2, n - 1})
    if (p > pos.back() && p < n) pos.push_back(p);
  if (n > 300) pos = {0, n / 2, n - 2, n - 1};
  auto const value = text && n < 40 ? std::string(seq::of<std::size_t>({1, 15, 16, 255, 256, 65536, 70001}), 'v') : std::string{text ? "vv" : "8"};
  auto const p = seq::of(pos);
  args[p] = name;
  if (p + 1 < n) args[p + 1] = value;
  switch (seq::pick(3)) {
    case 0: break;
    case 1: args.insert(args.begin(), {other, text ? "old" : "-1"}); break;
    case 2: args.insert(args.begin(), {name, text ? "old" : "-1"}); break;
  }
  if (seq::flip()) args.insert(args.begin(), required.begin(), required.end());
  else args.insert(args.end(), required.begin(), required.end());
  run_args<T>(args);
}

// words that begin or end like a flag
void similar() {
  auto const f = seq::of<std::string>({"-c", "--capture", "--file", "-n", "--num"});
  auto const add = seq::of<std::string>({"a", "=", "=8", " ", "-", "8", "\n", "c", "\xff", std::string(255, 'x'), std::string(256, 'x'), std::string(65536, 'x')});
  auto word = f + add;
  switch (seq::pick(4)) {
    case 0: break;
    case 1: word = add + f; break;
    case 2: word = f.substr(0, f.size() - 1); break;
    case 3: word = f; word[seq::of<std::size_t>({0, 1, f.size() - 1})] ^= 0x20; break;
  }
  std::vector<std::string> args{"exe", word, "8", "--file", "f"};
  switch (seq::pick(3)) {
    case 0: break;
    case 1: args.push_back(word); break;
    case 2: args[3] = word; break;
  }
  run_args<small>(args);
}
}  // namespace

std::vector<seq::config> seq::configs(std::string const& prop) {
  std::vector<config> c;
  if (prop != "T10") return c;
  auto const add = [&](char const* name, auto fn, std::vector<std::string> tokens, int quick, int thorough) {
    c.push_back({std::string{name} + ", up to " + std::to_string(quick) + " arguments over " + seq::show(tokens), [=] { fn(tokens, quick); }, 0, 16});
    c.push_back({std::string{name} + ", up to " + std::to_string(thorough) + " arguments over " + seq::show(tokens), [=] { fn(tokens, thorough); }, 1, 32});
  };
  add("bool, required string, int", [](auto& t, int m) { run<small>(t, m); }, {"./exe", "-c", "--capture", "--file", "-n", "--num", "8", "", "--nu"}, 5, 7);
  add("defaults, names that are prefixes", [](auto& t, int m) { run<defaults>(t, m); }, {"-s", "--fil", "--file", "--on", "--files", "-1", "-", "007", ""}, 5, 7);
  add("two required flags", [](auto& t, int m) { run<two_required>(t, m); }, {"-r", "-b", "--bool", "8", "x", ""}, 6, 8);
  add("floating point flag", [](auto& t, int m) { run<single>(t, m); }, {"-d", "--dbl", "8", "-1", "--db", "d"}, 6, 8);
  add("long names", [](auto& t, int m) { run<long_names>(t, m); }, {NAME_29, "-" NAME_30, NAME_31, NAME_65, NAME_257, SAME "ters-a", SAME "ters-b", SAME, "-a", "8", NAME_30}, 4, 5);
  add("long names, required", [](auto& t, int m) { run<long_required>(t, m); }, {SAME "ters-a", SAME "ters-b", "-" SAME "ters-b", SAME, "-" SAME, "8"}, 4, 6);
  c.push_back({"words like flags", [] { similar(); }});
  c.push_back({"many arguments, long text values", [] { seq::flip() ? run_many<small>("--file", "--capture", {"-n", "8"}, true) : run_many<defaults>("-s", "--fil", {"--on", "--file"}, true); }, 0, 8});
  c.push_back({"many arguments, numbers and switches", [] {
    switch (seq::pick(4)) {
      case 0: run_many<small>("-n", "--num", {"--file", "f"}, false); break;
      case 1: run_many<small>("--capture", "--num", {"--file", "f"}, false); break;
      case 2: run_many<two_required>("-r", "-b", {"--bool"}, false); break;
      case 3: run_many<two_required>("-b", "--bool", {"-r", "8"}, false); break;
    }
  }, 0, 8});
  return c;
}
