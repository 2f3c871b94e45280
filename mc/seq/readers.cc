// Line readers (T04): memory buffers, mapped files, line ranges, whole-file loops.
#include "seq.h"
#include <iostream>
#include <sstream>
#include <stdexcept>
#include "utl/for_each_line_in_file.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/line_range.h"
#include "utl/parser/mmap_reader.h"
#include "utl/pipes.h"

using seq::pick;
using seq::quote;
using seq::show;
using utl::cstr;

namespace {
std::vector<std::string> lines_of(std::string const& s) {
  std::vector<std::string> v;
  std::string cur;
  for (auto c : s) { if (c == '\n') { v.push_back(cur); cur.clear(); } else cur += c; }
  if (!cur.empty()) v.push_back(cur);
  return v;
}

struct source {
  explicit source(std::string s) : s{std::move(s)}, e{this->s} {}
  std::string s;
  seq::exact e;
  cstr view() const { return {e.data(), e.size()}; }
  void inside(cstr c, char const* what) const { SEQ_CHECK(c.len == 0 || (c.str >= e.data() && c.str + c.len <= e.data() + e.size()), "%s delivers a line outside the buffer", what); }
};

void same(std::vector<std::string> const& got, std::vector<std::string> const& want, std::string const& s, char const* what) {
  SEQ_CHECK(got == want, "%s on %s delivers %s instead of %s", what, quote(s.substr(0, 100)).c_str(), show(got).c_str(), show(want).c_str());
}

struct progress_log {
  void operator()(std::size_t const n) const { log->push_back(n); }
  std::vector<std::size_t>* log;
};

void check_progress(std::vector<std::size_t> const& log, std::size_t const size) {
  auto last = std::size_t{0};
  for (auto const x : log) {
    SEQ_CHECK(x >= last, "progress decreases from %zu to %zu", last, x);
    SEQ_CHECK(x <= size, "progress %zu exceeds the total %zu", x, size);
    last = x;
  }
}

template <typename Reader>
std::vector<std::string> drain(Reader& r, std::size_t const limit, char const* what) {
  std::vector<std::string> got;
  for (;;) {
    auto const l = r.read_line();
    if (l.data() == nullptr) break;
    got.push_back(l.to_str());
    SEQ_CHECK(got.size() <= limit + 1, "%s does not end", what);
  }
  for (auto i = 0; i != 3; ++i) SEQ_CHECK(r.read_line().data() == nullptr, "%s delivers a line after the end", what);
  return got;
}

template <typename Range>
std::vector<std::string> walk(Range&& r, std::size_t const limit, char const* what) {
  std::vector<std::string> got;
  auto it = r.begin();
  while (r.valid(it)) {
    auto&& l = r.read(it);
    got.push_back(l.to_str());
    SEQ_CHECK(got.size() <= limit + 1, "%s does not end", what);
    r.next(it);
  }
  return got;
}

std::string put(std::string const& s) { return seq::put_file("t04", s); }

void all_lines(std::string const& text, int const how) {
  auto const want = lines_of(text);
  auto const n = want.size();
  if (n > 1) seq::nontrivial();
  seq::op();
  seq::note("way %d: %s", how, show(want).c_str());
  switch (how) {
    case 0: {  // buffer reader
      source const src{text};
      utl::buf_reader<> r{src.view()};
      std::vector<std::string> got;
      for (auto l = r.read_line(); l.data() != nullptr; l = r.read_line()) {
        src.inside(l, "buf_reader");
        got.push_back(l.to_str());
        SEQ_CHECK(got.size() <= n + 1, "buf_reader does not end");
      }
      for (auto i = 0; i != 3; ++i) SEQ_CHECK(r.read_line().data() == nullptr, "buf_reader delivers a line after the end");
      same(got, want, text, "buf_reader");
      break;
    }
    case 1: {  // with progress
      source const src{text};
      std::vector<std::size_t> log;
      auto r = utl::make_buf_reader(src.view(), progress_log{&log});
      same(drain(r, n, "buf_reader"), want, text, "make_buf_reader");
      check_progress(log, text.size());
      break;
    }
    case 2: {
      source const src{text};
      same(walk(utl::line_range{utl::make_buf_reader(src.view(), utl::noop_progress_consumer{})}, n, "line_range"), want, text, "line_range");
      break;
    }
    case 3: {
      source const src{text};
      auto const ls = utl::line_range{utl::make_buf_reader(src.view(), utl::noop_progress_consumer{})} | utl::vec();
      std::vector<std::string> got;
      for (auto const& l : ls) { src.inside(l, "line_range"); got.push_back(l.to_str()); }
      same(got, want, text, "line_range | vec");
      break;
    }
    case 4: {
      source const src{text};
      std::vector<std::string> got;
      utl::line_range{utl::make_buf_reader(src.view(), utl::noop_progress_consumer{})} | utl::for_each([&](cstr l) { got.push_back(l.to_str()); SEQ_CHECK(got.size() <= n + 1, "line_range does not end"); });
      same(got, want, text, "line_range | for_each");
      break;
    }
    case 5: {
      auto const p = put(text);
      std::vector<std::string> got;
      utl::for_each_line_in_file(p, [&](std::string const& l) { got.push_back(l); SEQ_CHECK(got.size() <= n + 1, "for_each_line_in_file does not end"); });
      same(got, want, text, "for_each_line_in_file");
      break;
    }
    case 6: {  // standard input
      std::istringstream in{text};
      auto* const old = std::cin.rdbuf(in.rdbuf());
      std::cin.clear();
      std::vector<std::string> got;
      utl::for_each_line_in_file("-", [&](std::string const& l) { got.push_back(l); SEQ_CHECK(got.size() <= n + 1, "for_each_line_in_file does not end"); });
      std::cin.rdbuf(old);
      same(got, want, text, "for_each_line_in_file(-)");
      break;
    }
    default: {
      auto const p = put(text);
      if (text.empty()) {  // cannot be mapped
        auto threw = false;
        try { utl::mmap_reader r{p.c_str()}; } catch (std::exception const&) { threw = true; }
        SEQ_CHECK(threw, "mapping an empty file is no error");
        break;
      }
      if (how == 7) {
        utl::mmap_reader r{p.c_str()};
        auto last = 0.F;
        std::vector<std::string> got;
        SEQ_CHECK(r.progress() == 0.F, "progress at the begin is %f", static_cast<double>(r.progress()));
        for (auto l = r.read_line(); l.data() != nullptr; l = r.read_line()) {
          got.push_back(l.to_str());
          SEQ_CHECK(got.size() <= n + 1, "mmap_reader does not end");
          auto const now = r.progress();
          SEQ_CHECK(now >= last && now <= 1.F, "progress from %f to %f", static_cast<double>(last), static_cast<double>(now));
          last = now;
        }
        SEQ_CHECK(last == 1.F, "progress at the end is %f", static_cast<double>(last));
        for (auto i = 0; i != 3; ++i) SEQ_CHECK(r.read_line().data() == nullptr, "mmap_reader delivers a line after the end");
        same(got, want, text, "mmap_reader");
      } else if (how == 8) {
        same(walk(utl::line_range{utl::mmap_reader{p.c_str()}}, n, "line_range"), want, text, "line_range over mmap_reader");
      } else {  // moved in the middle
        utl::mmap_reader r{p.c_str()};
        auto const k = static_cast<std::size_t>(pick(2));
        std::vector<std::string> got;
        for (auto i = std::size_t{0}; i != std::min(k, n); ++i) got.push_back(r.read_line().to_str());
        auto q = std::move(r);
        auto const rest = drain(q, n, "mmap_reader");
        got.insert(end(got), begin(rest), end(rest));
        same(got, want, text, "mmap_reader after a move");
      }
    }
  }
}

void small(int max, std::string_view alphabet) {
  auto const how = pick(10);
  all_lines(seq::text(max, alphabet), how);
}

// line lengths around the block sizes of streams and pages
void blocks(std::vector<int> const& sizes, int lines) {
  auto const how = pick(10);
  std::string s;
  auto const n = seq::range(1, lines);
  for (auto i = 0; i != n; ++i) {
    auto const len = static_cast<std::size_t>(seq::of(sizes));
    s += std::string(len, static_cast<char>('a' + i));
    if (i + 1 != n || seq::flip()) s += '\n';
  }
  all_lines(s, how);
}

// sequences of line and block reads on a mapped file against the position in the text
void mixed(int max, int steps) {
  auto s = seq::text(max, "a\n\r");
  if (s.empty()) s = "a";
  auto const p = put(s);
  utl::mmap_reader r{p.c_str()};
  auto pos = std::size_t{0};
  char const* base = nullptr;
  auto last = 0.F;
  for (auto i = 0; i != steps; ++i) {
    auto const o = pick(6);
    seq::op();
    if (o == 0) {
      auto const l = r.read_line();
      if (pos == s.size()) {
        SEQ_CHECK(l.data() == nullptr && l.length() == 0, "line after the end");
      } else {
        auto const nl = s.find('\n', pos);
        auto const to = nl == std::string::npos ? s.size() : nl;
        SEQ_CHECK(l.data() != nullptr && l.view() == std::string_view{s}.substr(pos, to - pos), "line at %zu of %s is %s", pos, quote(s).c_str(), quote(l.view()).c_str());
        if (base == nullptr) base = l.data() - pos;
        SEQ_CHECK(l.data() == base + pos, "line is not a view of the file");
        pos = nl == std::string::npos ? s.size() : nl + 1;
      }
    } else {
      auto const num = o == 1 ? 0 : o == 2 ? 1 : o == 3 ? 2 : o == 4 ? s.size() : std::numeric_limits<std::size_t>::max();
      auto const b = r.read(num);
      auto const want = std::string_view{s}.substr(pos, num);
      SEQ_CHECK(b.view() == want, "block of %zu at %zu of %s is %s", num, pos, quote(s).c_str(), quote(b.view()).c_str());
      if (base == nullptr && b.data()) base = b.data() - pos;
      if (!want.empty()) SEQ_CHECK(b.data() == base + pos, "block is not a view of the file");
      pos += want.size();
      seq::nontrivial();
    }
    auto const now = r.progress();
    SEQ_CHECK(now >= last && now <= 1.F, "progress from %f to %f", static_cast<double>(last), static_cast<double>(now));
    last = now;
  }
  if (pos == s.size()) SEQ_CHECK(last == 1.F, "progress at the end is %f", static_cast<double>(last));
  seq::note("%s read to %zu", quote(s).c_str(), pos);
}

// many lines, long lines
void many(std::vector<std::size_t> const& sizes) {
  auto const how = pick(10);
  auto const n = seq::of(sizes);
  auto const sort = n > 500000 ? 3 : pick(4);
  std::string s;
  if (sort == 3) {
    s = "ab\n" + std::string(n, 'c');
    for (auto i = std::size_t{0}; i < n; i += 3) s[3 + i] = static_cast<char>('d' + i % 20);
    s += seq::flip() ? "\nx" : "";
  } else {
    for (auto i = std::size_t{0}; i != n; ++i) {
      if (i != 0) s += '\n';
      if (sort == 1 || (sort == 2 && i % 7 != 3)) s += static_cast<char>('a' + i % 26);
      if (sort == 2 && i % 5 == 0) s += "b\r";
    }
  }
  if (seq::flip()) s += '\n';
  all_lines(s, how);
}

// positions and block sizes beyond 32 bit: a mapped file with holes
void huge_file() {
  auto const at = seq::of<std::size_t>({(1ULL << 31U) - 2, (1ULL << 31U) + 5, (1ULL << 32U) - 1, (1ULL << 32U) + 3, 3 * (1ULL << 32U) + 1});
  auto const tail = std::string{"abc\ndefg\r\nh"};
  auto const p = seq::put_file("t04huge", "");
  auto const size = at + tail.size();
  std::unique_ptr<FILE, int (*)(FILE*)> f{fopen(p.c_str(), "wb"), &fclose};
  if (!f || fseeko(f.get(), static_cast<off_t>(at), SEEK_SET) != 0 || fwrite(tail.data(), 1, tail.size(), f.get()) != tail.size() || fflush(f.get()) != 0) return;
  f.reset();
  auto const cut = pick(4);
  seq::nontrivial();
  seq::op();
  seq::note("%zu bytes, way %d", size, cut);
  {
    utl::mmap_reader r{p.c_str()};
    auto block = [&](std::size_t const n, std::size_t const want) {
      auto const b = r.read(n);
      SEQ_CHECK(b.length() == want, "block of %zu bytes has %zu instead of %zu", n, b.length(), want);
      return b;
    };
    SEQ_CHECK(r.progress() == 0.F, "progress at the begin is %f", static_cast<double>(r.progress()));
    if (cut == 3) {
      auto const all = block(std::numeric_limits<std::size_t>::max(), size);
      SEQ_CHECK(all.view().substr(at) == tail, "the end of the block differs");
      SEQ_CHECK(r.read_line().data() == nullptr && r.read(5).length() == 0, "something after the end");
    } else {
      auto const first = cut == 0 ? at : cut == 1 ? at / 2 : std::size_t{3};
      auto const b = block(first, first);
      auto const c = block(at - first, at - first);
      if (c.length() != 0) SEQ_CHECK(c.data() == b.data() + first, "the second block does not follow the first");
      SEQ_CHECK(r.progress() <= 1.F && r.progress() > .99F, "progress at %zu of %zu is %f", at, size, static_cast<double>(r.progress()));
      auto const l1 = r.read_line();
      SEQ_CHECK(l1.view() == "abc" && l1.data() == b.data() + at, "line at %zu is %s", at, quote(l1.view().substr(0, 50)).c_str());
      auto const l2 = r.read_line();
      SEQ_CHECK(l2.view() == "defg\r", "second line is %s", quote(l2.view().substr(0, 50)).c_str());
      block(std::numeric_limits<std::size_t>::max(), 1);
      SEQ_CHECK(r.read_line().data() == nullptr, "line after the end");
    }
    SEQ_CHECK(r.progress() == 1.F, "progress at the end is %f", static_cast<double>(r.progress()));
  }
  seq::put_file("t04huge", "");
}

void missing() {
  auto const k = pick(3);
  auto const path = k == 0 ? seq::scratch() + "/does-not-exist" : k == 1 ? seq::scratch() : std::string{};
  auto threw = false;
  seq::note("open %s", path.c_str());
  seq::nontrivial();
  try { utl::mmap_reader r{path.c_str()}; } catch (std::exception const&) { threw = true; }
  SEQ_CHECK(threw, "opening %s does not fail", quote(path).c_str());
}
}  // namespace

namespace seq {
std::vector<config> configs(std::string const& p) {
  std::vector<config> v;
  if (p != "T04") return v;
  v.push_back({"every reader, texts up to 5 bytes of {a,LF,CR}", [] { small(5, "a\n\r"); }, 0, 4});
  v.push_back({"every reader, texts up to 3 bytes of {a,LF,NUL,0xff,space}", [] { small(3, std::string_view{"a\n\0\xff ", 5}); }, 0, 2});
  v.push_back({"every reader, up to 3 lines of lengths around block sizes", [] { blocks({0, 1, 4095, 4096, 4097, 8190, 8191, 8192}, 3); }, 0, 8});
  v.push_back({"line and block reads of a mapped file, texts up to 4 bytes, 4 steps", [] { mixed(4, 4); }, 0, 8});
  v.push_back({"files that cannot be mapped", [] { missing(); }});
  v.push_back({"every reader, many or long lines", [] { many({127, 128, 255, 256, 257, 1025, 32768, 65535, 65536, 65537, 70001}); }, 0, 4});
  v.push_back({"every reader, 1 MiB and more", [] { many({(1U << 20U) - 1, 1U << 20U, (1U << 20U) + 1, 3000001}); }, 0, 8});
  v.push_back({"mapped file with positions beyond 32 bit", [] { huge_file(); }});
  v.push_back({"every reader, texts up to 8 bytes of {a,LF,CR}", [] { small(8, "a\n\r"); }, 1, 8});
  v.push_back({"every reader, texts up to 5 bytes of {a,LF,NUL,0xff,space}", [] { small(5, std::string_view{"a\n\0\xff ", 5}); }, 1, 8});
  v.push_back({"every reader, up to 4 lines of lengths around block sizes", [] { blocks({0, 1, 2, 4095, 4096, 4097, 8190, 8191, 8192, 65535, 65536}, 4); }, 1, 8});
  v.push_back({"line and block reads of a mapped file, texts up to 5 bytes, 5 steps", [] { mixed(5, 5); }, 1, 8});
  return v;
}
}  // namespace seq
