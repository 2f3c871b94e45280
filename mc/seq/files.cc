// Whole-file reading (F01), writing (F02), ownership of buffers and mappings (R01).
#include "sysfault.h"
#include <array>
#include <optional>
#include <sys/stat.h>
#include "utl/parser/buffer.h"
#include "utl/parser/file.h"
#include "utl/parser/mmap_reader.h"
#include "utl/read_file.h"

using seq::pick;
using seq::quote;

namespace {
std::string bytes(std::size_t const n, unsigned seed = 1) {
  std::string s(n, 0);
  for (auto i = std::size_t{0}; i != n; ++i) {
    seed = seed * 1664525U + 1013904223U;
    s[i] = static_cast<char>(seed >> 24);
    if (i % 7 == 3) s[i] = "\r\n\0\x1a\xff\n\r"[(i / 7) % 7];
  }
  return s;
}
std::string diff(std::string const& got, std::string const& want) {
  auto i = std::size_t{0};
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  char b[160];
  snprintf(b, sizeof b, "%zu bytes instead of %zu, first difference at %zu", got.size(), want.size(), i);
  return b;
}
std::string str(utl::buffer const& b) { return b.size() == 0 ? std::string{} : std::string{reinterpret_cast<char const*>(b.data()), b.size()}; }

// a run with descriptor 0 free, as in a process started without standard input
struct no_stdin {
  explicit no_stdin(bool const on) : saved{on ? fcntl(0, F_DUPFD, 100) : -1} { if (on) close(0); }
  ~no_stdin() { if (saved >= 0) { dup2(saved, 0); close(saved); } }
  int saved;
};

// ------------------------------------------------------------ F01
enum reader { READ_FILE, CONTENT, CONTENT_STR, SIZE, MAP, MAP_PARTS, READERS };
char const* const READER_NAMES[] = {"read_file", "content", "content_str", "size", "mapped", "mapped in parts"};

struct outcome { bool ok; std::string data; std::size_t size = 0; };

std::string map_all(utl::mmap_reader& r, bool const parts, std::size_t const limit) {
  std::string s;
  auto const add = [&](utl::cstr const c) {
    SEQ_CHECK(c.len + s.size() <= limit, "the mapped reader delivered more than the file's %zu bytes", limit);
    if (c.len != 0) s.append(c.str, c.len);
    return c.len != 0;
  };
  if (!parts) add(r.read(limit + 10));
  else for (auto n = std::size_t{1}; add(r.read(n)); n = n * 3 + 1) {}
  SEQ_CHECK(r.read(5).len == 0, "the mapped reader delivers data past the end");
  return s;
}

// the operations on one object; every result that counts as success is exact
void read_run(std::vector<sysf::plan> const& plan, std::string const& path, std::string const& content, std::vector<int> const& ops, char const* mode) {
  sysf::arm(plan);
  auto failures = 0;
  auto const failed = [&](char const* what, char const* why) {
    ++failures;
    SEQ_CHECK(sysf::B.injected > 0, "%s of a readable file of %zu bytes fails: %s", what, content.size(), why);
  };
  auto const got = [&](char const* what, std::string const& s) {
    SEQ_CHECK(s == content, "%s presents other content as success: %s; system calls:%s", what, diff(s, content).c_str(), sysf::B.trace);
  };
  std::optional<utl::file> f;
  for (auto const o : ops) {
    seq::op();
    switch (o) {
      case READ_FILE: {
        auto const r = utl::read_file(path.c_str());
        if (r) got("read_file", *r); else failed("read_file", "no value");
        break;
      }
      case MAP: case MAP_PARTS:
        try {
          utl::mmap_reader r{path.c_str()};
          got("the mapped reader", map_all(r, o == MAP_PARTS, content.size()));
        } catch (std::exception const& e) {
          if (!content.empty()) failed("mapping", e.what());
        }
        break;
      default:
        try {
          if (!f) f.emplace(path.c_str(), mode);
          if (o == CONTENT) got("content()", str(f->content()));
          else if (o == CONTENT_STR) got("content_str()", f->content_str());
          else {
            auto const n = f->size();
            SEQ_CHECK(n == content.size(), "size() reports %zu for a file of %zu bytes; system calls:%s", n, content.size(), sysf::B.trace);
          }
        } catch (std::exception const& e) {
          failed(READER_NAMES[o], e.what());
        }
    }
  }
  f.reset();
  sysf::disarm();
  if (failures) seq::nontrivial();
  sysf::check_books("after reading");
}

std::vector<std::size_t> const SIZES{0, 1, 2, 100, 4095, 4096, 4097, 8191, 8192, 8193, 70001};
std::vector<std::size_t> const FEW{0, 1, 4096, 4097, 8200};

void f01(int const max_ops, int const faults, bool const all_sizes, bool const modes, bool const free_zero = false) {
  sysf::install();
  auto const ns = no_stdin{free_zero};
  auto const n = seq::of(all_sizes ? SIZES : FEW);
  auto const mode = modes && seq::flip() ? "rb" : "r";
  std::vector<int> ops;
  auto const first = pick(READERS);
  ops.push_back(first);
  if (first == CONTENT || first == CONTENT_STR || first == SIZE)
    for (auto i = 1; i < max_ops; ++i) { auto const k = pick(4); if (k == 0) break; ops.push_back(k); }
  auto const content = bytes(n);
  auto const path = seq::put_file("f", content);
  if (seq::recording()) { std::string s; for (auto o : ops) s += std::string{" "} + READER_NAMES[o]; seq::note("%zu bytes,%s", n, s.c_str()); }
  sysf::enumerate(faults, [&](auto const& plan) {
    read_run(plan, path, content, ops, mode);
    if (seq::recording()) seq::note("%s", sysf::B.trace);
  });
}

// files that cannot be read at all
void f01_bad() {
  sysf::install();
  auto const which = pick(2);
  auto const path = which ? seq::scratch() : seq::scratch() + "/missing/file";
  sysf::reset();
  sysf::arm({});
  auto const r = pick(READERS);
  seq::nontrivial();
  auto ok = false;
  try {
    switch (r) {
      case READ_FILE: ok = utl::read_file(path.c_str()).has_value(); break;
      case CONTENT: { utl::file f{path.c_str(), "r"}; f.content(); ok = true; break; }
      case CONTENT_STR: { utl::file f{path.c_str(), "r"}; f.content_str(); ok = true; break; }
      case SIZE: { utl::file f{path.c_str(), "r"}; f.size(); ok = which == 0; break; }
      default: { utl::mmap_reader m{path.c_str()}; ok = true; }
    }
  } catch (std::exception const&) {
  }
  sysf::disarm();
  SEQ_CHECK(!ok, "%s succeeds on a %s", READER_NAMES[r], which ? "directory" : "missing file");
  sysf::check_books("after failing");
}

// ------------------------------------------------------------ F02
std::size_t const WRITES[] = {0, 1, 100, 4096, 5000, 70001};

void write_run(std::vector<sysf::plan> const& plan, std::string const& path, std::vector<std::size_t> const& sizes, char const* mode, std::string const& before) {
  ::unlink(path.c_str());
  if (!before.empty()) seq::put_file("w", before);
  auto want = mode[0] == 'a' ? before : std::string{};
  sysf::arm(plan);
  auto failed = false;
  auto const look = [&](char const* when) {
    sysf::paused p;
    std::string have;
    if (!seq::get_file(path, have)) have.clear();
    if (failed) SEQ_CHECK(have.size() >= want.size() && have.compare(0, want.size(), want) == 0, "%s: earlier writes were damaged: %s; system calls:%s", when, diff(have, want).c_str(), sysf::B.trace);
    else SEQ_CHECK(have == want, "%s: %s; system calls:%s", when, diff(have, want).c_str(), sysf::B.trace);
  };
  try {
    utl::file f{path.c_str(), mode};
    auto seed = 7U;
    for (auto const n : sizes) {
      auto const data = bytes(n, seed++);
      seq::op();
      try {
        f.write(data.data(), n);
      } catch (std::exception const& e) {
        SEQ_CHECK(sysf::B.injected > 0, "writing %zu bytes fails without reason: %s", n, e.what());
        failed = true;
        seq::nontrivial();
        break;
      }
      want += data;
      look("after a write that returned normally");
    }
  } catch (std::exception const& e) {
    SEQ_CHECK(sysf::B.injected > 0, "the file cannot be opened: %s", e.what());
    sysf::disarm();
    sysf::check_books("after a failed open");
    return;
  }
  sysf::disarm();
  look("after closing");
  sysf::check_books("after writing");
}

void f02(int const max_writes, int const faults, bool const free_zero = false) {
  sysf::install();
  auto const ns = no_stdin{free_zero};
  static char const* const MODES[] = {"w+", "w", "wb", "a"};
  auto const m = MODES[pick(4)];
  auto const before = m[0] == 'a' || seq::flip() ? bytes(50, 99) : std::string{};
  std::vector<std::size_t> sizes;
  auto const n = 1 + pick(max_writes);
  for (auto i = 0; i < n; ++i) sizes.push_back(WRITES[pick(6)]);
  auto const path = seq::scratch() + "/w";
  if (seq::recording()) { std::string s; for (auto o : sizes) s += " " + std::to_string(o); seq::note("mode %s, writes of%s", m, s.c_str()); }
  sysf::enumerate(faults, [&](auto const& plan) {
    write_run(plan, path, sizes, m, before);
    if (seq::recording()) seq::note("%s", sysf::B.trace);
  });
}

void f02_bad() {
  sysf::install();
  sysf::reset();
  sysf::arm({});
  auto const which = pick(3);
  auto const path = which == 0 ? seq::scratch() + "/missing/file" : which == 1 ? seq::scratch() : seq::scratch() + "/f0/x";
  auto thrown = false;
  seq::nontrivial();
  try { utl::file f{path.c_str(), which == 2 ? "r" : "w+"}; } catch (std::exception const&) { thrown = true; }
  sysf::disarm();
  SEQ_CHECK(thrown, "opening a file that cannot be opened succeeds");
  sysf::check_books("after a failed open");
}

// ------------------------------------------------------------ R01: buffers
constexpr auto TOO_MUCH = std::size_t{1} << 36;  // a real allocator fails, too
int fail_in = 0;      // the n-th allocation from now fails
bool alloc_failed = false;
bool alloc_fault() {
  if (fail_in > 0 && --fail_in == 0) { alloc_failed = true; return true; }
  return false;
}
}  // namespace

extern "C" {
void* __real_malloc(std::size_t);
void* __real_realloc(void*, std::size_t);
void* __real_calloc(std::size_t, std::size_t);
void* __real__Znwm(std::size_t);
void* __real__Znam(std::size_t);
void* __wrap_malloc(std::size_t n) { if (alloc_fault() || n > TOO_MUCH) { errno = ENOMEM; return nullptr; } return __real_malloc(n); }
void* __wrap_calloc(std::size_t a, std::size_t b) { if (alloc_fault()) { errno = ENOMEM; return nullptr; } return __real_calloc(a, b); }
void* __wrap_realloc(void* p, std::size_t n) { if (alloc_fault() || n > TOO_MUCH) { errno = ENOMEM; return nullptr; } return __real_realloc(p, n); }
void* __wrap__Znwm(std::size_t n) { if (alloc_fault() || n > TOO_MUCH) throw std::bad_alloc{}; return __real__Znwm(n); }
void* __wrap__Znam(std::size_t n) { if (alloc_fault() || n > TOO_MUCH) throw std::bad_alloc{}; return __real__Znam(n); }
}

namespace {
struct slot { std::optional<utl::buffer> b; std::string want; };

void fill(slot& s, unsigned const seed) {
  auto const d = bytes(s.b->size(), seed);
  if (!d.empty()) std::memcpy(s.b->data(), d.data(), d.size());
  s.want = d;
}

void r01_buffers(int const slots, int const depth, std::size_t const large = 1000) {
  std::vector<slot> v(static_cast<std::size_t>(slots));
  auto const at = [&] { return static_cast<std::size_t>(pick(slots)); };
  std::size_t const N[] = {0, 1, 5, large};
  auto const check = [&](char const* when) {
    for (auto const& s : v)
      if (s.b) {
        SEQ_CHECK(s.b->size() == s.want.size(), "%s: a buffer has %zu bytes, expected %zu", when, s.b->size(), s.want.size());
        SEQ_CHECK(str(*s.b) == s.want, "%s: a buffer lost its content", when);
        SEQ_CHECK(const_cast<utl::buffer&>(*s.b).end() == const_cast<utl::buffer&>(*s.b).begin() + s.want.size(), "%s: begin/end do not span the buffer", when);
      }
    for (auto i = std::size_t{0}; i != v.size(); ++i)
      for (auto j = i + 1; j != v.size(); ++j)
        if (v[i].b && v[j].b && v[i].want.size() + v[j].want.size() > 0) SEQ_CHECK(v[i].b->data() != v[j].b->data() || (v[i].want.empty() != v[j].want.empty() && v[i].b->data() == nullptr), "%s: two buffers share their memory", when);
  };
  for (auto step = 0; step < depth; ++step) {
    seq::op();
    switch (pick(6)) {
      case 0: {  // construct
        auto const i = at();
        auto const kind = pick(5);
        fail_in = seq::flip() ? 1 : 0;
        alloc_failed = false;
        if (seq::recording()) seq::note("%zu: construct %d%s", i, kind, fail_in ? ", allocation fails" : "");
        v[i].b.reset();
        try {
          switch (kind) {
            case 0: v[i].b.emplace(); v[i].want.clear(); break;
            case 1: v[i].b.emplace(N[1]); break;
            case 2: v[i].b.emplace(N[3]); break;
            case 3: v[i].b.emplace("abc"); v[i].want = "abc"; break;
            default: v[i].b.emplace("x\0yz", 3); v[i].want = std::string{"x\0y", 3};
          }
          fail_in = 0;
          SEQ_CHECK(!alloc_failed, "a failing allocation was not reported");
          if (kind == 1 || kind == 2) {
            SEQ_CHECK(v[i].b->size() == (kind == 1 ? N[1] : N[3]), "a new buffer has %zu bytes", v[i].b->size());
            fill(v[i], static_cast<unsigned>(step) + 1);
          }
        } catch (std::exception const&) {
          SEQ_CHECK(alloc_failed, "constructing a buffer throws without reason");
          fail_in = 0;
          v[i].b.reset();
          seq::nontrivial();
        }
        break;
      }
      case 1: {  // resize
        auto const i = at();
        auto const n = N[pick(4)];
        if (!v[i].b) return;
        fail_in = seq::flip() ? 1 : 0;
        alloc_failed = false;
        if (seq::recording()) seq::note("%zu: resize %zu%s", i, n, fail_in ? ", allocation fails" : "");
        try {
          v[i].b->resize(n);
          fail_in = 0;
          SEQ_CHECK(!alloc_failed, "a failing allocation was not reported");
          SEQ_CHECK(v[i].b->size() == n, "resize(%zu) gives %zu bytes", n, v[i].b->size());
          auto const keep = std::min(n, v[i].want.size());
          SEQ_CHECK(keep == 0 || std::memcmp(v[i].b->data(), v[i].want.data(), keep) == 0, "resize lost the common prefix");
          fill(v[i], static_cast<unsigned>(step) + 1);
        } catch (std::exception const&) {
          fail_in = 0;
          SEQ_CHECK(alloc_failed, "resizing throws without reason");
          seq::nontrivial();
        }
        break;
      }
      case 2: case 3: {  // move construct, move assign
        auto const assign = pick(2) == 1;
        auto const i = at(), j = at();
        if (!v[i].b || (assign && !v[j].b) || (!assign && v[j].b)) return;
        if (seq::recording()) seq::note("%zu: move %s from %zu", j, assign ? "assign" : "construct", i);
        if (assign) {
          auto& from = *v[i].b;
          *v[j].b = std::move(from);
        } else v[j].b.emplace(std::move(*v[i].b));
        if (i != j) { v[j].want = v[i].want; v[i].want.clear(); }
        seq::nontrivial();
        break;
      }
      case 4: {
        auto const i = at();
        if (!v[i].b) return;
        if (seq::recording()) seq::note("%zu: destroy", i);
        v[i].b.reset();
        break;
      }
      default: {
        auto const i = at();
        if (!v[i].b) return;
        fill(v[i], static_cast<unsigned>(step) + 50);
      }
    }
    check("after the operation");
  }
}

// ------------------------------------------------------------ R01: mapped files
struct mslot {
  std::optional<utl::mmap_reader> r;
  int file = 0;
  std::size_t pos = 0;
  bool moved = false;
};
std::string const MAPPED[] = {"ab\n\nlast", "x", std::string(9000, 'q') + "\nend\n"};

void r01_maps(int const slots, int const depth, bool const free_zero = false) {
  sysf::install();
  static std::array<std::string, 3> const paths{seq::put_file("m0", MAPPED[0]), seq::put_file("m1", MAPPED[1]), seq::put_file("m2", MAPPED[2])};
  static auto const empty = seq::put_file("m3", "");
  auto const n = no_stdin{free_zero};
  sysf::reset();
  std::vector<mslot> v(static_cast<std::size_t>(slots));
  auto const at = [&] { return static_cast<std::size_t>(pick(slots)); };
  auto const armed = [&](std::vector<sysf::plan> const& p, auto&& fn) {
    sysf::arm(p);
    fn();
    sysf::disarm();
  };
  for (auto step = 0; step < depth; ++step) {
    seq::op();
    switch (pick(5)) {
      case 0: {
        auto const i = at();
        auto const f = pick(5);  // 3: empty, 4: missing
        auto const path = f < 3 ? paths[static_cast<std::size_t>(f)] : f == 3 ? empty : seq::scratch() + "/none";
        std::vector<sysf::plan> p;
        if (f < 2)
          if (auto const k = pick(5)) p.push_back({k == 4 ? 1 : k, k == 4 ? sysf::OTHER_ERROR : sysf::IO_ERROR});
        if (seq::recording()) seq::note("%zu: map file %d%s", i, f, p.empty() ? "" : (" with a failing system call " + std::to_string(p[0].at)).c_str());
        armed({}, [&] { v[i].r.reset(); });
        auto ok = false;
        armed(p, [&] {
          try { v[i].r.emplace(path.c_str()); ok = true; } catch (std::exception const&) {}
        });
        SEQ_CHECK(ok || f >= 3 || sysf::B.injected, "mapping file %d fails", f);
        SEQ_CHECK(!ok || f < 4, "mapping a missing file succeeds");
        if (ok && f == 3) { armed({}, [&] { v[i].r.reset(); }); ok = false; }
        if (ok) { v[i].file = f; v[i].pos = 0; v[i].moved = false; }
        else seq::nontrivial();
        break;
      }
      case 1: {
        auto const assign = seq::flip();
        auto const i = at(), j = at();
        if (!v[i].r || v[i].moved || (assign && !v[j].r) || (!assign && v[j].r)) return;
        if (seq::recording()) seq::note("%zu: move %s from %zu", j, assign ? "assign" : "construct", i);
        armed({}, [&] {
          auto& from = *v[i].r;
          if (assign) *v[j].r = std::move(from); else v[j].r.emplace(std::move(from));
        });
        if (i != j) { v[j].file = v[i].file; v[j].pos = v[i].pos; v[j].moved = false; v[i].moved = true; }
        seq::nontrivial();
        break;
      }
      case 2: {
        auto const i = at();
        if (!v[i].r) return;
        if (seq::recording()) seq::note("%zu: destroy", i);
        armed({}, [&] { v[i].r.reset(); });
        break;
      }
      case 3: {
        auto const i = at();
        if (!v[i].r || v[i].moved) return;
        auto const n = pick(2) ? std::size_t{3} : std::size_t{20000};
        if (seq::recording()) seq::note("%zu: read %zu", i, n);
        auto const c = v[i].r->read(n);
        auto const want = MAPPED[v[i].file].substr(v[i].pos, n);
        SEQ_CHECK(c.len == want.size() && (c.len == 0 || std::memcmp(c.str, want.data(), c.len) == 0), "reading %zu bytes at %zu of file %d gives %s", n, v[i].pos, v[i].file, quote(c.len ? std::string{c.str, std::min<std::size_t>(c.len, 60)} : std::string{}).c_str());
        v[i].pos += want.size();
        break;
      }
      default: {
        auto const i = at();
        if (!v[i].r || v[i].moved) return;
        if (seq::recording()) seq::note("%zu: read line", i);
        auto const c = v[i].r->read_line();
        auto const& all = MAPPED[v[i].file];
        auto const e = all.find('\n', v[i].pos);
        auto const want = all.substr(v[i].pos, e == std::string::npos ? std::string::npos : e - v[i].pos);
        SEQ_CHECK(c.len == want.size() && (c.len == 0 || std::memcmp(c.str, want.data(), c.len) == 0), "reading a line at %zu of file %d gives %zu bytes", v[i].pos, v[i].file, c.len);
        v[i].pos = e == std::string::npos ? all.size() : e + 1;
      }
    }
    auto live = 0;
    for (auto const& s : v) live += s.r && !s.moved;
    SEQ_CHECK(!sysf::B.double_close, "a descriptor was closed twice");
    SEQ_CHECK(!sysf::B.bad_unmap, "a mapping was released twice or not in full");
    SEQ_CHECK(sysf::B.maps == live, "%d mappings for %d readers", sysf::B.maps, live);
    SEQ_CHECK(sysf::B.open_fds <= live, "%d descriptors for %d readers", sysf::B.open_fds, live);
  }
  armed({}, [&] { v.clear(); });
  sysf::check_books("after destroying all readers");
}
}  // namespace

std::vector<seq::config> seq::configs(std::string const& prop) {
  std::vector<config> c;
  if (prop == "F01") {
    c.push_back({"every size, up to 3 reads, no fault", [] { f01(3, 0, true, true); }, 0, 8});
    c.push_back({"no standard input, up to 2 reads, up to 1 fault", [] { f01(2, 1, false, true, true); }, 0, 8});
    c.push_back({"unreadable files", [] { f01_bad(); }});
    c.push_back({"every size, 1 read, up to 1 fault", [] { f01(1, 1, true, true); }, 0, 8});
    c.push_back({"up to 3 reads, up to 2 faults", [] { f01(3, 2, false, false); }, 0, 24, 3});
    c.push_back({"every size, up to 3 reads, up to 2 faults", [] { f01(3, 2, true, false); }, 1, 48});
    c.push_back({"up to 2 reads, up to 3 faults", [] { f01(2, 3, false, false); }, 1, 24});
  }
  if (prop == "F02") {
    c.push_back({"up to 4 writes, no fault", [] { f02(4, 0); }, 0, 8});
    c.push_back({"no standard input, up to 2 writes, up to 1 fault", [] { f02(2, 1, true); }, 0, 8});
    c.push_back({"unwritable files", [] { f02_bad(); }});
    c.push_back({"up to 3 writes, up to 1 fault", [] { f02(3, 1); }, 0, 12});
    c.push_back({"up to 2 writes, up to 2 faults", [] { f02(2, 2); }, 0, 12});
    c.push_back({"up to 3 writes, up to 2 faults", [] { f02(3, 2); }, 1, 12});
    c.push_back({"up to 2 writes, up to 3 faults", [] { f02(2, 3); }, 1, 12});
  }
  if (prop == "R01") {
    for (auto const n : {1, 2, 3}) c.push_back({"buffers: 2 objects, " + std::to_string(n) + " operations", [n] { r01_buffers(2, n); }});
    c.push_back({"buffers: 2 objects, 4 operations", [] { r01_buffers(2, 4); }, 0, 40, 5});
    c.push_back({"buffers: 2 objects, 5 operations", [] { r01_buffers(2, 5); }, 1, 40, 5});
    c.push_back({"buffers: 3 objects, 4 operations", [] { r01_buffers(3, 4); }, 1, 40, 5});
    for (auto const n : {1, 2, 3}) c.push_back({"mapped files: 2 objects, " + std::to_string(n) + " operations", [n] { r01_maps(2, n); }});
    c.push_back({"buffers of 70001 bytes: 1 object, 3 operations", [] { r01_buffers(1, 3, 70001); }, 0, 8, 2});
    c.push_back({"buffers of 2 MB: 1 object, 2 operations", [] { r01_buffers(1, 2, 2000003); }, 0, 8, 2});
    c.push_back({"mapped files, no standard input: 2 objects, 3 operations", [] { r01_maps(2, 3, true); }, 0, 8, 2});
    c.push_back({"mapped files: 2 objects, 4 operations", [] { r01_maps(2, 4); }, 0, 40, 5});
    c.push_back({"mapped files: 3 objects, 4 operations", [] { r01_maps(3, 4); }, 1, 40, 5});
    c.push_back({"mapped files: 2 objects, 5 operations", [] { r01_maps(2, 5); }, 1, 40, 5});
  }
  return c;
}
