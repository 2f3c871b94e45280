// Exhaustive enumeration of operation sequences / inputs / fault points.
//
// A harness body asks for every decision through pick(n); the engine runs the
// body once for every possible vector of answers (depth first, all of them)
// against the real code, which the harness compares step by step with a
// reference model.  Built with AddressSanitizer and UBSan, so every execution
// is also checked for memory errors and undefined behaviour.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

namespace seq {

struct config {
  std::string name;
  std::function<void()> body;
  int tier = 0;        // 0: quick and thorough, 1: thorough only
  int shards = 1;      // processes the choice tree is split over
  int shard_depth = 2; // picks the split is decided by
  bool leaks = true;   // every execution must release what it allocated
  bool fork_each = false;
};

std::vector<config> configs(std::string const& property);  // by the harness

int pick(int n);                       // decision 0..n-1, all explored
inline bool flip() { return pick(2) == 1; }
inline int range(int lo, int hi) { return lo + pick(hi - lo + 1); }  // inclusive
template <typename T>
T const& of(std::vector<T> const& v) { return v[static_cast<std::size_t>(pick(static_cast<int>(v.size())))]; }
template <typename T>
T of(std::initializer_list<T> l) { return *(l.begin() + pick(static_cast<int>(l.size()))); }

[[noreturn]] void fail(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
#define SEQ_CHECK(cond, ...)              \
  do {                                    \
    if (!(cond)) ::seq::fail(__VA_ARGS__); \
  } while (0)

bool recording();                      // true if note() is kept (samples, replays)
void note(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
void nontrivial();                     // marks the execution as reaching the interesting case
void op();                             // one operation applied to both model and code
void check_leaks(bool);                // per execution override
long live_allocations();

// text of length 0..max over an alphabet, simplest first
std::string text(int max, std::string_view alphabet);
std::string quote(std::string_view);
std::string show(std::vector<std::string> const&);

// directory for files of this process (removed by the driver)
std::string const& scratch();
// writes the content with plain system calls, returns the path
std::string put_file(std::string const& name, std::string_view content);
bool get_file(std::string const& path, std::string& content);

// copy of s in a heap block of exactly its size (out-of-bounds reads are caught)
struct exact {
  explicit exact(std::string_view s) : n{s.size()}, p{new char[s.size()]} { if (n) std::memcpy(p.get(), s.data(), n); }
  char const* data() const { return p.get(); }
  std::size_t size() const { return n; }
  std::string_view view() const { return {p.get(), n}; }
  std::size_t n;
  std::unique_ptr<char[]> p;
};

// object with identity, life-cycle checked
struct obj {
  obj() : v{0} { ++live; }
  obj(int x) : v{x} { ++live; }
  obj(obj const& o) : v{o.get()} { ++live; ++copies; }
  obj(obj&& o) noexcept : v{o.get()}, moved{o.moved} { o.moved = true; ++live; }
  obj& operator=(obj const& o) { v = o.get(); moved = o.moved; check(); ++copies; return *this; }
  obj& operator=(obj&& o) noexcept { check(); auto const x = o.get(); auto const m = o.moved; o.moved = true; v = x; moved = m; return *this; }
  ~obj() { check(); magic = 0; --live; }
  void check() const { if (magic != 0x5EED) fail("use of a destroyed or never constructed object"); }
  int get() const { check(); return v; }
  friend bool operator==(obj const& a, obj const& b) { return a.get() == b.get(); }
  friend bool operator!=(obj const& a, obj const& b) { return a.get() != b.get(); }
  friend bool operator<(obj const& a, obj const& b) { return a.get() < b.get(); }
  int v;
  bool moved = false;
  int magic = 0x5EED;
  inline static long live = 0;
  inline static long copies = 0;
};

}  // namespace seq
