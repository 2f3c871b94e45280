// Log lines, calendar times, timers (D05).  The clocks are the harness': every
// way of asking for the time goes through the functions defined here.
#include "seq.h"
#include <chrono>
#include <cmath>
#include <ctime>
#include <dlfcn.h>
#include <iomanip>
#include <iostream>
#include <limits>
#include <optional>
#include <sstream>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>
#include "utl/logging.h"
#include "utl/timer.h"
#include "utl/timing.h"

using seq::flip;
using seq::pick;

namespace vt {
bool on = false;
long long real_ns = 0;  // wall clock
long long mono_ns = 0;  // monotonic clock
long long floor_div(long long const a, long long const b) { return a / b - (a % b < 0); }
}  // namespace vt

extern "C" int clock_gettime(clockid_t id, timespec* t) noexcept {
  if (vt::on && (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME || id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    auto const v = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? vt::real_ns : vt::mono_ns;
    t->tv_sec = vt::floor_div(v, 1000000000LL);
    t->tv_nsec = v - t->tv_sec * 1000000000LL;
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, t));
}
extern "C" time_t time(time_t* out) noexcept {
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (out) *out = t.tv_sec;
  return t.tv_sec;
}
extern "C" int gettimeofday(timeval* __restrict tv, void* __restrict) noexcept {
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec;
  tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}

namespace {
using ll = long long;

struct capture {
  capture() : old{std::clog.rdbuf(s.rdbuf())} { vt::on = true; }
  ~capture() { std::clog.rdbuf(old); vt::on = false; }
  std::string take() { auto t = s.str(); s.str(""); return t; }
  std::ostringstream s;
  std::streambuf* old;
};

// calendar of the proleptic Gregorian calendar, independent of the C library
struct civil { ll y; int m, d; };
civil from_days(ll z) {
  z += 719468;
  auto const era = vt::floor_div(z, 146097);
  auto const doe = z - era * 146097;
  auto const yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  auto const doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  auto const mp = (5 * doy + 2) / 153;
  auto const m = static_cast<int>(mp < 10 ? mp + 3 : mp - 9);
  return {yoe + era * 400 + (m <= 2), m, static_cast<int>(doy - (153 * mp + 2) / 5 + 1)};
}
ll to_days(ll y, int const m, int const d) {
  y -= m <= 2;
  auto const era = vt::floor_div(y, 400);
  auto const yoe = y - era * 400;
  auto const doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1;
  return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
}

// parses YYYY-MM-DDTHH:MM:SS followed by a marker of UTC; years may carry a sign and padding
void check_time(std::string const& s, ll const t, char const* what) {
  auto p = s.c_str();
  auto const digits = [&](int const min, int const max) {
    ll v = 0; auto n = 0;
    while (n < max && *p >= '0' && *p <= '9') { v = v * 10 + (*p++ - '0'); ++n; }
    SEQ_CHECK(n >= min, "%s: time %lld is written as %s", what, t, seq::quote(s).c_str());
    return v;
  };
  auto const lit = [&](char const c) { SEQ_CHECK(*p == c, "%s: time %lld is written as %s", what, t, seq::quote(s).c_str()); ++p; };
  auto const neg = *p == '-';
  if (neg || *p == '+') ++p;
  auto y = digits(1, 12); if (neg) y = -y;
  lit('-'); auto const m = digits(2, 2);
  lit('-'); auto const d = digits(2, 2);
  lit('T'); auto const H = digits(2, 2);
  lit(':'); auto const M = digits(2, 2);
  lit(':'); auto const S = digits(2, 2);
  auto const days = vt::floor_div(t, 86400);
  auto const c = from_days(days);
  auto const sec = t - days * 86400;
  SEQ_CHECK(y == c.y && m == c.m && d == c.d && H == sec / 3600 && M == sec / 60 % 60 && S == sec % 60, "%s: time %lld is written as %s, it is %lld-%02d-%02d %02lld:%02lld:%02lld", what, t, seq::quote(s).c_str(), c.y,
            c.m, c.d, sec / 3600, sec / 60 % 60, sec % 60);
  std::string const rest = p;
  SEQ_CHECK(rest == "Z" || rest == "+0000" || rest == "Z+0000" || rest == "+00:00" || rest == "Z+00:00", "%s: time %lld is not marked as UTC: %s", what, t, seq::quote(s).c_str());
}

// ------------------------------------------------------------ every day of the 400-year cycle, and extreme years
void days(ll const first_year, int const years) {
  auto const y = first_year + pick(years);
  auto const m = 1 + pick(12);
  seq::op();
  auto const from = to_days(y, m, 1), to = m == 12 ? to_days(y + 1, 1, 1) : to_days(y, m + 1, 1);
  if (m == 2 && to - from == 29) seq::nontrivial();
  for (auto d = from; d < to; ++d)
    for (auto const s : {0LL, 1LL, 59LL, 60LL, 3599LL, 3600LL, 43199LL, 43200LL, 86399LL}) check_time(utl::time(static_cast<time_t>(d * 86400 + s)), d * 86400 + s, "time");
}
void seconds_of_a_day(ll const day) {
  auto const h = pick(24);
  seq::op();
  for (auto s = 0; s < 3600; ++s) check_time(utl::time(static_cast<time_t>(day * 86400 + h * 3600 + s)), day * 86400 + h * 3600 + s, "time");
}
void extreme_years() {
  auto const ys = std::vector<ll>{-2147481748LL, -2147481747LL, -1000000000LL, -99999LL, -10000LL, -9999LL, -1000LL, -999LL, -1LL, 0LL, 1LL, 99LL, 100LL, 999LL, 1000LL, 1582LL, 1899LL, 1900LL, 1901LL, 1969LL, 1970LL, 2038LL, 2106LL, 9999LL, 10000LL, 99999LL, 100000LL, 1000000000LL, 2147483646LL, 2147483647LL, 2147485546LL, 2147485547LL};
  auto const y = seq::of(ys);
  seq::op();
  for (auto m = 1; m <= 12; ++m)
    for (auto const t : {to_days(y, m, 1) * 86400 - 1, to_days(y, m, 1) * 86400, to_days(y, m, 15) * 86400 + 45296}) {
      auto const yr = from_days(vt::floor_div(t, 86400)).y;
      if (yr - 1900 < std::numeric_limits<int>::min() || yr > std::numeric_limits<int>::max()) { utl::time(static_cast<time_t>(t)); continue; }  // not representable: only memory safety
      if (y > 9999 || y < 0) seq::nontrivial();
      check_time(utl::time(static_cast<time_t>(t)), t, "time");
    }
}
// the zone of the process; times are UTC whatever it is
void zone(int const n) {
  static char const* const Z[] = {"EST5EDT,M3.2.0,M11.1.0", "UTC0", "XXX-13:45"};
  setenv("TZ", Z[n], 1);
  tzset();
}
void time_limits() {
  seq::op();
  zone(pick(3));
  auto const k = pick(63);
  for (auto const t : {ll{1} << k, -(ll{1} << k), (ll{1} << k) - 1}) {
    if (k > 55) { utl::time(static_cast<time_t>(t)); continue; }
    check_time(utl::time(static_cast<time_t>(t)), t, "time");
  }
  utl::time(std::numeric_limits<time_t>::min());
  utl::time(std::numeric_limits<time_t>::max());
}
void now() {
  seq::op();
  zone(pick(3));
  auto const t = seq::of<ll>({0, 1, -1, 951782399, 951782400, 4102444800LL, 1709164800LL, -2208988800LL});
  auto const ns = seq::of<ll>({0, 1, 999999999});
  vt::real_ns = t * 1000000000LL + ns;
  std::string s;
  { capture c; s = utl::time(); }
  check_time(s, t, "current time");
}

// ------------------------------------------------------------ log statements
char const* const kTags[] = {"emrg", "alrt", "crit", "erro", "warn", "note", "info", "debg"};
struct streamable { int v; };
std::ostream& operator<<(std::ostream& o, streamable const& s) { return o << "<" << s.v << ">"; }
struct move_only_streamable { std::unique_ptr<int> v; };
std::ostream& operator<<(std::ostream& o, move_only_streamable const& s) { return o << *s.v; }
struct boom {};
struct throwing {};
std::ostream& operator<<(std::ostream&, throwing const&) { throw boom{}; }

// splits "[tag][time][file:line] rest"
void check_line(std::string const& text, int const lvl, ll const t, int const line, std::string const& message) {
  SEQ_CHECK(!text.empty() && text.back() == '\n', "a log statement does not end its line: %s", seq::quote(text).c_str());
  SEQ_CHECK(std::count(begin(text), end(text), '\n') == 1 + std::count(begin(message), end(message), '\n'), "a log statement wrote several lines: %s", seq::quote(text).c_str());
  auto s = text.substr(0, text.size() - 1);
  auto const part = [&] {
    SEQ_CHECK(!s.empty() && s[0] == '[' && s.find(']') != std::string::npos, "the log line has no header: %s", seq::quote(text).c_str());
    auto const e = s.find(']');
    auto r = s.substr(1, e - 1);
    s.erase(0, e + 1);
    return r;
  };
  auto const tag = part();
  SEQ_CHECK(tag == kTags[lvl], "level %d is tagged %s", lvl, seq::quote(tag).c_str());
  check_time(part(), t, "log time");
  auto const at = part();
  if (line >= 0) SEQ_CHECK(at == "logs.cc:" + std::to_string(line), "the statement at logs.cc:%d is logged as %s", line, seq::quote(at).c_str());
  else SEQ_CHECK(at.find(':') != std::string::npos && at.find('/') == std::string::npos, "source position %s", seq::quote(at).c_str());
  SEQ_CHECK(s == " " + message, "logged %s, expected %s", seq::quote(s).c_str(), seq::quote(" " + message).c_str());
}

template <typename L>
void with_level(int const lvl, L&& l) {
  using namespace utl;
  switch (lvl) {
    case 0: l(emrg); break;
    case 1: l(alrt); break;
    case 2: l(crit); break;
    case 3: l(err); break;
    case 4: l(warn); break;
    case 5: l(notice); break;
    case 6: l(info); break;
    default: l(debug);
  }
}
void statements(int const n) {
  capture c;
  std::ostringstream model;
  for (auto k = 0; k < n; ++k) {
    auto const lvl = pick(8);
    auto const shape = pick(9);
    vt::real_ns = seq::of<ll>({0, 1709164799}) * 1000000000LL + 5;
    seq::op();
    if (k > 0) seq::nontrivial();
    auto line = 0;
    model.str("");
    auto const i = 42 + k;
    std::string const s(20, static_cast<char>('a' + k));
    with_level(lvl, [&](auto const level) {
      switch (shape) {
        case 0: line = __LINE__; uLOG(level); break;
        case 1: line = __LINE__; uLOG(level) << "message"; model << "message"; break;
        case 2: line = __LINE__; uLOG(level) << i << ' ' << s << '/' << 2.5 << true; model << i << ' ' << s << '/' << 2.5 << true; break;
        case 3: line = __LINE__; uLOG(level) << streamable{i} << "" << std::string{} << streamable{-i}; model << streamable{i} << streamable{-i}; break;
        case 4: line = __LINE__; uLOG(level) << move_only_streamable{std::make_unique<int>(i)} << "end"; model << i << "end"; break;
        case 5: line = __LINE__; uLOG(level) << std::setw(6) << i << '|' << std::hex << 255 << std::dec << '|' << 255; model << std::setw(6) << i << "|ff|255"; break;
        case 6: line = __LINE__; uLOG(level) << "two\nlines [brackets] " << std::string_view{s}.substr(3); model << "two\nlines [brackets] " << s.substr(3); break;
        case 7: line = __LINE__; uLOG(level) << std::string(2000, 'x') << i; model << std::string(2000, 'x') << i; break;
        default:
          line = __LINE__; if (i > 0) uLOG(level) << "a" << i; else uLOG(level) << "never";
          model << "a" << i;
      }
    });
    check_line(c.take(), lvl, vt::floor_div(vt::real_ns, 1000000000LL), line, model.str());
  }
}
void nested_and_throwing() {
  capture c;
  seq::op();
  vt::real_ns = 1000000000LL;
  if (flip()) {  // a function called in one statement logs itself: two complete lines, never mixed up
    auto const inner = [&] { uLOG(utl::warn) << "inner"; return std::string{"value"}; };
    auto const v = inner();
    auto const first = c.take();
    auto const line = __LINE__; uLOG(utl::err) << "outer " << v;
    check_line(c.take(), 3, 1, line, "outer value");
    check_line(first, 4, 1, -1, "inner");
  } else {  // an operand that throws: what was streamed before it is still a line of its own
    auto line = 0;
    try { line = __LINE__; uLOG(utl::info) << "before" << throwing{} << "after"; seq::fail("the exception of a streamed operand was swallowed"); }
    catch (boom const&) {}
    check_line(c.take(), 6, 1, line, "before");
    line = __LINE__; uLOG(utl::info) << "next";
    check_line(c.take(), 6, 1, line, "next");
  }
}

// ------------------------------------------------------------ timers
struct tick { ll mono, real; };
tick advance() {
  auto const mono = seq::of<ll>({0, 1, 999, 1000, 1999, 1234567, 999999999, 1000000000, 61 * 1000000000LL + 7, 86400 * 1000000000LL});
  auto const real = seq::of<ll>({0, 3600 * 1000000000LL, -7200 * 1000000000LL});  // the wall clock may be set at any time
  vt::mono_ns += mono;
  vt::real_ns += mono + real;
  return {mono, real};
}
// "[name] rest (Nms)"
void check_timed(std::string const& text, std::string const& head, ll const ns) {
  auto s = text;
  for (auto k = 0; k < 3; ++k) { auto const e = s.find(']'); SEQ_CHECK(s[0] == '[' && e != std::string::npos, "timer line without header: %s", seq::quote(text).c_str()); s.erase(0, e + 1); }
  auto const want = " " + head + " (";
  SEQ_CHECK(s.compare(0, want.size(), want) == 0, "timer line %s, expected %s...", seq::quote(s).c_str(), seq::quote(want).c_str());
  auto const num = s.substr(want.size());
  char* e = nullptr;
  auto const v = strtod(num.c_str(), &e);
  SEQ_CHECK(std::string{e} == "ms)\n", "timer line ends in %s", seq::quote(num).c_str());
  auto const ms = static_cast<double>(ns) / 1e6;
  SEQ_CHECK(std::abs(v - ms) <= 0.00101 + ms * 1e-5, "a duration of %lld ns is reported as %s", ns, seq::quote(num).c_str());
  check_line(text, 6, vt::floor_div(vt::real_ns, 1000000000LL), -1, s.substr(1, s.size() - 2));
}
template <typename Timer>
void timer_history(int const depth, std::vector<std::string> const& timer_names = {"t", "", "a timer with quite a long name [x]"}) {
  capture c;
  vt::real_ns = 1700000000LL * 1000000000LL;
  vt::mono_ns = seq::of<ll>({0, 5, 123456789012345LL});
  auto const name = seq::of(timer_names);
  auto const start = vt::mono_ns;
  {
    std::optional<Timer> t;
    t.emplace(name);
    check_line(c.take(), 6, vt::floor_div(vt::real_ns, 1000000000LL), -1, "[" + name + "] starting");
    for (auto k = 0; k < depth; ++k) {
      seq::op();
      auto const what = pick(3);
      if (what == 0) break;
      auto const a = advance();
      if (a.mono == 0 && a.real != 0) seq::nontrivial();
      if (what == 1) {
        t->print("half way");
        auto const l = c.take();
        if (name.find(']') == std::string::npos) check_timed(l, "[" + name + "] half way", vt::mono_ns - start);
        else SEQ_CHECK(std::count(begin(l), end(l), '\n') == 1 && l.find("[" + name + "] half way (") != std::string::npos, "print logged %s", seq::quote(l).c_str());
      } else {
        if constexpr (std::is_same_v<Timer, utl::manual_timer>) {
          t->stop_and_print();
          auto const l = c.take();
          if (name.find(']') == std::string::npos) check_timed(l, "[" + name + "] finished", vt::mono_ns - start);
          else SEQ_CHECK(std::count(begin(l), end(l), '\n') == 1 && l.find("[" + name + "] finished (") != std::string::npos, "stop_and_print logged %s", seq::quote(l).c_str());
        } else {
          SEQ_CHECK(c.take().empty(), "a timer logged without being asked");
        }
      }
    }
    auto const pending = c.take();
    SEQ_CHECK(pending.empty(), "unrequested lines: %s", seq::quote(pending).c_str());
    if (flip()) advance();
    t.reset();
  }
  auto const l = c.take();
  if constexpr (std::is_same_v<Timer, utl::scoped_timer>) {
    if (name.find(']') == std::string::npos) check_timed(l, "[" + name + "] finished", vt::mono_ns - start);
    else SEQ_CHECK(std::count(begin(l), end(l), '\n') == 1 && l.find("[" + name + "] finished (") != std::string::npos, "the scoped timer logged %s", seq::quote(l).c_str());
  } else {
    SEQ_CHECK(l.empty(), "a manual timer logged at its end: %s", seq::quote(l).c_str());
  }
}
void two_timers() {  // overlapping scopes, each reports its own time
  capture c;
  vt::real_ns = 1700000000LL * 1000000000LL;
  vt::mono_ns = 77;
  seq::op();
  ll a0 = 0, b0 = 0;
  std::string la, lb;
  {
    utl::scoped_timer outer{"outer"}; a0 = vt::mono_ns;
    c.take();
    advance();
    {
      utl::scoped_timer inner{"inner"}; b0 = vt::mono_ns;
      c.take();
      advance();
    }
    check_timed(c.take(), "[inner] finished", vt::mono_ns - b0);
    advance();
    seq::nontrivial();
  }
  check_timed(c.take(), "[outer] finished", vt::mono_ns - a0);
}
void thrown_through() {  // a scope left by an exception still reports
  capture c;
  vt::real_ns = 1700000000LL * 1000000000LL;
  vt::mono_ns = 0;
  seq::op();
  try { utl::scoped_timer t{"scope"}; c.take(); advance(); throw boom{}; } catch (boom const&) {}
  check_timed(c.take(), "[scope] finished", vt::mono_ns);
}
void macros() {
  capture c;
  vt::real_ns = 5;
  vt::mono_ns = seq::of<ll>({0, 999999, 123456789012345LL});
  seq::op();
  UTL_START_TIMING(x);
  auto const t0 = vt::mono_ns;
  advance();
  UTL_STOP_TIMING(x);
  auto const d1 = vt::mono_ns - t0;
  advance();
  auto const d2 = vt::mono_ns - t0;
  seq::nontrivial();
  SEQ_CHECK(UTL_TIMING_MS(x) == d1 / 1000000, "%lld ns are %lld ms", d1, static_cast<ll>(UTL_TIMING_MS(x)));
  SEQ_CHECK(UTL_TIMING_US(x) == d1 / 1000, "%lld ns are %lld us", d1, static_cast<ll>(UTL_TIMING_US(x)));
  SEQ_CHECK(UTL_GET_TIMING_MS(x) == d2 / 1000000, "%lld ns so far are %lld ms", d2, static_cast<ll>(UTL_GET_TIMING_MS(x)));
  SEQ_CHECK(UTL_GET_TIMING_US(x) == d2 / 1000, "%lld ns so far are %lld us", d2, static_cast<ll>(UTL_GET_TIMING_US(x)));
  SEQ_CHECK(c.take().empty(), "the timing macros logged");
}
}  // namespace

std::vector<seq::config> seq::configs(std::string const& p) {
  std::vector<config> c;
  if (p != "D05") return c;
  zone(0);
  c.push_back({"time: every day of 1600..2000", [] { days(1600, 401); }, 0, 8});
  c.push_back({"time: every day of the centuries around year 0 and 10000", [] { if (flip()) days(-101, 202); else days(9900, 201); }, 0, 4});
  c.push_back({"time: every second of 1970-01-01 and 2000-02-29", [] { if (flip()) seconds_of_a_day(0); else seconds_of_a_day(11016); }, 0, 2});
  c.push_back({"time: extreme years", extreme_years, 0, 1});
  c.push_back({"time: powers of two", time_limits, 0, 1});
  c.push_back({"current time", now, 0, 1});
  c.push_back({"log statements, 1", [] { statements(1); }, 0, 1});
  c.push_back({"log statements, 2", [] { statements(2); }, 0, 2});
  c.push_back({"log statements, 3", [] { statements(3); }, 1, 16});
  c.push_back({"log statements nested, with failing operands", nested_and_throwing, 0, 1});
  c.push_back({"scoped timer, 2 steps", [] { timer_history<utl::scoped_timer>(2); }, 0, 8});
  c.push_back({"manual timer, 2 steps", [] { timer_history<utl::manual_timer>(2); }, 0, 8});
  c.push_back({"manual timer, 3 steps", [] { timer_history<utl::manual_timer>(3); }, 1, 32, 4});
  c.push_back({"timers with long and unusual names", [] {
    std::vector<std::string> v{"%s %d", "{}", "{0}", "a\tb", "\xC3\xA4\xFF", "{"};
    for (auto const n : {15UL, 16UL, 17UL, 31UL, 32UL, 33UL, 63UL, 64UL, 65UL, 127UL, 128UL, 129UL, 255UL, 256UL, 257UL, 1023UL, 1024UL, 1025UL, 4096UL, 65536UL, 70001UL}) v.push_back(std::string(n - 1, 'n') + "e");
    if (flip()) timer_history<utl::scoped_timer>(1, v); else timer_history<utl::manual_timer>(1, v);
  }, 0, 8});
  c.push_back({"overlapping timers", two_timers, 0, 4});
  c.push_back({"timer scope left by an exception", thrown_through, 0, 1});
  c.push_back({"timing macros", macros, 0, 1});
  return c;
}
