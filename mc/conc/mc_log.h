// Stand-in for utl/logging.h in the concurrency harnesses: log lines are
// recorded outside the explored program (real logging is checked under D05).
#pragma once
#include <string>
namespace mc {
struct log_line {
  std::string text;
  log_line() = default;
  log_line(log_line&&) = default;
  template <typename T>
  friend log_line&& operator<<(log_line&& l, T const& t) {
    if constexpr (std::is_arithmetic_v<T>) l.text += std::to_string(t);
    else l.text += t;
    return std::move(l);
  }
  ~log_line() { if (!text.empty()) on_log(text); }
  static void on_log(std::string const&);
};
}  // namespace mc
namespace utl {
enum log_level { emrg, alrt, crit, err, warn, notice, info, debug };
}
#define uLOG(lvl) ::mc::log_line()
