// Harness-facing API of the controlled-concurrency model checker (mcrt.cc).
// Everything here is implemented in an uninstrumented translation unit, so
// book-keeping done through it is invisible to the race detector.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct options {
  int preemptions = 2;      // <0: unbounded
  int spurious = 0;         // spurious condition-variable wake-ups per execution
  int weak_fail = 0;        // spurious weak-CAS failures per execution
  unsigned workers = 2;     // what hardware_concurrency() reports
  std::size_t max_steps = 20000;
  bool preempt_unlock = false;
  bool data_races = true;
};

// Registered by the harness: one explorable program.
struct config {
  std::string name;
  options opt;
  std::function<void()> body;
  int tier = 0;  // 0: quick and thorough, 1: thorough only
};

std::vector<config> configs(std::string const& property);  // by the harness

// --- usable inside an execution -------------------------------------------
[[noreturn]] void fail(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_CHECK(cond, ...)            \
  do {                                 \
    if (!(cond)) ::mc::fail(__VA_ARGS__); \
  } while (0)

int choose(int n);          // explored nondeterministic choice
void event(int object);     // order-visible step on an abstract object (dependency + scheduling point, no happens-before edge)
int self();                 // index of the running thread (0 = main)
void step(int tag, long a = 0, long b = 0);  // appends to the execution log (no scheduling point, order across threads not state-relevant)
struct rec { int tid, tag; long a, b; };
std::vector<rec> const& log();
long count(int tag);                      // number of log records with this tag
long count(int tag, long a);              // ... and first value
int live_threads();                       // created and not yet ended, without main
int created_threads();
bool other_enabled();
void outcome(std::string const&);         // classifies the execution for the report

}  // namespace mc
