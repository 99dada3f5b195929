// Exhaustive explorer: a scenario is a deterministic function of the values
// returned by mc::choose(). The engine enumerates *every* sequence of choices
// (depth first, split over worker processes) and executes the scenario --
// i.e. the real code -- once for each of them.
#ifndef VERIF_MC_H_
#define VERIF_MC_H_

#include <cstdint>
#include <cstdio>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

// Returns a value in [0, n); all n values are explored.
int choose(int n);
// Chooses one of the given values.
template <typename T>
T pick(const std::vector<T>& values) {
  return values[choose(static_cast<int>(values.size()))];
}
inline bool flip() { return choose(2) != 0; }

// Reports a violation of the property and ends the process.
[[noreturn]] void fail(const std::string& message);
// Ends this execution without counting it (infeasible choice).
[[noreturn]] void prune();
// Thrown by prune().
struct Pruned {};

// Bookkeeping for the evidence.
void step(int n = 1);               // one transition of the system under check
bool visit(uint64_t state_hash);    // true if this state was not seen before
void sample(const std::string& s);  // a readable history, kept a few times
bool replaying();
bool thorough();
// Appends to the log which is kept for the current execution and printed when
// a violation is found / replayed.
void log(const std::string& s);
// Returns true (and prints a KNOWN-FINDING line at the end of the run) if
// 'key' is listed in /verif/known_findings.json for this property.
bool known(const std::string& key);

// Runs 'function', which makes no choices and reports nothing, in a process of
// its own: it returns, or a CHECK fails, or something worse happens.
enum class Outcome { kCompleted, kRefused, kCrashed };
Outcome attempt(const std::function<void()>& function);

struct Scenario {
  const char* name;
  std::function<void()> run;
  // Tier filter: bit 0 = quick, bit 1 = thorough.
  int tiers = 3;
  // Expected executions are bounded by the scenario itself; this is only a
  // fuse against misconfiguration.
  uint64_t max_executions = UINT64_MAX;
  // Human readable description of the bounds, for the evidence.
  std::string bounds;
};

struct Config {
  std::string technique;
  std::vector<std::string> assumptions;
};

// Runs all scenarios; to be called from main().
int Main(int argc, char** argv, const std::vector<Scenario>& scenarios,
         const Config& config);

// Hooks for the scheduler.
extern void (*execution_wrapper)(const std::function<void()>&);

inline uint64_t Hash(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
uint64_t HashBytes(const void* data, size_t n, uint64_t seed = 0);
inline uint64_t HashString(const std::string& s, uint64_t seed = 0) {
  return HashBytes(s.data(), s.size(), seed);
}

}  // namespace mc

#define MC_CHECK(cond, msg)                                          \
  do {                                                               \
    if (!(cond)) {                                                   \
      std::ostringstream mc_os_;                                     \
      mc_os_ << __FILE__ << ":" << __LINE__ << ": " << #cond << ": " \
             << msg;                                                 \
      ::mc::fail(mc_os_.str());                                      \
    }                                                                \
  } while (0)
#define MC_LOG(msg)                  \
  do {                               \
    std::ostringstream mc_os_;       \
    mc_os_ << msg;                   \
    ::mc::log(mc_os_.str());         \
  } while (0)

#endif  // VERIF_MC_H_
