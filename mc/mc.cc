#include "mc.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <set>

#include "glog/logging.h"

namespace mc {

void (*execution_wrapper)(const std::function<void()>&) = nullptr;

namespace {

constexpr int kMaxTrace = 4096;     // choices per execution
constexpr int kMaxWorkers = 64;
constexpr int kHangSeconds = 150;
constexpr int kMaxQueue = 8192;     // pending prefixes
constexpr int kMaxPrefix = 512;
constexpr uint64_t kVisitedSize = 1ull << 24;

struct Prefix {
  int length;
  uint16_t choice[kMaxPrefix];
};

struct Slot {
  std::atomic<int> trace_length;
  uint16_t choice[kMaxTrace];
  uint16_t arity[kMaxTrace];
  std::atomic<uint64_t> executions, pruned, transitions, choice_points, nodes;
  std::atomic<int> max_depth;
  std::atomic<double> execution_start;  // 0 when not executing
  std::atomic<int> failed;
  char message[4096];
  char log[32768];
  int log_length;
  char samples[3][1024];
  int num_samples;
  char known[8][256];
  int num_known;
};

struct Shared {
  std::atomic<int> lock;
  std::atomic<int> stop;
  std::atomic<int> idle;
  std::atomic<int> workers;
  std::atomic<int> out_of_budget;
  int queue_size;
  Prefix queue[kMaxQueue];
  std::atomic<uint64_t> num_visited;
  Slot slot[kMaxWorkers];
};

Shared* shared = nullptr;
std::atomic<uint64_t>* visited = nullptr;
Slot* slot = nullptr;  // this worker
bool g_thorough = false, g_replaying = false;
std::vector<std::string> g_known;  // keys listed for this property
double g_deadline = 1e18;
bool g_attempt = false;  // in the process of mc::attempt()

// DFS stack of the current worker.
struct Entry {
  uint16_t choice, arity;
};
std::vector<Entry> stack;
size_t position = 0;
size_t fixed = 0;  // entries below this index belong to the prefix

double Now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

void Lock() {
  int expected = 0;
  while (!shared->lock.compare_exchange_weak(expected, 1)) {
    expected = 0;
    usleep(50);
  }
}
void Unlock() { shared->lock = 0; }

void FatalSignal(int sig) {
  if (g_attempt) _exit(79);
  // The trace is in shared memory; the parent reports it.
  if (slot && !slot->failed) {
    snprintf(slot->message, sizeof(slot->message), "fatal signal %d (%s)", sig,
             strsignal(sig));
    slot->failed = 1;
  }
  _exit(77);
}

[[noreturn]] void CheckFailed() {
  if (g_attempt) _exit(78);
  if (slot && !slot->failed) {
    if (slot->message[0] == 0) {
      snprintf(slot->message, sizeof(slot->message), "CHECK failure");
    }
    slot->failed = 1;
  }
  _exit(77);
}

class Sink : public google::LogSink {
 public:
  void send(google::LogSeverity severity, const char*, const char* base,
            int line, const struct ::tm*, const char* message,
            size_t length) override {
    if (severity == google::GLOG_FATAL && slot && !g_attempt) {
      snprintf(slot->message, sizeof(slot->message), "CHECK failure at %s:%d: %.*s",
               base, line, static_cast<int>(std::min<size_t>(length, 3500)), message);
    }
  }
};

[[noreturn]] void OnTerminate() {
  if (g_attempt) _exit(79);
  if (slot && !slot->failed) {
    std::string what = "uncaught exception";
    if (auto e = std::current_exception()) {
      try {
        std::rethrow_exception(e);
      } catch (const std::exception& ex) {
        what += std::string(": ") + ex.what();
      } catch (...) {
      }
    }
    snprintf(slot->message, sizeof(slot->message), "%s", what.c_str());
    slot->failed = 1;
  }
  _exit(77);
}

void InstallHandlers() {
  static char altstack[1 << 16];
  stack_t ss{};
  ss.ss_sp = altstack;
  ss.ss_size = sizeof(altstack);
  sigaltstack(&ss, nullptr);
  for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) {
    struct sigaction sa {};
    sa.sa_handler = FatalSignal;
    sa.sa_flags = SA_ONSTACK;
    sigaction(sig, &sa, nullptr);
  }
  std::set_terminate(OnTerminate);
}

// Runs the scenario once along 'stack'.
void ExecuteOnce(const Scenario& scenario) {
  const size_t replayed = stack.size();
  position = 0;
  slot->trace_length = 0;
  slot->log_length = 0;
  slot->log[0] = 0;
  slot->execution_start = Now();
  bool pruned = false;
  try {
    if (execution_wrapper) {
      execution_wrapper(scenario.run);
    } else {
      scenario.run();
    }
  } catch (const Pruned&) {
    pruned = true;
  }
  slot->execution_start = 0;
  if (pruned) {
    slot->pruned.fetch_add(1, std::memory_order_relaxed);
  } else {
    slot->executions.fetch_add(1, std::memory_order_relaxed);
  }
  if (static_cast<int>(position) > slot->max_depth) slot->max_depth = position;
  if (position + 1 > replayed) {
    slot->nodes.fetch_add(position + 1 - replayed, std::memory_order_relaxed);
  }
  stack.resize(position);
}

bool TakePrefix() {
  bool counted_idle = false;
  for (;;) {
    if (shared->stop) return false;
    Lock();
    if (shared->queue_size > 0) {
      const Prefix& p = shared->queue[--shared->queue_size];
      stack.clear();
      for (int i = 0; i < p.length; ++i) {
        stack.push_back({p.choice[i], 0});
      }
      fixed = p.length;
      if (counted_idle) shared->idle.fetch_sub(1);
      Unlock();
      return true;
    }
    if (!counted_idle) {
      counted_idle = true;
      shared->idle.fetch_add(1);
    }
    const bool finished = shared->idle == shared->workers;
    Unlock();
    if (finished) return false;
    usleep(200);
  }
}

void MaybeDonate() {
  if (shared->idle.load(std::memory_order_relaxed) == 0) return;
  if (shared->queue_size >= shared->workers) return;
  for (size_t i = fixed; i < stack.size() && i + 1 < kMaxPrefix; ++i) {
    if (stack[i].choice + 1 >= stack[i].arity) continue;
    Lock();
    // Leave one unit of work for this worker's own subtree (deeper entries).
    int c = stack[i].choice + 1;
    while (c < stack[i].arity && shared->queue_size < kMaxQueue) {
      Prefix& p = shared->queue[shared->queue_size++];
      p.length = i + 1;
      for (size_t j = 0; j < i; ++j) p.choice[j] = stack[j].choice;
      p.choice[i] = c++;
    }
    if (c == stack[i].arity) {
      stack[i].arity = stack[i].choice + 1;
    } else {
      // Queue full: should not happen with kMaxQueue entries; keep the rest by
      // making the donated ones unreachable is not possible, so undo.
      int donated = c - (stack[i].choice + 1);
      shared->queue_size -= donated;
    }
    Unlock();
    return;
  }
}

void Worker(const Scenario& scenario, uint64_t max_executions) {
  uint64_t executions = 0;
  stack.reserve(kMaxTrace + 1);
  while (TakePrefix()) {
    for (;;) {
      if (shared->stop) return;
      ExecuteOnce(scenario);
      ++executions;
      if (Now() > g_deadline || executions > max_executions) {
        shared->out_of_budget = 1;
        shared->stop = 1;
        return;
      }
      // Backtrack.
      MaybeDonate();
      while (stack.size() > fixed &&
             stack.back().choice + 1 >= stack.back().arity) {
        stack.pop_back();
      }
      if (stack.size() <= fixed) break;
      ++stack.back().choice;
    }
  }
}

std::string JsonEscape(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n') {
      r += "\\n";
    } else if (static_cast<unsigned char>(c) < 32 ||
               static_cast<unsigned char>(c) > 126) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", static_cast<unsigned char>(c));
      r += b;
    } else {
      r += c;
    }
  }
  return r;
}

struct ScenarioResult {
  std::string name, bounds;
  uint64_t executions = 0, pruned = 0, transitions = 0, states = 0,
           choice_points = 0, nodes = 0;
  int max_depth = 0;
  bool complete = true;
  bool violated = false;
  std::string message, log;
  std::vector<int> trace;
  std::vector<std::string> samples;
  std::set<std::string> known;
  double wall = 0;
};

void ResetSlots() {
  for (int i = 0; i < kMaxWorkers; ++i) {
    memset(static_cast<void*>(&shared->slot[i]), 0, sizeof(Slot));
  }
}

pid_t Fork(int index, const std::function<void()>& body) {
  fflush(stdout);
  fflush(stderr);
  const pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    slot = &shared->slot[index];
    if (!g_replaying) {
      const int null = open("/dev/null", O_WRONLY);
      dup2(null, 2);
      dup2(null, 1);
    }
    InstallHandlers();
#ifndef __SANITIZE_ADDRESS__
    rlimit as{6ull << 30, 6ull << 30};
    setrlimit(RLIMIT_AS, &as);
#endif
    body();
    _exit(0);
  }
  return pid;
}

ScenarioResult RunScenario(const Scenario& scenario, int num_workers) {
  ScenarioResult result;
  result.name = scenario.name;
  result.bounds = scenario.bounds;
  const double start = Now();
  shared->lock = 0;
  shared->stop = 0;
  shared->idle = 0;
  shared->out_of_budget = 0;
  shared->workers = num_workers;
  shared->num_visited = 0;
  madvise(static_cast<void*>(visited), kVisitedSize * 8, MADV_REMOVE);
  for (int i = 0; i < num_workers; ++i) {
    memset(static_cast<void*>(&shared->slot[i]), 0, sizeof(Slot));
  }
  shared->queue_size = 1;
  shared->queue[0].length = 0;
  std::map<pid_t, int> pids;
  for (int i = 0; i < num_workers; ++i) {
    pids[Fork(i, [&] { Worker(scenario, scenario.max_executions); })] = i;
  }
  int violating = -1;
  while (!pids.empty()) {
    int status = 0;
    const pid_t pid = waitpid(-1, &status, WNOHANG);
    if (pid > 0 && pids.count(pid)) {
      const int i = pids[pid];
      pids.erase(pid);
      if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
        if (violating < 0) {
          violating = i;
          if (shared->slot[i].message[0] == 0) {
            snprintf(shared->slot[i].message, sizeof(shared->slot[i].message),
                     "process ended abnormally (status %d)", status);
          }
        }
        shared->stop = 1;
      }
      continue;
    }
    // Hang detection: one execution normally takes milliseconds.
    for (const auto& p : pids) {
      Slot& s = shared->slot[p.second];
      const double begin = s.execution_start;
      if (begin > 0 && Now() - begin > kHangSeconds && violating < 0) {
        snprintf(s.message, sizeof(s.message),
                 "execution did not terminate within %d s", kHangSeconds);
        s.failed = 1;
        violating = p.second;
        shared->stop = 1;
      }
      if (shared->stop && begin > 0 && Now() - begin > kHangSeconds) {
        kill(p.first, SIGKILL);
      }
    }
    usleep(2000);
  }
  for (int i = 0; i < num_workers; ++i) {
    Slot& s = shared->slot[i];
    result.executions += s.executions;
    result.pruned += s.pruned;
    result.transitions += s.transitions;
    result.choice_points += s.choice_points;
    result.nodes += s.nodes;
    result.max_depth = std::max<int>(result.max_depth, s.max_depth);
    for (int k = 0; k < s.num_samples && result.samples.size() < 2; ++k) {
      result.samples.push_back(s.samples[k]);
    }
    for (int k = 0; k < s.num_known; ++k) result.known.insert(s.known[k]);
  }
  result.states = shared->num_visited;
  if (result.states == 0) result.states = result.nodes;
  result.complete = shared->out_of_budget == 0;
  if (violating >= 0) {
    Slot& s = shared->slot[violating];
    result.violated = true;
    result.message = s.message;
    result.log = std::string(s.log, s.log_length);
    for (int k = 0; k < s.trace_length; ++k) result.trace.push_back(s.choice[k]);
  }
  result.wall = Now() - start;
  return result;
}

// Executes one trace in a child; returns true if it fails (again).
bool ReplayTrace(const Scenario& scenario, const std::vector<int>& trace,
                 std::string* message, std::string* log) {
  memset(static_cast<void*>(&shared->slot[0]), 0, sizeof(Slot));
  shared->stop = 0;
  const pid_t pid = Fork(0, [&] {
    stack.clear();
    for (int c : trace) stack.push_back({static_cast<uint16_t>(c), 0});
    fixed = stack.size();
    alarm(300);
    ExecuteOnce(scenario);
  });
  int status = 0;
  waitpid(pid, &status, 0);
  *message = shared->slot[0].message;
  *log = std::string(shared->slot[0].log, shared->slot[0].log_length);
  if (message->empty() && WIFSIGNALED(status)) {
    *message = "replay ended by signal " + std::to_string(WTERMSIG(status));
  }
  return !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
}

}  // namespace

uint64_t HashBytes(const void* data, size_t n, uint64_t seed) {
  const unsigned char* p = static_cast<const unsigned char*>(data);
  uint64_t h = seed ^ 0xcbf29ce484222325ull;
  for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 0x100000001b3ull;
  return Hash(h, n);
}

int choose(int n) {
  if (n <= 0) fail("internal: choose() without alternatives");
  if (position >= kMaxTrace) fail("execution exceeds the choice limit (no progress?)");
  int c;
  if (position < stack.size()) {
    c = stack[position].choice;
    if (c >= n) {
      if (g_replaying) {
        fail("replay diverged from the recorded execution");
      }
      fail("nondeterministic execution: recorded choice " + std::to_string(c) +
           " of " + std::to_string(n));
    }
    if (stack[position].arity == 0) stack[position].arity = n;
  } else {
    c = 0;
    // (reserved beforehand: must not allocate within an execution)
    stack.push_back({0, static_cast<uint16_t>(n)});
  }
  slot->choice[position] = c;
  slot->arity[position] = n;
  ++position;
  slot->trace_length = position;
  slot->choice_points.fetch_add(1, std::memory_order_relaxed);
  return c;
}

void fail(const std::string& message) {
  if (slot) {
    if (!slot->failed) {
      snprintf(slot->message, sizeof(slot->message), "%s", message.c_str());
      slot->failed = 1;
    }
  } else {
    fprintf(stderr, "%s\n", message.c_str());
  }
  _exit(77);
}

void prune() { throw Pruned(); }
void step(int n) { slot->transitions.fetch_add(n, std::memory_order_relaxed); }

bool visit(uint64_t h) {
  if (h == 0) h = 1;
  uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> 40;  // 24 bits
  for (int probe = 0; probe < 64; ++probe) {
    uint64_t expected = 0;
    auto& cell = visited[(i + probe) & (kVisitedSize - 1)];
    if (cell.compare_exchange_strong(expected, h)) {
      shared->num_visited.fetch_add(1);
      return true;
    }
    if (expected == h) return false;
  }
  return true;  // table full here: treat as new (never prunes wrongly)
}

void sample(const std::string& s) {
  if (slot->num_samples < 3) {
    snprintf(slot->samples[slot->num_samples++], 1024, "%s", s.c_str());
  }
}
bool replaying() { return g_replaying; }
Outcome attempt(const std::function<void()>& function) {
  const pid_t pid = fork();
  if (pid == 0) {
    g_attempt = true;
    function();
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
  }
  if (!WIFEXITED(status)) return Outcome::kCrashed;
  if (WEXITSTATUS(status) == 0) return Outcome::kCompleted;
  return WEXITSTATUS(status) == 78 ? Outcome::kRefused : Outcome::kCrashed;
}
bool thorough() { return g_thorough; }

void log(const std::string& s) {
  if (g_replaying) fprintf(stderr, "  %s\n", s.c_str());
  int room = static_cast<int>(sizeof(slot->log)) - slot->log_length - 2;
  int n = std::min<int>(room, s.size());
  if (n <= 0) return;
  memcpy(slot->log + slot->log_length, s.data(), n);
  slot->log_length += n;
  slot->log[slot->log_length++] = '\n';
  slot->log[slot->log_length] = 0;
}

bool known(const std::string& key) {
  if (std::find(g_known.begin(), g_known.end(), key) == g_known.end()) {
    return false;
  }
  for (int i = 0; i < slot->num_known; ++i) {
    if (key == slot->known[i]) return true;
  }
  if (slot->num_known < 8) {
    snprintf(slot->known[slot->num_known++], 256, "%s", key.c_str());
  }
  return true;
}

int Main(int argc, char** argv, const std::vector<Scenario>& scenarios,
         const Config& config) {
  std::string property = "X00", tier = "quick", out, replay_dir = ".", replay,
              only;
  std::vector<std::string> known_descriptions;
  int workers = std::max(1, static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN)));
  double budget = 0;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") property = next();
    else if (a == "--tier") tier = next();
    else if (a == "--out") out = next();
    else if (a == "--replay-dir") replay_dir = next();
    else if (a == "--replay") replay = next();
    else if (a == "--only") only = next();
    else if (a == "--workers") workers = atoi(next().c_str());
    else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--known") g_known.push_back(next());
  }
  workers = std::min(workers, kMaxWorkers);
  // Reproducible addresses where the sandbox allows it.
  if (!getenv("MC_NO_ASLR_OFF") && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) {
      setenv("MC_NO_ASLR_OFF", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  g_thorough = tier == "thorough";
  shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                     PROT_READ | PROT_WRITE,
                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  visited = static_cast<std::atomic<uint64_t>*>(
      mmap(nullptr, kVisitedSize * 8, PROT_READ | PROT_WRITE,
           MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  google::InitGoogleLogging(argv[0]);
  FLAGS_logtostderr = true;
  FLAGS_minloglevel = getenv("MC_VERBOSE") ? 0 : 3;
  google::InstallFailureFunction(&CheckFailed);
  static Sink sink;
  google::AddLogSink(&sink);
  // Otherwise glog reallocates a string for each message.
  setenv("TZ", "UTC", 1);
  tzset();
  rlimit no_core{0, 0};
  setrlimit(RLIMIT_CORE, &no_core);

  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r");
    if (!f) {
      fprintf(stderr, "cannot read %s\n", replay.c_str());
      return 2;
    }
    std::string text;
    char buffer[4096];
    size_t n;
    while ((n = fread(buffer, 1, sizeof(buffer), f)) > 0) text.append(buffer, n);
    fclose(f);
    auto field = [&](const std::string& key) {
      const auto p = text.find("\"" + key + "\"");
      return p == std::string::npos ? std::string()
                                    : text.substr(text.find(':', p) + 1);
    };
    std::string name = field("scenario");
    name = name.substr(name.find('"') + 1);
    name = name.substr(0, name.find('"'));
    g_thorough = field("tier").find("\"thorough\"") < 4;
    std::vector<int> trace;
    std::string t = field("choices");
    t = t.substr(t.find('[') + 1);
    t = t.substr(0, t.find(']'));
    std::istringstream is(t);
    int v;
    char comma;
    while (is >> v) {
      trace.push_back(v);
      is >> comma;
    }
    for (const auto& s : scenarios) {
      if (name != s.name) continue;
      g_replaying = true;
      std::string message, log;
      const bool failed = ReplayTrace(s, trace, &message, &log);
      fprintf(stderr, "%s: %s\n", failed ? "violation reproduced" : "no violation",
              message.c_str());
      if (failed) {
        printf("VIOLATION property=%s replay=%s\n", property.c_str(),
               replay.c_str());
      }
      return failed ? 1 : 0;
    }
    fprintf(stderr, "unknown scenario %s\n", name.c_str());
    return 2;
  }

  const double start = Now();
  if (budget > 0) g_deadline = start + budget;
  std::vector<ScenarioResult> results;
  bool violated = false;
  std::string replay_path;
  for (const auto& s : scenarios) {
    if (!only.empty() && only != s.name) continue;
    if (only.empty() && !(s.tiers & (g_thorough ? 2 : 1))) continue;
    if (Now() > g_deadline) {
      ScenarioResult r;
      r.name = s.name;
      r.bounds = s.bounds;
      r.complete = false;
      results.push_back(r);
      continue;
    }
    ScenarioResult r = RunScenario(s, workers);
    fprintf(stderr,
            "[%s] %s: %llu executions (%llu pruned), %llu transitions, %llu "
            "states, depth %d, %s, %.1f s\n",
            property.c_str(), s.name, (unsigned long long)r.executions,
            (unsigned long long)r.pruned, (unsigned long long)r.transitions,
            (unsigned long long)r.states, r.max_depth,
            r.violated ? "VIOLATED" : r.complete ? "complete" : "budget exhausted",
            r.wall);
    if (r.violated) {
      violated = true;
      std::string message, log;
      bool again = ReplayTrace(s, r.trace, &message, &log);
      mkdir(replay_dir.c_str(), 0777);
      replay_path = replay_dir + "/" + property + "-" + s.name + ".json";
      FILE* f = fopen(replay_path.c_str(), "w");
      if (f) {
        fprintf(f,
                "{\"property\": \"%s\", \"scenario\": \"%s\", \"tier\": "
                "\"%s\",\n \"choices\": [",
                property.c_str(), s.name, tier.c_str());
        for (size_t i = 0; i < r.trace.size(); ++i) {
          fprintf(f, "%s%d", i ? ", " : "", r.trace[i]);
        }
        fprintf(f, "],\n \"reproduced\": %s,\n \"message\": \"%s\",\n \"log\": \"%s\"}\n",
                again ? "true" : "false", JsonEscape(r.message).c_str(),
                JsonEscape(r.log).c_str());
        fclose(f);
      }
      fprintf(stderr, "[%s] %s: %s\n%s%s", property.c_str(), s.name,
              r.message.c_str(), r.log.c_str(),
              again ? "" : "(not reproduced by the replay)\n");
    }
    results.push_back(r);
    if (violated) break;
  }
  // Evidence fragment; the driver adds build information.
  uint64_t executions = 0, transitions = 0, states = 0, choice_points = 0;
  bool complete = true;
  std::set<std::string> known;
  for (const auto& r : results) {
    executions += r.executions;
    transitions += r.transitions ? r.transitions : r.choice_points;
    choice_points += r.choice_points;
    states += r.states;
    complete = complete && r.complete && !r.violated;
    known.insert(r.known.begin(), r.known.end());
  }
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    if (!f) {
      fprintf(stderr, "cannot write %s\n", out.c_str());
      return 2;
    }
    fprintf(f, "{\"states\": %llu, \"transitions\": %llu, \"executions\": %llu,"
               " \"exhaustive\": %s, \"wall_s\": %.2f, \"violated\": %s,\n",
            (unsigned long long)states, (unsigned long long)transitions,
            (unsigned long long)executions, complete ? "true" : "false",
            Now() - start, violated ? "true" : "false");
    fprintf(f, " \"known\": [");
    bool first = true;
    for (const auto& k : known) {
      fprintf(f, "%s\"%s\"", first ? "" : ", ", JsonEscape(k).c_str());
      first = false;
    }
    fprintf(f, "],\n \"assumptions\": [");
    for (size_t i = 0; i < config.assumptions.size(); ++i) {
      fprintf(f, "%s\"%s\"", i ? ", " : "",
              JsonEscape(config.assumptions[i]).c_str());
    }
    fprintf(f, "],\n \"scenarios\": [\n");
    for (size_t i = 0; i < results.size(); ++i) {
      const auto& r = results[i];
      fprintf(f,
              "  {\"name\": \"%s\", \"bounds\": \"%s\", \"executions\": %llu, "
              "\"pruned\": %llu, \"transitions\": %llu, \"choice_points\": %llu, "
              "\"distinct_states\": %llu, \"max_depth\": %d, \"complete\": %s, "
              "\"violated\": %s, \"wall_s\": %.2f, \"message\": \"%s\", \"samples\": [",
              r.name.c_str(), JsonEscape(r.bounds).c_str(),
              (unsigned long long)r.executions, (unsigned long long)r.pruned,
              (unsigned long long)r.transitions,
              (unsigned long long)r.choice_points,
              (unsigned long long)r.states, r.max_depth,
              r.complete ? "true" : "false", r.violated ? "true" : "false",
              r.wall, JsonEscape(r.message).c_str());
      for (size_t k = 0; k < r.samples.size(); ++k) {
        fprintf(f, "%s\"%s\"", k ? ", " : "", JsonEscape(r.samples[k]).c_str());
      }
      fprintf(f, "]}%s\n", i + 1 < results.size() ? "," : "");
    }
    fprintf(f, " ],\n \"replay\": \"%s\"}\n", JsonEscape(replay_path).c_str());
    fclose(f);
  }
  if (violated) {
    printf("VIOLATION property=%s replay=%s\n", property.c_str(),
           replay_path.c_str());
    return 1;
  }
  return 0;
}

}  // namespace mc
