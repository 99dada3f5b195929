#include "mc_sched.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <unistd.h>

#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <vector>

#include "mc.h"

extern "C" char __libc_single_threaded;

namespace sched {
namespace {

constexpr int kMaxThreads = 16;

struct VectorClock {
  uint32_t c[kMaxThreads] = {};
  void Join(const VectorClock& o) {
    for (int i = 0; i < kMaxThreads; ++i) {
      if (o.c[i] > c[i]) c[i] = o.c[i];
    }
  }
};

struct MutexState {
  int writer = -1;
  int readers = 0;
  VectorClock clock;
};

enum class Wait { kNone, kLock, kReaderLock, kCondition, kCondVar, kJoin, kSleep, kQuiet };

struct Thread {
  int id = 0;
  void* sp = nullptr;
  char* stack = nullptr;
  bool done = false, detached = false;
  Wait wait = Wait::kNone;
  void* mutex = nullptr;
  bool (*eval)(const void*) = nullptr;
  const void* arg = nullptr;
  bool ready = false;  // condition seen true / condvar signalled
  bool timed = false, timed_out = false, reader = false;
  void* cv = nullptr;
  int target = -1;
  void* (*start)(void*) = nullptr;
  void* start_arg = nullptr;
  void* result = nullptr;
  VectorClock clock;
  abi::__cxa_eh_globals* unused = nullptr;
  char eh[16] = {};
};

struct State {
  Options options;
  std::vector<std::unique_ptr<Thread>> threads;
  int current = 0;
  int preemptions_left = 0, timeouts_left = 0;
  int steps = 0;
  int idle_timeouts = 0;
  int no_preempt = 0;
  void* scheduler_sp = nullptr;
  std::unordered_map<void*, MutexState> mutexes;
  std::unordered_map<void*, VectorClock> atomics;
  bool pruned = false;
};

State* g = nullptr;
bool active = false;
int in_runtime = 0;
uint32_t epoch = 0;
std::vector<char*> free_stacks;
size_t stack_size_in_use = 0;

struct Runtime {  // suppresses race detection in the runtime itself
  Runtime() { ++in_runtime; }
  ~Runtime() { --in_runtime; }
};

extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $16, %rsp
  stmxcsr (%rsp)
  fnstcw 8(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 8(%rsp)
  addq $16, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

Thread& Cur() { return *g->threads[g->current]; }

[[noreturn]] void ThreadMain();

void PrepareStack(Thread* t) {
  if (stack_size_in_use != g->options.stack_size) {
    for (char* s : free_stacks) munmap(s, stack_size_in_use);
    free_stacks.clear();
    stack_size_in_use = g->options.stack_size;
  }
  if (free_stacks.empty()) {
    t->stack = static_cast<char*>(mmap(nullptr, stack_size_in_use,
                                       PROT_READ | PROT_WRITE,
                                       MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(t->stack, 4096, PROT_NONE);
  } else {
    t->stack = free_stacks.back();
    free_stacks.pop_back();
  }
  uintptr_t top = reinterpret_cast<uintptr_t>(t->stack) + stack_size_in_use;
  top &= ~uintptr_t(63);
  void** p = reinterpret_cast<void**>(top);
  *--p = nullptr;                                    // return address of ThreadMain
  *--p = reinterpret_cast<void*>(&ThreadMain);       // popped by ret
  for (int i = 0; i < 6; ++i) *--p = nullptr;        // callee saved
  p -= 2;
  reinterpret_cast<uint32_t*>(p)[0] = 0x1f80;        // mxcsr
  reinterpret_cast<uint16_t*>(p)[4] = 0x037f;        // x87 control word
  t->sp = p;
}

void SwitchTo(int id) {
  if (id == g->current) return;
  Thread& from = Cur();
  Thread& to = *g->threads[id];
  void* eh = abi::__cxa_get_globals();
  memcpy(from.eh, eh, 16);
  memcpy(eh, to.eh, 16);
  g->current = id;
  const int saved = in_runtime;  // per fiber
  mc_switch(&from.sp, to.sp);
  in_runtime = saved;
}

std::string Describe() {
  std::ostringstream os;
  static const char* const kNames[] = {"running", "waits for mutex", "waits for mutex (reader)",
                                       "waits for condition", "waits on condition variable",
                                       "joins", "sleeps", "waits for quiescence"};
  for (const auto& t : g->threads) {
    os << " thread " << t->id << (t->done ? " done" : "");
    if (!t->done) {
      os << " " << kNames[static_cast<int>(t->wait)];
      if (t->wait == Wait::kJoin) os << " " << t->target;
    }
    os << ";";
  }
  return os.str();
}

bool Free(void* m, bool reader) {
  const MutexState& s = g->mutexes[m];
  return s.writer < 0 && (reader || s.readers == 0);
}

bool Enabled(const Thread& t) {
  if (t.done) return false;
  switch (t.wait) {
    case Wait::kNone:
      return true;
    case Wait::kLock:
      return Free(t.mutex, false);
    case Wait::kReaderLock:
      return Free(t.mutex, true);
    case Wait::kCondition:
      return (t.ready || t.timed_out) && Free(t.mutex, t.reader);
    case Wait::kCondVar:
      return (t.ready || t.timed_out) && Free(t.mutex, false);
    case Wait::kJoin:
      return g->threads[t.target]->done;
    case Wait::kSleep:
      return true;
    case Wait::kQuiet:
      return false;  // only when nobody else can run; see Pick()
  }
  return false;
}

bool CanTimeOut(const Thread& t) {
  return !t.done && t.timed && !t.timed_out && !t.ready &&
         (t.wait == Wait::kCondition || t.wait == Wait::kCondVar);
}

void CountStep() {
  mc::step();
  if (++g->steps > g->options.max_steps) {
    mc::fail("no termination within the step bound:" + Describe());
  }
}

// Selects the next thread to run. 'runnable': the current thread may go on.
void Reschedule(bool runnable) {
  Runtime runtime;
  CountStep();
  for (;;) {
    int options[3 * kMaxThreads];
    int n = 0;
    const bool may_switch =
        !runnable || (g->preemptions_left > 0 && g->no_preempt == 0);
    if (runnable) options[n++] = g->current;
    if (may_switch) {
      const int count = g->threads.size();
      for (int k = 1; k <= count; ++k) {
        const int i = (g->current + k) % count;
        if (i == g->current && runnable) continue;
        if (Enabled(*g->threads[i])) options[n++] = i;
      }
    }
    int timeouts_begin = n;
    if (may_switch && g->timeouts_left > 0 && n > 0) {
      for (const auto& t : g->threads) {
        if (CanTimeOut(*t)) options[n++] = t->id;
      }
    }
    if (n == 0) {
      // Nobody can run: quiescence waiters first, then time passes.
      for (const auto& t : g->threads) {
        if (!t->done && t->wait == Wait::kQuiet) options[n++] = t->id;
      }
      if (n > 0) {
        const int id = options[n == 1 ? 0 : mc::choose(n)];
        g->threads[id]->wait = Wait::kNone;
        SwitchTo(id);
        return;
      }
      for (const auto& t : g->threads) {
        if (CanTimeOut(*t)) options[n++] = t->id;
      }
      if (n == 0) {
        if (g->options.on_deadlock && g->options.on_deadlock()) {
          active = false;
          void* dummy;
          mc_switch(&dummy, g->scheduler_sp);
        }
        mc::fail("deadlock:" + Describe());
      }
      if (++g->idle_timeouts > 64) {
        mc::fail("no progress, only timeouts fire:" + Describe());
      }
      g->threads[options[n == 1 ? 0 : mc::choose(n)]]->timed_out = true;
      continue;
    }
    const int c = n == 1 ? 0 : mc::choose(n);
    const int id = options[c];
    if (c >= timeouts_begin) {
      --g->timeouts_left;
      g->threads[id]->timed_out = true;
      continue;
    }
    if (runnable && id != g->current) --g->preemptions_left;
    if (!g->threads[id]->timed_out) g->idle_timeouts = 0;
    if (id != g->current && mc::replaying()) {
      std::ostringstream os;
      os << "step " << g->steps << ": switch " << g->current << " -> " << id
         << (runnable ? " (preemption)" : "");
      mc::log(os.str());
    }
    SwitchTo(id);
    return;
  }
}

void Acquire(void* m, bool reader) {
  MutexState& s = g->mutexes[m];
  if (reader) {
    ++s.readers;
  } else {
    s.writer = g->current;
  }
  Cur().clock.Join(s.clock);
}

// Waiters whose condition became true are eligible from now on; like in the
// real implementation conditions are evaluated when the mutex is released.
void EvaluateWaiters(void* m) {
  for (const auto& t : g->threads) {
    if (!t->done && t->wait == Wait::kCondition && t->mutex == m && !t->ready) {
      t->ready = t->eval(t->arg);
    }
  }
}

void Release(void* m, bool reader) {
  MutexState& s = g->mutexes[m];
  if (reader) {
    if (s.readers <= 0) mc::fail("reader unlock of a mutex that is not held");
  } else if (s.writer != g->current) {
    mc::fail("unlock of a mutex not held by the current thread");
  }
  if (!reader) {
    EvaluateWaiters(m);
    s.writer = -1;
  } else {
    --s.readers;
  }
  // Sequence matters: publish, then start a new epoch.
  s.clock.Join(Cur().clock);
  ++Cur().clock.c[g->current];
}

[[noreturn]] void ThreadMain() {
  in_runtime = 0;
  Thread& t = Cur();
  try {
    t.result = t.start(t.start_arg);
  } catch (const mc::Pruned&) {
    g->pruned = true;
    active = false;
    void* dummy;
    mc_switch(&dummy, g->scheduler_sp);
  }
  {
    Runtime runtime;
    t.done = true;
    ++t.clock.c[t.id];
    bool all_done = true;
    for (const auto& other : g->threads) all_done = all_done && other->done;
    if (all_done) {
      void* dummy;
      mc_switch(&dummy, g->scheduler_sp);
    }
    Reschedule(false);
  }
  abort();
}

// ---------------------------------------------------------------- races ----

struct Record {
  uint32_t clock = 0;
  uint8_t tid = 0;
  uint8_t mask = 0;
  uint8_t write = 0;
  uint8_t freed = 0;
  void* pc = nullptr;
};
struct Cell {
  Record r[4];
};
struct Page {
  uint32_t epoch = 0;
  Cell cells[512];
};
std::unordered_map<uintptr_t, Page*>* pages;
uintptr_t cached_number = ~uintptr_t(0);
Page* cached_page = nullptr;

Page* GetPage(uintptr_t number) {
  if (number == cached_number) return cached_page;
  if (!pages) pages = new std::unordered_map<uintptr_t, Page*>;
  Page*& p = (*pages)[number];
  if (!p) p = static_cast<Page*>(calloc(1, sizeof(Page)));
  if (p->epoch != epoch) {
    memset(static_cast<void*>(p->cells), 0, sizeof(p->cells));
    p->epoch = epoch;
  }
  cached_number = number;
  cached_page = p;
  return p;
}

std::string Location(void* pc) {
  Dl_info info;
  std::ostringstream os;
  if (dladdr(pc, &info) && info.dli_fname) {
    os << info.dli_fname << "+0x" << std::hex
       << (reinterpret_cast<uintptr_t>(pc) -
           reinterpret_cast<uintptr_t>(info.dli_fbase));
    // Resolve to a source line for the report.
    std::ostringstream cmd;
    cmd << "addr2line -Cfpe " << info.dli_fname << " 0x" << std::hex
        << (reinterpret_cast<uintptr_t>(pc) -
            reinterpret_cast<uintptr_t>(info.dli_fbase) - 1)
        << " 2>/dev/null";
    if (FILE* f = popen(cmd.str().c_str(), "r")) {
      char buffer[600];
      if (fgets(buffer, sizeof(buffer), f)) {
        buffer[strcspn(buffer, "\n")] = 0;
        os << " (" << buffer << ")";
      }
      pclose(f);
    }
  } else {
    os << pc;
  }
  return os.str();
}

void AccessWord(uintptr_t word, uint8_t mask, bool write, void* pc) {
  Page* page = GetPage(word >> 12);
  Cell& cell = page->cells[(word >> 3) & 511];
  const int tid = g->current;
  const VectorClock& clock = g->threads[tid]->clock;
  int slot = -1, victim = -1;
  for (int i = 0; i < 4; ++i) {
    Record& r = cell.r[i];
    if (!r.mask) {
      if (victim < 0 || cell.r[victim].mask) victim = i;
      continue;
    }
    if (r.mask & mask) {
      if (r.freed) {
        ++in_runtime;
        active = false;
        mc::fail("use after free: " + Location(pc) + " accesses memory freed at " +
                 Location(r.pc));
      }
      if (r.tid != tid && (write || r.write) && r.clock > clock.c[r.tid]) {
        ++in_runtime;
        active = false;
        mc::fail("data race: " + std::string(write ? "write" : "read") + " by thread " +
                 std::to_string(tid) + " at " + Location(pc) + " and earlier " +
                 (r.write ? "write" : "read") + " by thread " + std::to_string(r.tid) +
                 " at " + Location(r.pc));
      }
    }
    if (r.tid == tid && r.mask == mask && r.write <= static_cast<uint8_t>(write)) {
      slot = i;
    } else if (r.clock <= clock.c[r.tid] && (r.mask & ~mask) == 0 &&
               (write || !r.write) && victim < 0) {
      victim = i;  // ordered before us and covered by this access
    }
  }
  if (slot < 0) slot = victim;
  if (slot < 0) slot = (word >> 3) % 4;
  Record& r = cell.r[slot];
  r.tid = tid;
  r.mask = mask;
  r.write = write;
  r.freed = 0;
  r.clock = clock.c[tid];
  r.pc = pc;
}

}  // namespace

void AccessImpl(uintptr_t a, size_t n, bool write, void* pc) {
  while (n > 0) {
    const uintptr_t word = a & ~uintptr_t(7);
    const size_t offset = a - word;
    const size_t m = std::min<size_t>(n, 8 - offset);
    AccessWord(word, static_cast<uint8_t>(((1u << m) - 1) << offset), write, pc);
    a += m;
    n -= m;
  }
}

inline void Access(void* p, size_t n, bool write, void* pc) {
  if (!active || in_runtime || !g->options.detect_races || g->threads.size() < 2) return;
  ++in_runtime;
  AccessImpl(reinterpret_cast<uintptr_t>(p), n, write, pc);
  --in_runtime;
}

void OnAlloc(void* p, size_t n) {
  if (!active || in_runtime || !p || !g->options.detect_races || g->threads.size() < 2) {
    return;
  }
  ++in_runtime;
  const uintptr_t begin = reinterpret_cast<uintptr_t>(p) & ~uintptr_t(7);
  const uintptr_t end = reinterpret_cast<uintptr_t>(p) + n;
  for (uintptr_t w = begin; w < end; w += 8) {
    if (end - begin > 65536 && pages && !pages->count(w >> 12)) {
      w = (w | 4095) - 7;  // untouched page
      continue;
    }
    Cell& cell = GetPage(w >> 12)->cells[(w >> 3) & 511];
    if (cell.r[0].mask | cell.r[1].mask | cell.r[2].mask | cell.r[3].mask) {
      cell = Cell();
    }
  }
  --in_runtime;
}

void OnFree(void* p, size_t n) {
  if (!active || in_runtime || !g->options.detect_races || g->threads.size() < 2) return;
  ++in_runtime;
  void* pc = __builtin_return_address(0);
  const uintptr_t begin = reinterpret_cast<uintptr_t>(p);
  const size_t usable = n & ~size_t(7);
  for (uintptr_t w = begin; w < begin + usable; w += 8) {
    Cell& cell = GetPage(w >> 12)->cells[(w >> 3) & 511];
    cell.r[0].mask = 0xff;
    cell.r[0].freed = 1;
    cell.r[0].pc = pc;
  }
  --in_runtime;
}

bool UseArena() { return active && !in_runtime; }

bool Active() { return active; }
int CurrentThread() { return g ? g->current : 0; }
int Steps() { return g->steps; }

NoPreempt::NoPreempt() { BeginNoPreempt(); }
NoPreempt::~NoPreempt() { EndNoPreempt(); }
void BeginNoPreempt() {
  if (active) ++g->no_preempt;
}
void EndNoPreempt() {
  if (active) --g->no_preempt;
}

void Point() {
  if (!active || g->no_preempt) return;
  Reschedule(true);
}

void Sleep() {
  if (!active) return;
  Reschedule(true);
}

void WaitUntilQuiescent() {
  if (!active) return;
  Cur().wait = Wait::kQuiet;
  Reschedule(false);
  Cur().wait = Wait::kNone;
}

void MutexLock(void* m) {
  Runtime runtime;
 
  Thread& t = Cur();
  if (g->mutexes[m].writer == g->current) {
    mc::fail("self deadlock: mutex locked twice by thread " + std::to_string(t.id));
  }
  if (Free(m, false)) {
    if (!g->no_preempt) Reschedule(true);
  }
  while (!Free(m, false)) {
    t.wait = Wait::kLock;
    t.mutex = m;
    Reschedule(false);
    t.wait = Wait::kNone;
  }
  Acquire(m, false);
}

bool MutexTryLock(void* m) {
  Runtime runtime;
 
  if (!g->no_preempt) Reschedule(true);
  if (!Free(m, false)) return false;
  Acquire(m, false);
  return true;
}

void MutexUnlock(void* m) {
  Runtime runtime;
  Release(m, false);
}

void MutexReaderLock(void* m) {
  Runtime runtime;
 
  Thread& t = Cur();
  if (Free(m, true)) {
    if (!g->no_preempt) Reschedule(true);
  }
  while (!Free(m, true)) {
    t.wait = Wait::kReaderLock;
    t.mutex = m;
    Reschedule(false);
    t.wait = Wait::kNone;
  }
  Acquire(m, true);
}

void MutexReaderUnlock(void* m) {
  Runtime runtime;
  Release(m, true);
}

bool MutexHeld(void* m) {
  Runtime runtime;
  return g->mutexes[m].writer == g->current; }
bool MutexHeldAny(void* m) {
  Runtime runtime;
 
  return g->mutexes[m].writer == g->current || g->mutexes[m].readers > 0;
}

void MutexDestroy(void* m) {
  Runtime runtime;
  auto it = g->mutexes.find(m);
  if (it == g->mutexes.end()) return;
  if (it->second.writer >= 0 || it->second.readers > 0) {
    mc::fail("mutex destroyed while held by thread " +
             std::to_string(it->second.writer));
  }
  for (const auto& t : g->threads) {
    if (!t->done && t->wait != Wait::kNone && t->wait != Wait::kJoin &&
        t->wait != Wait::kSleep && t->wait != Wait::kQuiet && t->mutex == m) {
      mc::fail("mutex destroyed while thread " + std::to_string(t->id) +
               " waits for it");
    }
  }
  g->mutexes.erase(it);
}

bool MutexAwait(void* m, bool (*eval)(const void*), const void* arg, bool timed,
                bool have_lock, bool reader) {
  Thread& t = Cur();
  if (have_lock && !MutexHeldAny(m)) mc::fail("Await() without holding the mutex");
  if (have_lock) {
    if (eval(arg)) return true;
    Runtime runtime;
    Release(m, g->mutexes[m].writer != g->current);
  } else {
    if (reader) {
      MutexReaderLock(m);
    } else {
      MutexLock(m);
    }
    if (eval(arg)) return true;
    Runtime runtime;
    Release(m, reader);
  }
  for (;;) {
    {
      Runtime runtime;
      t.wait = Wait::kCondition;
      t.mutex = m;
      t.eval = eval;
      t.arg = arg;
      t.timed = timed;
      t.timed_out = false;
      t.ready = false;
      t.reader = reader;
      Reschedule(false);
      t.wait = Wait::kNone;
      t.timed = false;
      Acquire(m, reader);
    }
    const bool value = eval(arg);
    if (value) return true;
    if (t.timed_out) return false;
    Runtime runtime;
    Release(m, reader);
  }
}

bool CondWait(void* cv, void* m, bool timed) {
  Thread& t = Cur();
  Runtime runtime;
  Release(m, false);
  t.wait = Wait::kCondVar;
  t.cv = cv;
  t.mutex = m;
  t.timed = timed;
  t.timed_out = false;
  t.ready = false;
  Reschedule(false);
  t.wait = Wait::kNone;
  t.timed = false;
  Acquire(m, false);
  return t.ready;
}

void CondSignal(void* cv, bool all) {
  if (!g->no_preempt) Reschedule(true);
  Runtime runtime;
  std::vector<Thread*> waiters;
  for (const auto& t : g->threads) {
    if (!t->done && t->wait == Wait::kCondVar && t->cv == cv && !t->ready) {
      waiters.push_back(t.get());
    }
  }
  if (waiters.empty()) return;
  if (all) {
    for (Thread* t : waiters) t->ready = true;
  } else {
    waiters[waiters.size() == 1 ? 0 : mc::choose(waiters.size())]->ready = true;
  }
}

int CreateThread(void* (*start)(void*), void* arg) {
  Runtime runtime;
  if (g->threads.size() >= kMaxThreads) mc::fail("too many threads");
  auto t = std::make_unique<Thread>();
  t->id = g->threads.size();
  t->start = start;
  t->start_arg = arg;
  t->clock = Cur().clock;
  t->clock.c[t->id] = 1;
  ++Cur().clock.c[g->current];
  PrepareStack(t.get());
  g->threads.push_back(std::move(t));
  return g->threads.size() - 1;
}

void* JoinThread(int id) {
  Runtime runtime;
  Thread& t = Cur();
  if (id == t.id) mc::fail("thread joins itself");
  while (!g->threads[id]->done) {
    t.wait = Wait::kJoin;
    t.target = id;
    Reschedule(false);
    t.wait = Wait::kNone;
  }
  t.clock.Join(g->threads[id]->clock);
  return g->threads[id]->result;
}

void DetachThread(int id) { g->threads[id]->detached = true; }

namespace {
const std::function<void()>* main_body;
void* MainStart(void*) {
  (*main_body)();
  return nullptr;
}
}  // namespace

void Run(const Options& options, const std::function<void()>& body) {
  __libc_single_threaded = 0;
  State state;
  g = &state;
  g->options = options;
  g->preemptions_left = options.preemptions;
  g->timeouts_left = options.timeouts;
  ++epoch;
  cached_number = ~uintptr_t(0);
  main_body = &body;
  auto t = std::make_unique<Thread>();
  t->start = &MainStart;
  t->clock.c[0] = 1;
  PrepareStack(t.get());
  g->threads.push_back(std::move(t));
  char eh[16];
  void* ehg = abi::__cxa_get_globals();
  memcpy(eh, ehg, 16);
  memset(ehg, 0, 16);
  ArenaBegin();
  active = true;
  mc_switch(&g->scheduler_sp, g->threads[0]->sp);
  active = false;
  memcpy(ehg, eh, 16);
  in_runtime = 0;
  ArenaEnd();
  for (const auto& th : state.threads) free_stacks.push_back(th->stack);
  const bool pruned = state.pruned;
  g = nullptr;
  if (pruned) throw mc::Pruned();
}

// ------------------------------------------------- instrumentation ABI ----

namespace {
void AtomicPoint() {
  if (active && !in_runtime && g->options.atomics && g->threads.size() > 1 &&
      !g->no_preempt) {
    Reschedule(true);
  }
}
// GCC passes std::memory_order values.
void AtomicSync(volatile void* a, int order, bool read, bool write) {
  if (!active || in_runtime) return;
  ++in_runtime;
  VectorClock& clock = g->atomics[const_cast<void*>(a)];
  const bool acquire = order == 1 || order == 2 || order == 4 || order == 5;
  const bool release = order == 3 || order == 4 || order == 5;
  if (read && acquire) Cur().clock.Join(clock);
  if (write && release) {
    clock.Join(Cur().clock);
    ++Cur().clock.c[g->current];
  }
  --in_runtime;
}
}  // namespace

}  // namespace sched

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define ACCESS(n)                                                              \
  void __tsan_read##n(void* a) { sched::Access(a, n, false, PC); }             \
  void __tsan_write##n(void* a) { sched::Access(a, n, true, PC); }             \
  void __tsan_unaligned_read##n(void* a) { sched::Access(a, n, false, PC); }   \
  void __tsan_unaligned_write##n(void* a) { sched::Access(a, n, true, PC); }   \
  void __tsan_volatile_read##n(void* a) { sched::Access(a, n, false, PC); }    \
  void __tsan_volatile_write##n(void* a) { sched::Access(a, n, true, PC); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void* a, size_t n) { sched::Access(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { sched::Access(a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) {
  if (*a != v) sched::Access(a, 8, true, PC);  // unchanged in ~Final()
}
void __tsan_vptr_read(void** a) { sched::Access(a, 8, false, PC); }
#define ATOMIC(bits, T)                                                        \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                  \
    sched::AtomicPoint();                                                      \
    sched::AtomicSync((volatile void*)a, mo, true, false);                     \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                               \
  }                                                                            \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {               \
    sched::AtomicPoint();                                                      \
    sched::AtomicSync(a, mo, false, true);                                     \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                  \
  }                                                                            \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {               \
    sched::AtomicPoint();                                                      \
    sched::AtomicSync(a, mo, true, true);                                      \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) {              \
    sched::AtomicPoint();                                                      \
    sched::AtomicSync(a, mo, true, true);                                      \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) {              \
    sched::AtomicPoint();                                                      \
    sched::AtomicSync(a, mo, true, true);                                      \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) {              \
    sched::AtomicPoint();                                                      \
    sched::AtomicSync(a, mo, true, true);                                      \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) {               \
    sched::AtomicPoint();                                                      \
    sched::AtomicSync(a, mo, true, true);                                      \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                          \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) {              \
    sched::AtomicPoint();                                                      \
    sched::AtomicSync(a, mo, true, true);                                      \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) {             \
    sched::AtomicPoint();                                                      \
    sched::AtomicSync(a, mo, true, true);                                      \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  int __tsan_atomic##bits##_compare_exchange_strong(                           \
      volatile T* a, T* c, T v, int mo, int fmo) {                             \
    sched::AtomicPoint();                                                      \
    sched::AtomicSync(a, mo, true, true);                                      \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,       \
                                       __ATOMIC_SEQ_CST);                      \
  }                                                                            \
  int __tsan_atomic##bits##_compare_exchange_weak(                             \
      volatile T* a, T* c, T v, int mo, int fmo) {                             \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);    \
  }                                                                            \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v,        \
                                               int mo, int fmo) {              \
    __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo);          \
    return c;                                                                  \
  }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
