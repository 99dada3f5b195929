// Controlled scheduler: runs all threads of a scenario as fibers of one OS
// thread. Every lock acquisition, condition wait, thread start/join (and, on
// request, every atomic access) of the real code is a scheduling point at
// which mc::choose() decides who runs next. The number of preemptions per
// execution is bounded; context switches at blocking operations are free.
// A vector-clock race detector runs along each explored schedule for the
// instrumented translation units.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_

#include <functional>
#include <string>

namespace sched {

struct Options {
  int preemptions = 1;        // per execution
  int timeouts = 0;           // timeouts that fire although others could run
  bool atomics = false;       // atomic accesses are scheduling points
  bool detect_races = true;
  int max_steps = 200000;     // fuse: scheduling steps per execution
  size_t stack_size = 1 << 20;
  // Called when no thread can ever run again; returns true if that is what
  // the specification expects (the execution then ends normally).
  std::function<bool()> on_deadlock;
};

// Runs 'body' (as thread 0) under the scheduler until it returned and all
// threads ended.
void Run(const Options& options, const std::function<void()>& body);
bool Active();
int CurrentThread();
// Explicit scheduling point for harness code.
void Point();
// Lets everybody else run until no other thread is enabled (quiescence).
void WaitUntilQuiescent();
// Number of scheduling steps in the current execution.
int Steps();
// Suspends preemption (for harness observations that must be atomic).
struct NoPreempt {
  NoPreempt();
  ~NoPreempt();
};

// --- used by interpose.cc ---
void MutexLock(void* m);
bool MutexTryLock(void* m);
void MutexUnlock(void* m);
void MutexReaderLock(void* m);
void MutexReaderUnlock(void* m);
bool MutexHeld(void* m);        // by the current thread, exclusively
bool MutexHeldAny(void* m);
void MutexDestroy(void* m);
// Waits until eval(arg) is true; the mutex is released meanwhile if
// 'have_lock', and held on return. Returns the value of the condition.
bool MutexAwait(void* m, bool (*eval)(const void*), const void* arg, bool timed,
                bool have_lock, bool reader);
bool CondWait(void* cv, void* m, bool timed);  // false if timed out
void CondSignal(void* cv, bool all);
int CreateThread(void* (*start)(void*), void* arg);
void* JoinThread(int id);
void DetachThread(int id);
void Sleep();
void BeginNoPreempt();
void EndNoPreempt();
void OnAlloc(void* p, size_t n);
void OnFree(void* p, size_t n);
bool UseArena();
void ArenaBegin();
void ArenaEnd();

}  // namespace sched

#endif  // VERIF_SCHED_H_
