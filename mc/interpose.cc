// Routes the synchronisation primitives used by the real code to the
// controlled scheduler: absl::Mutex/CondVar (same class layout, replaced
// member functions), pthread threads, mutexes and condition variables
// (std::thread, std::mutex, std::condition_variable), sleeps, and the heap.
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>

#include <sys/mman.h>

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unordered_map>

#include "absl/synchronization/mutex.h"
#include "mc.h"
#include "mc_sched.h"

namespace absl {
ABSL_NAMESPACE_BEGIN

namespace {
bool EvalCondition(const void* c) {
  return static_cast<const Condition*>(c)->Eval();
}
}  // namespace

Mutex::~Mutex() {
  if (sched::Active()) sched::MutexDestroy(this);
}
void Mutex::Lock() {
  if (sched::Active()) sched::MutexLock(this);
}
void Mutex::Unlock() {
  if (sched::Active()) sched::MutexUnlock(this);
}
bool Mutex::TryLock() { return sched::Active() ? sched::MutexTryLock(this) : true; }
void Mutex::ReaderLock() {
  if (sched::Active()) sched::MutexReaderLock(this);
}
void Mutex::ReaderUnlock() {
  if (sched::Active()) sched::MutexReaderUnlock(this);
}
bool Mutex::ReaderTryLock() {
  if (sched::Active()) sched::MutexReaderLock(this);
  return true;
}
void Mutex::AssertHeld() const {
  if (sched::Active() && !sched::MutexHeld(const_cast<Mutex*>(this))) {
    mc::fail("AssertHeld() failed");
  }
}
void Mutex::AssertReaderHeld() const {
  if (sched::Active() && !sched::MutexHeldAny(const_cast<Mutex*>(this))) {
    mc::fail("AssertReaderHeld() failed");
  }
}
void Mutex::AssertNotHeld() const {
  if (sched::Active() && sched::MutexHeldAny(const_cast<Mutex*>(this))) {
    mc::fail("AssertNotHeld() failed");
  }
}
void Mutex::Await(const Condition& cond) {
  if (sched::Active()) {
    sched::MutexAwait(this, &EvalCondition, &cond, false, true, false);
  } else if (!cond.Eval()) {
    mc::fail("Await() would block forever outside of the scheduler");
  }
}
bool Mutex::AwaitWithTimeout(const Condition& cond, absl::Duration timeout) {
  if (!sched::Active()) return cond.Eval();
  const bool infinite = timeout == absl::InfiniteDuration();
  return sched::MutexAwait(this, &EvalCondition, &cond, !infinite, true, false);
}
bool Mutex::AwaitWithDeadline(const Condition& cond, absl::Time deadline) {
  if (!sched::Active()) return cond.Eval();
  return sched::MutexAwait(this, &EvalCondition, &cond,
                           deadline != absl::InfiniteFuture(), true, false);
}
void Mutex::LockWhen(const Condition& cond) {
  if (sched::Active()) {
    sched::MutexAwait(this, &EvalCondition, &cond, false, false, false);
  }
}
void Mutex::ReaderLockWhen(const Condition& cond) {
  if (sched::Active()) {
    sched::MutexAwait(this, &EvalCondition, &cond, false, false, true);
  }
}
bool Mutex::LockWhenWithTimeout(const Condition& cond, absl::Duration) {
  if (!sched::Active()) return cond.Eval();
  return sched::MutexAwait(this, &EvalCondition, &cond, true, false, false);
}
bool Mutex::LockWhenWithDeadline(const Condition& cond, absl::Time) {
  if (!sched::Active()) return cond.Eval();
  return sched::MutexAwait(this, &EvalCondition, &cond, true, false, false);
}
bool Mutex::ReaderLockWhenWithTimeout(const Condition& cond, absl::Duration) {
  if (!sched::Active()) return cond.Eval();
  return sched::MutexAwait(this, &EvalCondition, &cond, true, false, true);
}
bool Mutex::ReaderLockWhenWithDeadline(const Condition& cond, absl::Time) {
  if (!sched::Active()) return cond.Eval();
  return sched::MutexAwait(this, &EvalCondition, &cond, true, false, true);
}
void Mutex::EnableInvariantDebugging(void (*)(void*), void*) {}
void Mutex::EnableDebugLog(const char*) {}
void Mutex::ForgetDeadlockInfo() {}
void ReleasableMutexLock::Release() {
  this->mu_->Unlock();
  this->mu_ = nullptr;
}

CondVar::~CondVar() {}
void CondVar::Wait(Mutex* mu) {
  if (sched::Active()) sched::CondWait(this, mu, false);
}
bool CondVar::WaitWithTimeout(Mutex* mu, absl::Duration) {
  return sched::Active() ? !sched::CondWait(this, mu, true) : true;
}
bool CondVar::WaitWithDeadline(Mutex* mu, absl::Time) {
  return sched::Active() ? !sched::CondWait(this, mu, true) : true;
}
void CondVar::Signal() {
  if (sched::Active()) sched::CondSignal(this, false);
}
void CondVar::SignalAll() {
  if (sched::Active()) sched::CondSignal(this, true);
}
void CondVar::EnableDebugLog(const char*) {}

ABSL_NAMESPACE_END
}  // namespace absl

namespace {
template <typename F>
F Real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
// Locks taken inside of libraries (logging, protobuf, ...) are not scheduling
// points; only those of the repository's code are.
extern "C" char __executable_start, etext;
bool FromProgram(void* pc) {
  return pc >= static_cast<void*>(&__executable_start) &&
         pc < static_cast<void*>(&etext);
}
struct LibraryScope {
  explicit LibraryScope(void* pc) : library(!FromProgram(pc)) {
    if (library) sched::BeginNoPreempt();
  }
  ~LibraryScope() {
    if (library) sched::EndNoPreempt();
  }
  const bool library;
};
#define LIBRARY_SCOPE LibraryScope library_scope(__builtin_return_address(0))
constexpr unsigned long kThreadTag = 0x5c4ed00000000ul;
bool IsFiber(pthread_t t) { return (t & ~0xfful) == kThreadTag; }
}  // namespace

extern "C" {

int pthread_create(pthread_t* t, const pthread_attr_t* attr,
                   void* (*start)(void*), void* arg) {
  if (!sched::Active()) {
    static auto real = Real<int (*)(pthread_t*, const pthread_attr_t*,
                                    void* (*)(void*), void*)>("pthread_create");
    return real(t, attr, start, arg);
  }
  *t = kThreadTag | sched::CreateThread(start, arg);
  return 0;
}
int pthread_join(pthread_t t, void** result) {
  if (!IsFiber(t)) {
    static auto real = Real<int (*)(pthread_t, void**)>("pthread_join");
    return real(t, result);
  }
  void* r = sched::JoinThread(t & 0xff);
  if (result) *result = r;
  return 0;
}
int pthread_detach(pthread_t t) {
  if (!IsFiber(t)) {
    static auto real = Real<int (*)(pthread_t)>("pthread_detach");
    return real(t);
  }
  sched::DetachThread(t & 0xff);
  return 0;
}
pthread_t pthread_self() {
  if (!sched::Active()) {
    static auto real = Real<pthread_t (*)()>("pthread_self");
    return real();
  }
  return kThreadTag | sched::CurrentThread();
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (sched::Active()) {
    LIBRARY_SCOPE;
    sched::MutexLock(m);
    return 0;
  }
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (sched::Active()) return sched::MutexTryLock(m) ? 0 : EBUSY;
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (sched::Active()) {
    sched::MutexUnlock(m);
    return 0;
  }
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  return real(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (sched::Active()) {
    sched::CondWait(c, m, false);
    return 0;
  }
  static auto real =
      Real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  return real(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                           const struct timespec*) {
  return sched::Active() && sched::CondWait(c, m, true) ? 0 : ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t,
                           const struct timespec*) {
  return sched::Active() && sched::CondWait(c, m, true) ? 0 : ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (sched::Active()) {
    LIBRARY_SCOPE;
    sched::CondSignal(c, false);
    return 0;
  }
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  return real(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (sched::Active()) {
    LIBRARY_SCOPE;
    sched::CondSignal(c, true);
    return 0;
  }
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  return real(c);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  LIBRARY_SCOPE;
  if (sched::Active()) sched::MutexReaderLock(m);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  LIBRARY_SCOPE;
  if (sched::Active()) sched::MutexLock(m);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!sched::Active()) return 0;
  if (sched::MutexHeld(m)) {
    sched::MutexUnlock(m);
  } else {
    sched::MutexReaderUnlock(m);
  }
  return 0;
}

int sched_yield() {
  sched::Sleep();
  return 0;
}
int nanosleep(const struct timespec* r, struct timespec* rem) {
  if (sched::Active()) {
    sched::Sleep();
    return 0;
  }
  static auto real =
      Real<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
  return real(r, rem);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* r,
                    struct timespec* rem) {
  if (sched::Active()) {
    sched::Sleep();
    return 0;
  }
  static auto real = Real<int (*)(clockid_t, int, const struct timespec*,
                                  struct timespec*)>("clock_nanosleep");
  return real(c, f, r, rem);
}
int nice(int) { return 0; }

// Function-local statics: initialise atomically with respect to the fibers.
int __cxa_guard_acquire(long long* guard) {
  if (*reinterpret_cast<char*>(guard)) return 0;
  sched::BeginNoPreempt();
  return 1;
}
void __cxa_guard_release(long long* guard) {
  *reinterpret_cast<char*>(guard) = 1;
  sched::EndNoPreempt();
}
void __cxa_guard_abort(long long*) { sched::EndNoPreempt(); }
}

// Heap. During an execution memory comes from a bump allocator: addresses are
// in allocation order (so that containers ordered by address behave the same
// in every execution with the same choices) and freed blocks are not reused
// before the execution ended.
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}
namespace {
constexpr size_t kArenaSize = size_t(3) << 30;
char* arena = nullptr;
size_t arena_base = 0, arena_top = 0;
long arena_live = 0;
bool InArena(void* p) {
  return arena && p >= arena && p < arena + kArenaSize;
}
void* ArenaAlloc(size_t align, size_t n) {
  if (align < 16) align = 16;
  const size_t begin = (arena_top + 16 + align - 1) & ~(align - 1);
  if (begin + n + 16 > kArenaSize) return nullptr;
  arena_top = begin + n;
  reinterpret_cast<size_t*>(arena + begin)[-1] = n;
  ++arena_live;
  sched::OnAlloc(arena + begin, n);
  return arena + begin;
}
void* Alloc(size_t align, size_t n) {
  if (sched::UseArena() && arena) {
    if (void* p = ArenaAlloc(align, n)) return p;
  }
  return align <= 16 ? __libc_malloc(n) : __libc_memalign(align, n);
}
}  // namespace
namespace sched {
void ArenaBegin() {
  if (!arena) {
    void* p = mmap(nullptr, kArenaSize, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return;
    arena = static_cast<char*>(p);
  }
  arena_base = arena_top;
  arena_live = 0;
}
void ArenaEnd() {
  if (const char* file = getenv("MC_ARENA")) {  // for debugging
    if (FILE* out = fopen(file, "a")) {
      fprintf(out, "arena live %ld base %zu top %zu\n", arena_live, arena_base, arena_top);
      fclose(out);
    }
  }
  if (arena_live == 0) arena_top = arena_base;
}
}  // namespace sched
extern "C" {
void* malloc(size_t n) { return Alloc(16, n); }
void* calloc(size_t k, size_t n) {
  if (!sched::UseArena()) return __libc_calloc(k, n);
  void* p = Alloc(16, k * n);
  if (p) memset(p, 0, k * n);
  return p;
}
void free(void* p) {
  if (!p) return;
  if (!InArena(p)) return __libc_free(p);
  sched::OnFree(p, static_cast<size_t*>(p)[-1]);
  // Only what was allocated in this execution counts.
  if (static_cast<char*>(p) >= arena + arena_base) --arena_live;
}
void* realloc(void* q, size_t n) {
  if (!q) return malloc(n);
  if (!InArena(q)) return __libc_realloc(q, n);
  void* p = Alloc(16, n);
  if (p) {
    memcpy(p, q, std::min(n, static_cast<size_t*>(q)[-1]));
    free(q);
  }
  return p;
}
void* memalign(size_t a, size_t n) { return Alloc(a, n); }
void* aligned_alloc(size_t a, size_t n) { return Alloc(a, n); }
int posix_memalign(void** p, size_t a, size_t n) {
  *p = Alloc(a, n);
  return *p ? 0 : ENOMEM;
}
size_t malloc_usable_size(void* p) {
  if (InArena(p)) return static_cast<size_t*>(p)[-1];
  static auto real = Real<size_t (*)(void*)>("malloc_usable_size");
  return real(p);
}
}
