// Shim of absl::Mutex on top of the scheduler intrinsics.
#pragma once
#include <chrono>
#include "symx.h"
#define GUARDED_BY(x)
#define ABSL_GUARDED_BY(x)
#define EXCLUSIVE_LOCKS_REQUIRED(...)
#define ABSL_EXCLUSIVE_LOCKS_REQUIRED(...)
#define LOCKS_EXCLUDED(...)
#define ABSL_LOCKS_EXCLUDED(...)
#define PT_GUARDED_BY(x)
#define ABSL_PT_GUARDED_BY(x)
#define SHARED_LOCKS_REQUIRED(...)
#define NO_THREAD_SAFETY_ANALYSIS
#define ABSL_NO_THREAD_SAFETY_ANALYSIS
#define SCOPED_LOCKABLE
#define EXCLUSIVE_LOCK_FUNCTION(...)
#define UNLOCK_FUNCTION(...)
namespace absl {
class Duration { public: long long ns = 0; };
template <typename R, typename P> Duration FromChrono(const std::chrono::duration<R, P>& d) { Duration r; r.ns = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); return r; }
inline Duration Milliseconds(long long n) { Duration d; d.ns = n * 1000000; return d; }
inline Duration Seconds(long long n) { Duration d; d.ns = n * 1000000000; return d; }
class Condition {
  bool (*ev_)(const void*, const void*);
  const void* a_; const void* b_;
  struct MP { bool (*f)(void*); };
 public:
  explicit Condition(const bool* p) : ev_([](const void* x, const void*) { return *static_cast<const bool*>(x); }), a_(p), b_(nullptr) {}
  template <typename F, typename = decltype((*static_cast<const F*>(nullptr))())> explicit Condition(const F* f) : ev_([](const void* x, const void*) -> bool { return (*static_cast<const F*>(x))(); }), a_(f), b_(nullptr) {}
  template <typename T> Condition(bool (*f)(T*), T* arg) : ev_([](const void* x, const void* y) { return reinterpret_cast<bool (*)(T*)>(const_cast<void*>(y))(static_cast<T*>(const_cast<void*>(x))); }), a_(arg), b_(reinterpret_cast<const void*>(f)) {}
  bool Eval() const { return ev_(a_, b_); }
};
#ifdef SYMX_TSAN
}
#include <condition_variable>
#include <mutex>
#include <time.h>
#include <unistd.h>
namespace absl {
// random delays around the critical sections, so that rare orders occur, too
inline void symx_delay() {
  static thread_local unsigned long r = 0;
  if (r == 0) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); r = t.tv_nsec * 2654435761ul + reinterpret_cast<unsigned long>(&r); }
  r = r * 6364136223846793005ul + 1442695040888963407ul;
  if ((r >> 60) < 6) usleep((r >> 33) % 400);
}
class Mutex {
  std::mutex m_; std::condition_variable cv_;
 public:
  Mutex() {}
  Mutex(const Mutex&) = delete;
  void Lock() { symx_delay(); m_.lock(); }
  void Unlock() { cv_.notify_all(); m_.unlock(); symx_delay(); }
  void ReaderLock() { Lock(); } void ReaderUnlock() { Unlock(); } void WriterLock() { Lock(); } void WriterUnlock() { Unlock(); }
  void AssertHeld() const {}
  void Await(const Condition& c) { cv_.notify_all(); std::unique_lock<std::mutex> l(m_, std::adopt_lock); cv_.wait(l, [&] { return c.Eval(); }); l.release(); }
  void LockWhen(const Condition& c) { Lock(); Await(c); }
  bool AwaitWithTimeout(const Condition& c, Duration d) { cv_.notify_all(); std::unique_lock<std::mutex> l(m_, std::adopt_lock); bool r = cv_.wait_for(l, std::chrono::nanoseconds(d.ns), [&] { return c.Eval(); }); l.release(); return r; }
  bool LockWhenWithTimeout(const Condition& c, Duration d) { Lock(); return AwaitWithTimeout(c, d); }
};
#else
class Mutex {
 public:
  Mutex() {}
  ~Mutex() {}
  Mutex(const Mutex&) = delete;
  void Lock() { symx_mutex_lock(this); }
  void Unlock() { symx_mutex_unlock(this); }
  void ReaderLock() { Lock(); } void ReaderUnlock() { Unlock(); } void WriterLock() { Lock(); } void WriterUnlock() { Unlock(); }
  void AssertHeld() const { if (!symx_mutex_held((void*)this)) symx_check_failed("mutex not held"); }
  void Await(const Condition& c) { int first = 1; while (!c.Eval()) { symx_await(this, first); first = 0; } }
  void LockWhen(const Condition& c) { Lock(); Await(c); }
  bool AwaitWithTimeout(const Condition& c, Duration) { int first = 1; while (!c.Eval()) { if (symx_await_timed(this, first)) return c.Eval(); first = 0; } return true; }
  bool LockWhenWithTimeout(const Condition& c, Duration d) { Lock(); return AwaitWithTimeout(c, d); }
 private:
  long pad_ = 0;
};
#endif
class MutexLock {
  Mutex* m_;
 public:
  explicit MutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  MutexLock(Mutex* m, const Condition& c) : m_(m) { m_->LockWhen(c); }
  ~MutexLock() { m_->Unlock(); }
  MutexLock(const MutexLock&) = delete;
};
using ReaderMutexLock = MutexLock; using WriterMutexLock = MutexLock;
class CondVar { public: void Wait(Mutex* m) { symx_await(m, 1); } void Signal() {} void SignalAll() {} };
}  // namespace absl
