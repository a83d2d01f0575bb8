// The mutex of the monitored builds.  Without PRINCIPIA_VERIF_MUTEX, Abseil's
// own, with the constructors-by-reference of its later versions.  With it, a
// mutex on pthread primitives, which ThreadSanitizer understands (the installed
// Abseil is not instrumented) and which can perturb the schedule around every
// acquisition and release.
#pragma once
#if !defined(PRINCIPIA_VERIF_MUTEX)
#define MutexLock MutexLockByPointer
#define ReaderMutexLock ReaderMutexLockByPointer
#include_next "absl/synchronization/mutex.h"
#undef MutexLock
#undef ReaderMutexLock
namespace absl {
class ABSL_SCOPED_LOCKABLE MutexLock : public MutexLockByPointer {
 public:
  explicit MutexLock(Mutex* mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu)
      : MutexLockByPointer(mu) {}
  explicit MutexLock(Mutex& mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu)
      : MutexLockByPointer(&mu) {}
  explicit MutexLock(Mutex* mu, Condition const& c)
      ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : MutexLockByPointer(mu, c) {}
  ~MutexLock() ABSL_UNLOCK_FUNCTION() {}
};
class ABSL_SCOPED_LOCKABLE ReaderMutexLock : public ReaderMutexLockByPointer {
 public:
  explicit ReaderMutexLock(Mutex* mu) ABSL_SHARED_LOCK_FUNCTION(mu)
      : ReaderMutexLockByPointer(mu) {}
  explicit ReaderMutexLock(Mutex& mu) ABSL_SHARED_LOCK_FUNCTION(mu)
      : ReaderMutexLockByPointer(&mu) {}
  explicit ReaderMutexLock(Mutex* mu, Condition const& c)
      ABSL_SHARED_LOCK_FUNCTION(mu) : ReaderMutexLockByPointer(mu, c) {}
  ~ReaderMutexLock() ABSL_UNLOCK_FUNCTION() {}
};
}  // namespace absl
#else
// The real ones first, for the headers that they and others include.
#include_next "absl/synchronization/mutex.h"
#include_next "absl/synchronization/notification.h"

#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <functional>
#include <mutex>
#include <shared_mutex>
#include <vector>
#include "absl/base/attributes.h"
#include "absl/base/const_init.h"
#include "absl/base/thread_annotations.h"
#include "absl/status/status.h"
#include "absl/strings/cord.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"


// From here on, these names are ours.
#define Condition VerifCondition
#define Mutex VerifMutex
#define MutexLock VerifMutexLock
#define Notification VerifNotification
#define ReaderMutexLock VerifReaderMutexLock
#define WriterMutexLock VerifMutexLock

namespace absl {
namespace shim {
// Called around lock operations; the default does nothing.  See
// shim/src/perturb.cpp.
void Perturb();
}  // namespace shim

class Condition {
 public:
  Condition(bool (*f)(void*), void* arg) : eval_([=] { return f(arg); }) {}
  template<typename T>
  Condition(bool (*f)(T*), T* arg) : eval_([=] { return f(arg); }) {}
  template<typename T>
  Condition(T* o, bool (T::*m)()) : eval_([=] { return (o->*m)(); }) {}
  template<typename T>
  Condition(T const* o, bool (T::*m)() const)
      : eval_([=] { return (o->*m)(); }) {}
  explicit Condition(bool const* b) : eval_([=] { return *b; }) {}
  template<typename T>
  explicit Condition(T const* f) : eval_([=] { return (*f)(); }) {}
  bool Eval() const { return eval_(); }

 private:
  std::function<bool()> eval_;
};

class ABSL_LOCKABLE Mutex {
 public:
  Mutex() = default;
  explicit Mutex(absl::ConstInitType) {}
  Mutex(Mutex const&) = delete;
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() {
    shim::Perturb();
    mutex_.lock();
  }
  void Unlock() ABSL_UNLOCK_FUNCTION() {
    // Notify with the lock held, so that a waiter that destroys the mutex as
    // soon as it gets it cannot race with the notification.
    changed_.notify_all();
    mutex_.unlock();
    shim::Perturb();
  }
  bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) {
    return mutex_.try_lock();
  }
  void AssertHeld() const ABSL_ASSERT_EXCLUSIVE_LOCK() {}
  void AssertReaderHeld() const ABSL_ASSERT_SHARED_LOCK() {}
  void AssertNotHeld() const {}
  void ReaderLock() ABSL_SHARED_LOCK_FUNCTION() {
    shim::Perturb();
    mutex_.lock_shared();
    HeldShared().push_back(this);
  }
  void ReaderUnlock() ABSL_UNLOCK_FUNCTION() {
    auto& held = HeldShared();
    held.erase(std::find(held.begin(), held.end(), this));
    mutex_.unlock_shared();
    shim::Perturb();
  }
  void WriterLock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
  void WriterUnlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
  void Await(Condition const& c) {
    // The wait releases the lock, and others may be waiting for what this
    // thread changed.
    changed_.notify_all();
    if (IsHeldShared()) {
      Shared shared{mutex_};
      while (!c.Eval()) changed_.wait(shared);
    } else {
      while (!c.Eval()) changed_.wait(mutex_);
    }
  }
  void LockWhen(Condition const& c) ABSL_EXCLUSIVE_LOCK_FUNCTION() {
    Lock();
    Await(c);
  }
  void ReaderLockWhen(Condition const& c) ABSL_SHARED_LOCK_FUNCTION() {
    ReaderLock();
    Await(c);
  }
  bool AwaitWithTimeout(Condition const& c, absl::Duration d) {
    changed_.notify_all();
    auto const deadline =
        std::chrono::steady_clock::now() +
        (d > absl::Hours(24) ? std::chrono::nanoseconds(std::chrono::hours(24))
                             : absl::ToChronoNanoseconds(d));
    bool const is_shared = IsHeldShared();
    Shared shared{mutex_};
    while (!c.Eval()) {
      std::cv_status const status =
          is_shared ? changed_.wait_until(shared, deadline)
                    : changed_.wait_until(mutex_, deadline);
      if (status == std::cv_status::timeout) {
        return c.Eval();
      }
    }
    return true;
  }

 private:
  // For waiting with a reader lock.
  struct Shared {
    std::shared_mutex& mutex;
    void lock() { mutex.lock_shared(); }
    void unlock() { mutex.unlock_shared(); }
  };
  // The mutexes on which this thread has a reader lock.
  static std::vector<Mutex const*>& HeldShared() {
    static thread_local std::vector<Mutex const*> held;
    return held;
  }
  bool IsHeldShared() const {
    auto const& held = HeldShared();
    return std::find(held.begin(), held.end(), this) != held.end();
  }

  std::shared_mutex mutex_;
  std::condition_variable_any changed_;
};

class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(Mutex* mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(mu) {
    mu_->Lock();
  }
  explicit MutexLock(Mutex& mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(&mu) {
    mu_->Lock();
  }
  explicit MutexLock(Mutex* mu, Condition const& c)
      ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(mu) { mu_->LockWhen(c); }
  MutexLock(MutexLock const&) = delete;
  ~MutexLock() ABSL_UNLOCK_FUNCTION() { mu_->Unlock(); }

 private:
  Mutex* const mu_;
};
class ABSL_SCOPED_LOCKABLE ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex* mu) ABSL_SHARED_LOCK_FUNCTION(mu) : mu_(mu) {
    mu_->ReaderLock();
  }
  explicit ReaderMutexLock(Mutex& mu) ABSL_SHARED_LOCK_FUNCTION(mu)
      : mu_(&mu) {
    mu_->ReaderLock();
  }
  ReaderMutexLock(ReaderMutexLock const&) = delete;
  ~ReaderMutexLock() ABSL_UNLOCK_FUNCTION() { mu_->ReaderUnlock(); }

 private:
  Mutex* const mu_;
};

class Notification {
 public:
  Notification() = default;
  bool HasBeenNotified() const {
    MutexLock l(&mutex_);
    return notified_;
  }
  void WaitForNotification() const {
    MutexLock l(&mutex_);
    mutex_.Await(Condition(&notified_));
  }
  bool WaitForNotificationWithTimeout(absl::Duration d) const {
    MutexLock l(&mutex_);
    return mutex_.AwaitWithTimeout(Condition(&notified_), d);
  }
  bool WaitForNotificationWithDeadline(absl::Time t) const {
    return WaitForNotificationWithTimeout(t - absl::Now());
  }
  void Notify() {
    MutexLock l(&mutex_);
    if (notified_) {
      // As in the debug builds of Abseil.
      std::fputs("F0101 00:00:00.000000 1 notification.cc:1] Check failed: "
                 "Notify() called more than once\n", stderr);
      std::abort();
    }
    notified_ = true;
  }

 private:
  mutable Mutex mutex_;
  bool notified_ = false;
};
}  // namespace absl
#endif
