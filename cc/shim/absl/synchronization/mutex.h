#ifndef SHIM_MUTEX_H_
#define SHIM_MUTEX_H_
#include "absl/base/config.h"
#include "absl/base/const_init.h"
#include "absl/base/thread_annotations.h"
#include "absl/time/time.h"
#include "vsim.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
class Condition;
class ABSL_LOCKABLE Mutex {
 public:
  Mutex() = default;
  explicit Mutex(absl::ConstInitType) {}
  explicit Mutex(int) {}
  ~Mutex() { vsim::MutexDestroy(&m_, this); }
  Mutex(const Mutex&) = delete;
  void Lock() { vsim::MutexLock(&m_, this); }
  void Unlock() { vsim::MutexUnlock(&m_, this); }
  bool TryLock() { return vsim::MutexTryLock(&m_, this); }
  void lock() { Lock(); }
  void unlock() { Unlock(); }
  bool try_lock() { return TryLock(); }
  void ReaderLock() { vsim::MutexReaderLock(&m_, this); }
  void ReaderUnlock() { vsim::MutexReaderUnlock(&m_, this); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void lock_shared() { ReaderLock(); }
  void unlock_shared() { ReaderUnlock(); }
  void AssertHeld() const {
    if (!vsim::MutexHeld(&m_)) vsim::Fail("mutex-misuse", "AssertHeld failed");
  }
  void AssertReaderHeld() const {}
  inline void Await(const Condition& c);
  inline void LockWhen(const Condition& c);
  void WriterLockWhen(const Condition& c) { LockWhen(c); }
 private:
  friend class CondVar;
  mutable vsim::MutexImpl m_;
};
class Condition {
 public:
  template <typename T>
  Condition(bool (*f)(T*), T* arg)
      : f_([](void* g, void* a) { return ((bool (*)(T*))g)((T*)a); }), g_((void*)f), a_((void*)arg) {}
  explicit Condition(const bool* b)
      : f_([](void*, void* a) { return *(const bool*)a; }), g_(nullptr), a_((void*)b) {}
  template <typename F>
  explicit Condition(const F* f)
      : f_([](void*, void* a) { return (bool)(*(const F*)a)(); }), g_(nullptr), a_((void*)f) {}
  bool Eval() const { return f_(g_, a_); }
 private:
  bool (*f_)(void*, void*);
  void* g_;
  void* a_;
};
inline void Mutex::Await(const Condition& c) {
  while (!c.Eval()) {
    vsim::MutexUnlockAndBlock(&m_, this, this, "a mutex condition");
    Lock();
  }
}
inline void Mutex::LockWhen(const Condition& c) {
  Lock();
  Await(c);
}
class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  MutexLock(Mutex* m, const Condition& c) : m_(m) { m_->LockWhen(c); }
  explicit MutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  explicit MutexLock(Mutex& m) : MutexLock(&m) {}
  ~MutexLock() { m_->Unlock(); }
  MutexLock(const MutexLock&) = delete;
 private:
  Mutex* const m_;
};
using WriterMutexLock = MutexLock;
class ABSL_SCOPED_LOCKABLE ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex* m) : m_(m) { m_->ReaderLock(); }
  explicit ReaderMutexLock(Mutex& m) : ReaderMutexLock(&m) {}
  ~ReaderMutexLock() { m_->ReaderUnlock(); }
  ReaderMutexLock(const ReaderMutexLock&) = delete;
 private:
  Mutex* const m_;
};
class ABSL_SCOPED_LOCKABLE ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  explicit ReleasableMutexLock(Mutex& m) : ReleasableMutexLock(&m) {}
  ~ReleasableMutexLock() { if (m_) m_->Unlock(); }
  void Release() { m_->Unlock(); m_ = nullptr; }
 private:
  Mutex* m_;
};
class MutexLockMaybe {
 public:
  explicit MutexLockMaybe(Mutex* m) : m_(m) { if (m_) m_->Lock(); }
  ~MutexLockMaybe() { if (m_) m_->Unlock(); }
 private:
  Mutex* const m_;
};
class CondVar {
 public:
  void Wait(Mutex* m) {
    vsim::MutexUnlockAndBlock(&m->m_, m, this, "a condition variable");
    m->Lock();
  }
  void Signal() { vsim::WakeOne(this); }
  void SignalAll() { vsim::Wake(this); }
};
ABSL_NAMESPACE_END
}  // namespace absl
#endif
