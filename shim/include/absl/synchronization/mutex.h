// absl::Mutex over std::mutex, so that ThreadSanitizer sees every lock.
#ifndef VERIF_SHIM_ABSL_MUTEX_H_
#define VERIF_SHIM_ABSL_MUTEX_H_
#include <mutex>
#include <shared_mutex>
#include "absl/base/attributes.h"
#include "absl/base/thread_annotations.h"
namespace absl {
class ABSL_LOCKABLE Mutex {
 public:
  constexpr Mutex() = default;
  void Lock() { m_.lock(); }
  void Unlock() { m_.unlock(); }
  bool TryLock() { return m_.try_lock(); }
  void ReaderLock() { m_.lock(); }
  void ReaderUnlock() { m_.unlock(); }
  void AssertHeld() const {}
 private:
  std::mutex m_;
};
class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  ~MutexLock() { m_->Unlock(); }
  MutexLock(const MutexLock&) = delete;
 private:
  Mutex* m_;
};
class ReaderMutexLock { public: explicit ReaderMutexLock(Mutex* m) : m_(m) { m_->Lock(); } ~ReaderMutexLock() { m_->Unlock(); } private: Mutex* m_; };
class WriterMutexLock { public: explicit WriterMutexLock(Mutex* m) : m_(m) { m_->Lock(); } ~WriterMutexLock() { m_->Unlock(); } private: Mutex* m_; };
}
#endif
