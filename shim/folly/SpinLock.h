#pragma once
#include <atomic>
#include <thread>
namespace folly {
class SpinLock {
    std::atomic<bool> b_{false};
public:
    void lock() { while (b_.exchange(true, std::memory_order_acquire)) std::this_thread::yield(); }
    void unlock() { b_.store(false, std::memory_order_release); }
    bool try_lock() { return !b_.exchange(true, std::memory_order_acquire); }
};
using MicroSpinLock = SpinLock;
struct SpinLockGuard { explicit SpinLockGuard(SpinLock& l) : l_(l) { l_.lock(); } ~SpinLockGuard() { l_.unlock(); } SpinLock& l_; SpinLockGuard(const SpinLockGuard&) = delete; };
}
