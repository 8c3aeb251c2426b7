#pragma once
#include <atomic>
#include <thread>
namespace folly {
class RWSpinLock {
    enum : int32_t { READER = 4, UPGRADED = 2, WRITER = 1 };
    std::atomic<int32_t> bits_{0};
public:
    void lock() { while (!try_lock()) std::this_thread::yield(); }
    void unlock() { bits_.fetch_and(~(WRITER | UPGRADED), std::memory_order_release); }
    void lock_shared() { while (!try_lock_shared()) std::this_thread::yield(); }
    void unlock_shared() { bits_.fetch_add(-READER, std::memory_order_release); }
    bool try_lock() { int32_t e = 0; return bits_.compare_exchange_strong(e, WRITER, std::memory_order_acq_rel); }
    bool try_lock_shared() {
        int32_t v = bits_.fetch_add(READER, std::memory_order_acquire);
        if (v & (WRITER | UPGRADED)) { bits_.fetch_add(-READER, std::memory_order_release); return false; }
        return true;
    }
    class ReadHolder {
    public:
        explicit ReadHolder(RWSpinLock* l) : l_(l) { if (l_) l_->lock_shared(); }
        explicit ReadHolder(RWSpinLock& l) : ReadHolder(&l) {}
        ReadHolder(ReadHolder&& o) : l_(o.l_) { o.l_ = nullptr; }
        ReadHolder(const ReadHolder&) = delete;
        ~ReadHolder() { if (l_) l_->unlock_shared(); }
        void reset(RWSpinLock* l = nullptr) { if (l == l_) return; if (l_) l_->unlock_shared(); l_ = l; if (l_) l_->lock_shared(); }
    private:
        RWSpinLock* l_;
    };
    class WriteHolder {
    public:
        explicit WriteHolder(RWSpinLock* l) : l_(l) { if (l_) l_->lock(); }
        explicit WriteHolder(RWSpinLock& l) : WriteHolder(&l) {}
        WriteHolder(WriteHolder&& o) : l_(o.l_) { o.l_ = nullptr; }
        WriteHolder(const WriteHolder&) = delete;
        ~WriteHolder() { if (l_) l_->unlock(); }
        void reset(RWSpinLock* l = nullptr) { if (l == l_) return; if (l_) l_->unlock(); l_ = l; if (l_) l_->lock(); }
    private:
        RWSpinLock* l_;
    };
};
}
