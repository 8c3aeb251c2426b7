#pragma once
#include <chrono>
#include <condition_variable>
#include <map>
#include <mutex>
#include <thread>
#include <folly/futures/Future.h>
namespace folly {
// One thread's event loop: functions and timers, in the order they are due.
class EventBase : public Executor {
public:
    EventBase() = default;
    ~EventBase() override = default;
    void add(Func f) override { push(std::move(f)); }
    bool runInEventBaseThread(Func f) { push(std::move(f)); return true; }
    void runInLoop(Func f) { push(std::move(f)); }
    bool isInEventBaseThread() const { std::lock_guard<std::mutex> g(m_); return owner_ == std::thread::id() || owner_ == std::this_thread::get_id(); }
    bool runInEventBaseThreadAndWait(Func f) {
        futures::detail::Baton b;
        push([&f, &b]() mutable { f(); b.post(); });
        b.wait();
        return true;
    }
    bool runImmediatelyOrRunInEventBaseThreadAndWait(Func f) {
        if (isInEventBaseThread()) { f(); return true; }
        return runInEventBaseThreadAndWait(std::move(f));
    }
    void runAfterDelay(Func f, uint32_t ms) {
        std::lock_guard<std::mutex> g(m_);
        timers_.emplace(std::chrono::steady_clock::now() + std::chrono::milliseconds(ms), std::move(f));
        c_.notify_all();
    }
    void terminateLoopSoon() { std::lock_guard<std::mutex> g(m_); stop_ = true; c_.notify_all(); }
    // runs until told to stop; what is queued by then still runs, timers do not
    void loopForever() {
        { std::lock_guard<std::mutex> g(m_); owner_ = std::this_thread::get_id(); }
        std::unique_lock<std::mutex> g(m_);
        for (;;) {
            std::deque<Func> now;
            now.swap(q_);
            auto t = std::chrono::steady_clock::now();
            while (!timers_.empty() && timers_.begin()->first <= t) { now.push_back(std::move(timers_.begin()->second)); timers_.erase(timers_.begin()); }
            if (!now.empty()) {
                g.unlock();
                while (!now.empty()) { now.front()(); now.pop_front(); }
                g.lock();
                continue;
            }
            if (stop_) break;
            if (timers_.empty()) c_.wait(g);
            else c_.wait_until(g, timers_.begin()->first);
        }
        auto rest = std::move(timers_);
        timers_.clear();
        owner_ = std::thread::id();
        g.unlock();
        rest.clear();
    }
private:
    void push(Func f) { std::lock_guard<std::mutex> g(m_); q_.push_back(std::move(f)); c_.notify_all(); }
    mutable std::mutex m_;
    std::condition_variable c_;
    std::deque<Func> q_;
    std::multimap<std::chrono::steady_clock::time_point, Func> timers_;
    std::thread::id owner_;
    bool stop_ = false;
};
}
