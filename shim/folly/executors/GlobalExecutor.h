#pragma once
#include <folly/futures/Future.h>
namespace folly {
// A process-wide pool of worker threads, made at first use and never ended.
class SimCpuPool : public Executor {
    struct S { std::mutex m; std::condition_variable c; std::deque<Func> q; };
    S* s_ = new S();
public:
    explicit SimCpuPool(int n) { for (int i = 0; i < n; ++i) std::thread([s = s_] { for (;;) { Func f; { std::unique_lock<std::mutex> g(s->m); s->c.wait(g, [s] { return !s->q.empty(); }); f = std::move(s->q.front()); s->q.pop_front(); } f(); } }).detach(); }
    void add(Func f) override { { std::lock_guard<std::mutex> g(s_->m); s_->q.push_back(std::move(f)); } s_->c.notify_one(); }
};
inline std::shared_ptr<Executor> getCPUExecutor() { static auto* p = new std::shared_ptr<Executor>(new SimCpuPool(2)); return *p; }
}
