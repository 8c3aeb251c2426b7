#pragma once
#include <folly/io/async/EventBaseManager.h>
namespace folly {
class IOThreadPoolExecutor : public Executor {
public:
    explicit IOThreadPoolExecutor(size_t n) {
        for (size_t i = 0; i < n; ++i) {
            auto* e = new EventBase();
            bases_.push_back(e);
            auto up = std::make_shared<futures::detail::Baton>();
            e->runInEventBaseThread([up] { up->post(); });
            threads_.emplace_back([e] { EventBaseManager::slot() = e; e->loopForever(); });
            up->wait();                                  // its loop runs
        }
    }
    ~IOThreadPoolExecutor() override { stop(); }
    // a pool thread gets its own event base, any other thread the next one
    EventBase* getEventBase() {
        EventBase* mine = EventBaseManager::slot();
        for (auto* e : bases_) if (e == mine) return e;
        return bases_[next_.fetch_add(1) % bases_.size()];
    }
    void add(Func f) override { getEventBase()->add(std::move(f)); }
    size_t numThreads() const { return bases_.size(); }
    void join() { stop(); }
    void stop() {
        if (done_) return;
        done_ = true;
        for (auto* e : bases_) e->terminateLoopSoon();
        for (auto& t : threads_) if (t.get_id() == std::this_thread::get_id()) t.detach(); else t.join();
    }
private:
    std::vector<EventBase*> bases_;
    std::vector<std::thread> threads_;
    std::atomic<size_t> next_{0};
    bool done_ = false;
};
}
