#pragma once
#include <folly/io/async/EventBase.h>
namespace folly {
class EventBaseManager {
public:
    static EventBaseManager* get() { static auto* m = new EventBaseManager(); return m; }
    EventBase* getEventBase() { auto& s = slot(); if (!s) s = new EventBase(); return s; }
    static EventBase*& slot() { static thread_local EventBase* e = nullptr; return e; }
};
}
