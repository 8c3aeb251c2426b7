#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
namespace folly {
// One lazily built T per thread and object; gone with the thread or the object.
template <class T>
class ThreadLocal {
    struct Slot { std::shared_ptr<std::atomic<bool>> alive; std::unique_ptr<T> v; };
    static std::map<uint64_t, Slot>& slots() { static thread_local std::map<uint64_t, Slot> m; return m; }
    static uint64_t nextId() { static std::atomic<uint64_t> n{1}; return n.fetch_add(1); }
public:
    ThreadLocal() : id_(nextId()), make_([] { return new T(); }) {}
    template <class F> explicit ThreadLocal(F f) : id_(nextId()), make_(f) {}
    T* get() const { auto& s = slots()[id_]; if (!s.v) s.v.reset(make_()); return s.v.get(); }
    T* operator->() const { return get(); }
    T& operator*() const { return *get(); }
private:
    uint64_t id_;
    std::function<T*()> make_;
};
template <class T>
class ThreadLocalPtr {
    static std::map<uint64_t, std::unique_ptr<T>>& slots() { static thread_local std::map<uint64_t, std::unique_ptr<T>> m; return m; }
    static uint64_t nextId() { static std::atomic<uint64_t> n{1}; return n.fetch_add(1); }
public:
    ThreadLocalPtr() : id_(nextId()) {}
    T* get() const { auto it = slots().find(id_); return it == slots().end() ? nullptr : it->second.get(); }
    T* operator->() const { return get(); }
    T& operator*() const { return *get(); }
    explicit operator bool() const { return get(); }
    void reset(T* p = nullptr) { slots()[id_].reset(p); }
private:
    uint64_t id_;
};
}
