// Stand-in for folly's multi-level time series: same bucket arithmetic, no clock of its own.
#pragma once
#include <chrono>
#include <cstdint>
#include <initializer_list>
#include <vector>
namespace folly {
template <class VT>
class BucketedTimeSeries {
public:
    using ValueType = VT;
    using Duration = std::chrono::seconds;
    BucketedTimeSeries(size_t n, Duration d) : dur_(d.count()) {
        if (dur_ && static_cast<int64_t>(n) > dur_) n = dur_;
        b_.resize(n);
    }
    bool empty() const { return first_ > latest_; }
    void clear() {
        for (auto& b : b_) b = {};
        total_ = {};
        first_ = 1;
        latest_ = 0;
    }
    bool add(int64_t now, VT sum, uint64_t cnt) {
        size_t i;
        if (empty()) {
            first_ = latest_ = now;
            i = idx(now);
        } else if (now > latest_) {
            i = roll(now);
        } else {
            if (now < earliest()) return false;
            i = idx(now);
        }
        b_[i].sum += sum;
        b_[i].cnt += cnt;
        total_.sum += sum;
        total_.cnt += cnt;
        return true;
    }
    void update(int64_t now) {
        if (!empty() && now > latest_) roll(now);
    }
    VT sum() const { return total_.sum; }
    uint64_t count() const { return total_.cnt; }
    template <class R = double>
    R avg() const {
        return total_.cnt ? static_cast<R>(static_cast<double>(total_.sum) / static_cast<double>(total_.cnt)) : R(0);
    }
    int64_t elapsed() const { return empty() ? 0 : latest_ - earliest() + 1; }
    template <class R = double>
    R rate() const {
        auto e = elapsed();
        return e ? static_cast<R>(static_cast<double>(total_.sum) / static_cast<double>(e)) : R(0);
    }

private:
    struct B {
        VT sum{0};
        uint64_t cnt{0};
    };
    size_t idx(int64_t t) const { return static_cast<size_t>((t % dur_) * static_cast<int64_t>(b_.size()) / dur_); }
    int64_t startOf(int64_t t) const {      // start of the bucket t falls in
        int64_t n = static_cast<int64_t>(b_.size());
        int64_t base = t - t % dur_;
        int64_t k = static_cast<int64_t>(idx(t));
        return base + (k * dur_ + n - 1) / n;
    }
    int64_t nextStart(int64_t t) const {
        int64_t n = static_cast<int64_t>(b_.size());
        int64_t base = t - t % dur_;
        int64_t k = static_cast<int64_t>(idx(t)) + 1;
        return base + (k * dur_ + n - 1) / n;
    }
    int64_t earliest() const {
        int64_t e = nextStart(latest_) - dur_;
        return e > first_ ? e : first_;
    }
    size_t roll(int64_t now) {
        size_t cur = idx(latest_);
        int64_t next = nextStart(latest_), st = startOf(latest_);
        latest_ = now;
        if (now < next) return cur;
        size_t nw = idx(now);
        if (now >= st + dur_) {
            for (auto& b : b_) b = {};
            total_ = {};
            return nw;
        }
        while (cur != nw) {
            if (++cur >= b_.size()) cur = 0;
            total_.sum -= b_[cur].sum;
            total_.cnt -= b_[cur].cnt;
            b_[cur] = {};
        }
        return nw;
    }
    int64_t dur_;
    int64_t first_{1}, latest_{0};
    B total_;
    std::vector<B> b_;
};

template <class VT>
class MultiLevelTimeSeries {
public:
    using ValueType = VT;
    using Duration = std::chrono::seconds;
    using Level = BucketedTimeSeries<VT>;
    MultiLevelTimeSeries(size_t n, std::initializer_list<Duration> ds) {
        for (auto d : ds) l_.emplace_back(n, d);
    }
    void addValue(Duration now, const VT& v) { addValueAggregated(now, v, 1); }
    void addValue(Duration now, const VT& v, uint64_t times) { addValueAggregated(now, v * static_cast<VT>(times), times); }
    void addValueAggregated(Duration now, const VT& sum, uint64_t n) {
        if (ct_ != now.count()) {
            flush();
            ct_ = now.count();
        }
        cs_ += sum;
        cc_ += n;
    }
    void update(Duration now) {
        flush();
        for (auto& l : l_) l.update(now.count());
    }
    void flush() {
        if (cc_ == 0) return;
        for (auto& l : l_) l.add(ct_, cs_, cc_);
        cs_ = 0;
        cc_ = 0;
    }
    void clear() {
        for (auto& l : l_) l.clear();
        ct_ = 0;
        cs_ = 0;
        cc_ = 0;
    }
    size_t numLevels() const { return l_.size(); }
    const Level& getLevel(size_t i) const { return l_[i]; }
    VT sum(size_t i) const { return l_[i].sum(); }
    uint64_t count(size_t i) const { return l_[i].count(); }
    template <class R = double>
    R avg(size_t i) const { return l_[i].template avg<R>(); }
    template <class R = double>
    R rate(size_t i) const { return l_[i].template rate<R>(); }

private:
    std::vector<Level> l_;
    int64_t ct_{0};
    VT cs_{0};
    uint64_t cc_{0};
};
}  // namespace folly
