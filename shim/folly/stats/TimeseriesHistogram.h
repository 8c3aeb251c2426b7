#pragma once
#include <folly/stats/MultiLevelTimeSeries.h>
#include <sim.h>
namespace folly {
template <class VT>
class TimeseriesHistogram {
public:
    using ValueType = VT;
    using ContainerType = MultiLevelTimeSeries<VT>;
    using Duration = std::chrono::seconds;
    TimeseriesHistogram(VT size, VT mn, VT mx, const ContainerType& copy) : size_(size), min_(mn), max_(mx) {
        size_t n = static_cast<size_t>((mx - mn + size - 1) / size);
        for (size_t i = 0; i < n + 2; i++) b_.push_back(copy);
    }
    void addValue(Duration now, const VT& v) { b_[idx(v)].addValue(now, v); }
    void update(Duration now) {
        for (auto& b : b_) b.update(now);
    }
    VT sum(size_t l) const {
        VT r = 0;
        for (auto& b : b_) r += b.sum(l);
        return r;
    }
    uint64_t count(size_t l) const {
        uint64_t r = 0;
        for (auto& b : b_) r += b.count(l);
        return r;
    }
    template <class R = double>
    R avg(size_t l) const {
        auto c = count(l);
        return c ? static_cast<R>(static_cast<double>(sum(l)) / static_cast<double>(c)) : R(0);
    }
    template <class R = double>
    R rate(size_t l) const {
        int64_t e = 0;
        for (auto& b : b_) e = std::max(e, b.getLevel(l).elapsed());
        return e ? static_cast<R>(static_cast<double>(sum(l)) / static_cast<double>(e)) : R(0);
    }
    VT getPercentileEstimate(double pct, size_t l) const {
        SIM_CHECK(pct >= 0 && pct <= 100, "a percentile of %g is asked for; folly aborts the process", pct);
        double total = static_cast<double>(count(l));
        if (total == 0) return 0;
        double want = pct / 100.0, seen = 0;
        for (size_t i = 0; i < b_.size(); i++) {
            double c = static_cast<double>(b_[i].count(l));
            if (c == 0) continue;
            double lo = seen / total, hi = (seen + c) / total;
            seen += c;
            if (hi < want && seen < total) continue;
            VT avg = b_[i].template avg<VT>(l);
            if (i == 0 || i == b_.size() - 1) return avg;
            VT low = min_ + static_cast<VT>(i - 1) * size_, high = low + size_;
            double f = hi > lo ? (want - lo) / (hi - lo) : 0.5;
            if (f < 0) f = 0;
            if (f > 1) f = 1;
            if (f < 0.5) return static_cast<VT>(low + (static_cast<double>(avg) - low) * f * 2);
            return static_cast<VT>(avg + (static_cast<double>(high) - avg) * (f - 0.5) * 2);
        }
        return 0;
    }

private:
    size_t idx(const VT& v) const {
        if (v < min_) return 0;
        if (v >= max_) return b_.size() - 1;
        return static_cast<size_t>((v - min_) / size_) + 1;
    }
    VT size_, min_, max_;
    std::vector<ContainerType> b_;
};
}  // namespace folly
