// Two-way results (base/EitherOr, base/ErrorOr): random histories against a small
// reference model, payloads that know whether they are alive, allocation failures
// injected at arbitrary points and every memory access checked.
#include "sim.h"
#include <set>
#include "common/base/Base.h"
#include "common/base/Logging.h"
#include "common/base/EitherOr.h"
#include "common/base/ErrorOr.h"

using namespace sim;

// --------------------------------------------------------------- C10 -----
namespace {
// A payload that owns memory and knows where it lives: copies and moves from dead
// objects, double destruction and lost objects all show.
std::set<const void*>* liveSet;
template <char TAG>
struct Pay {
    int* v;
    const void* self;
    Pay(int x) : v(new int(x)), self(this) { birth(); }  // NOLINT
    Pay(const Pay& o) : self(this) { o.alive("copied"); v = new int(*o.v); birth(); }
    Pay(Pay&& o) : self(this) { o.alive("moved from"); v = o.v; o.v = new int(-1); birth(); }
    Pay& operator=(const Pay& o) { alive("assigned to"); o.alive("assigned from"); int* n = new int(*o.v); delete v; v = n; return *this; }
    Pay& operator=(Pay&& o) { alive("assigned to"); o.alive("assigned from"); std::swap(v, o.v); return *this; }
    ~Pay() { alive("destroyed"); NoPreempt np; liveSet->erase(this); delete v; v = reinterpret_cast<int*>(0x10); }
    int get() const { alive("read"); return *v; }
    void birth() { NoPreempt np; if (!liveSet->insert(this).second) violation("an object was built on top of a live one (%c)", TAG); }
    void alive(const char* how) const { NoPreempt np; if (!liveSet->count(this) || self != this) violation("a dead %s value was %s", TAG == 'L' ? "left" : "right", how); }
};
// converts from Pay<T>, is converted explicitly
template <char TAG, char FROM>
struct Conv : Pay<TAG> {
    Conv(int x) : Pay<TAG>(x) {}  // NOLINT
    Conv(const Pay<FROM>& o) : Pay<TAG>(o.get()) {}
};
struct ArgL { int x; };
struct ArgR { int x; };
struct L : Pay<'L'> { using Pay<'L'>::Pay; explicit L(const ArgL& a) : Pay<'L'>(a.x) {} L(ArgL a, int add) : Pay<'L'>(a.x + add) {} explicit L(int x) : Pay<'L'>(x) {} };
struct R : Pay<'R'> { explicit R(const ArgR& a) : Pay<'R'>(a.x) {} R(ArgR a, int add) : Pay<'R'>(a.x + add) {} explicit R(int x) : Pay<'R'>(x) {} };
struct L2 : Pay<'l'> { explicit L2(const L& o) : Pay<'l'>(o.get()) {} explicit L2(ArgL a) : Pay<'l'>(a.x) {} };
struct R2 : Pay<'r'> { explicit R2(const R& o) : Pay<'r'>(o.get()) {} explicit R2(ArgR a) : Pay<'r'>(a.x) {} };

using E = nebula::EitherOr<L, R>;
using E2 = nebula::EitherOr<L2, R2>;

struct M { int state = 0; int v = 0; };  // 0 void 1 left 2 right

template <class EE>
void checkE(const EE& e, const M& m, const char* what) {
    int s = e.isVoid() ? 0 : e.isLeftType() ? 1 : 2;
    SIM_CHECK((int)e.isVoid() + (int)e.isLeftType() + (int)e.isRightType() == 1, "%s: not in exactly one state", what);
    SIM_CHECK(s == m.state, "%s: holds %s, expected %s", what, s == 0 ? "nothing" : s == 1 ? "left" : "right", m.state == 0 ? "nothing" : m.state == 1 ? "left" : "right");
    if (s == 1) SIM_CHECK(e.left().get() == m.v, "%s: left value is %d, expected %d", what, e.left().get(), m.v);
    if (s == 2) SIM_CHECK(e.right().get() == m.v, "%s: right value is %d, expected %d", what, e.right().get(), m.v);
}
}  // namespace

SIM_SCENARIO(either_or) {
    liveSet = new std::set<const void*>();
    bool alloc = faultsOn() && choose(W, 3) == 1;
    auto before = memStats();
    if (alloc) failStopAfter("alloc_fail");
    {
        const int K = 4;
        std::unique_ptr<E> e[K];
        std::unique_ptr<E2> f;
        M m[K], fm;
        auto make = [&](int i, int how, int v) {
            switch (how) {
                case 0: e[i].reset(new E()); m[i] = {0, 0}; break;
                case 1: { L l(v); e[i].reset(new E(l)); m[i] = {1, v}; SIM_CHECK(l.get() == v, "copying from a value changed it"); break; }
                case 2: e[i].reset(new E(L(v))); m[i] = {1, v}; break;
                case 3: { const R r(v); e[i].reset(new E(r)); m[i] = {2, v}; break; }
                case 4: e[i].reset(new E(R(v))); m[i] = {2, v}; break;
                case 5: e[i].reset(new E(ArgL{v})); m[i] = {1, v}; break;
                case 6: e[i].reset(new E(ArgR{v}, 3)); m[i] = {2, v + 3}; break;
                case 7: e[i].reset(new E(nebula::kConstructLeft, v)); m[i] = {1, v}; break;
                case 8: e[i].reset(new E(nebula::kConstructRight, v)); m[i] = {2, v}; break;
            }
        };
        for (int i = 0; i < K; ++i) make(i, choose(W, 9), choose(W, 1000));
        int steps = 6 + choose(W, 30);
        for (int s = 0; s < steps; ++s) {
            int i = choose(W, K), j = choose(W, K), v = choose(W, 1000);
            memArm(alloc, 1, 100);
            switch (choose(W, 20)) {
                case 0: { memDisarm(); make(i, choose(W, 9), v); break; }
                case 1: if (i != j) { e[i].reset(new E(static_cast<const E&>(*e[j]))); m[i] = m[j]; } break;
                case 2: if (i != j) { e[i].reset(new E(std::move(*e[j]))); m[i] = m[j]; m[j] = {0, 0}; } break;
                case 3: case 4: *e[i] = static_cast<const E&>(*e[j]); m[i] = m[j]; break;
                case 5: case 6: *e[i] = std::move(*e[j]); if (i != j) { m[i] = m[j]; m[j] = {0, 0}; } break;
                case 7: { const L l(v); *e[i] = l; m[i] = {1, v}; SIM_CHECK(l.get() == v, "assigning from a value changed it"); break; }
                case 8: *e[i] = L(v); m[i] = {1, v}; break;
                case 9: { const R r(v); *e[i] = r; m[i] = {2, v}; SIM_CHECK(r.get() == v, "assigning from a value changed it"); break; }
                case 10: *e[i] = R(v); m[i] = {2, v}; break;
                case 11: *e[i] = ArgL{v}; m[i] = {1, v}; break;
                case 12: *e[i] = ArgR{v}; m[i] = {2, v}; break;
                case 13:  // taking the value out leaves nothing behind
                    if (m[i].state == 1) { L l = std::move(*e[i]).left(); SIM_CHECK(l.get() == m[i].v, "wrong left value taken out"); m[i] = {0, 0}; }
                    else if (m[i].state == 2) { R r = std::move(*e[i]).right(); SIM_CHECK(r.get() == m[i].v, "wrong right value taken out"); m[i] = {0, 0}; }
                    break;
                case 14:  // change in place
                    if (m[i].state == 1) { e[i]->left() = L(v); m[i].v = v; }
                    else if (m[i].state == 2) { e[i]->right() = R(v); m[i].v = v; }
                    break;
                case 15:  // assign the value it holds
                    if (m[i].state == 1) *e[i] = static_cast<const L&>(e[i]->left());
                    else if (m[i].state == 2) *e[i] = static_cast<const R&>(e[i]->right());
                    break;
                case 16:
                    if (m[i].state == 1) *e[i] = e[i]->left();
                    else if (m[i].state == 2) *e[i] = e[i]->right();
                    break;
                case 17: { const E& c = *e[i]; f.reset(new E2(c)); fm = m[i]; break; }
                case 18: f.reset(new E2(std::move(*e[i]))); fm = m[i]; m[i] = {0, 0}; break;
                case 19:
                    if (!f) f.reset(new E2());
                    if (choose(W, 2)) { const E& c = *e[i]; *f = c; fm = m[i]; }
                    else { *f = std::move(*e[i]); fm = m[i]; m[i] = {0, 0}; }
                    break;
            }
            memDisarm();
            checkE(*e[i], m[i], "result");
            checkE(*e[j], m[j], "source");
            if (f) checkE(*f, fm, "converted result");
        }
        for (int i = 0; i < K; ++i) checkE(*e[i], m[i], "final");
    }
    SIM_CHECK(liveSet->empty(), "%zu values outlive every object that held them", liveSet->size());
    delete liveSet;
    auto now = memStats();
    SIM_CHECK(now.liveBlocks <= before.liveBlocks, "%lld allocations leaked", (long long)(now.liveBlocks - before.liveBlocks));
}

namespace {
struct RV : Pay<'R'> { RV(const ArgR& a) : Pay<'R'>(a.x) {} };  // NOLINT
enum class Code : int32_t { OK = 0, BAD = -1, NOT_FOUND = -7, BIG = 0x7fffffff };
template <class C>
void errorHistory(std::vector<C> codes) {
    using nebula::ErrorOr;
    using EO = ErrorOr<C, RV>;
    int K = 3;
    std::vector<std::unique_ptr<EO>> e(K);
    std::vector<M> m(K);
    for (int i = 0; i < K; ++i) e[i].reset(new EO());
    int steps = 4 + choose(W, 20);
    for (int s = 0; s < steps; ++s) {
        int i = choose(W, K), j = choose(W, K), v = choose(W, 100), c = choose(W, (uint32_t)codes.size());
        auto producer = [&](int how) -> EO {
            if (how == 0) return codes[c];
            if (how == 1) return RV(ArgR{v});
            if (how == 2) { RV r(ArgR{v}); return r; }
            return ArgR{v};
        };
        switch (choose(W, 8)) {
            case 0: { *e[i] = producer(0); m[i] = {1, c}; break; }
            case 1: { int h = 1 + choose(W, 3); *e[i] = producer(h); m[i] = {2, v}; break; }
            case 2: *e[i] = codes[c]; m[i] = {1, c}; break;
            case 3: *e[i] = static_cast<const EO&>(*e[j]); m[i] = m[j]; break;
            case 4: if (i != j) { *e[i] = std::move(*e[j]); m[i] = m[j]; m[j] = {0, 0}; } break;
            case 5: if (m[i].state == 2) { RV r = nebula::value(std::move(*e[i])); SIM_CHECK(r.get() == m[i].v, "wrong value taken out"); m[i] = {0, 0}; } break;
            case 6: if (m[i].state == 2) { nebula::value(*e[i]) = RV(ArgR{v}); m[i].v = v; } break;
            case 7: if (i != j) { e[i].reset(new EO(static_cast<const EO&>(*e[j]))); m[i] = m[j]; } break;
        }
        for (int k = 0; k < K; ++k) {
            const EO& x = *e[k];
            SIM_CHECK(nebula::ok(x) == (m[k].state != 1), "ok() says %d for a result holding %s", (int)nebula::ok(x), m[k].state == 1 ? "an error" : "no error");
            SIM_CHECK(nebula::hasValue(x) == (m[k].state == 2), "hasValue() is wrong");
            if (m[k].state == 1) SIM_CHECK(nebula::error(x) == codes[m[k].v], "error() is not the code that was stored");
            if (m[k].state == 2) SIM_CHECK(nebula::value(x).get() == m[k].v, "value() is not the value that was stored");
        }
    }
}
}  // namespace

SIM_SCENARIO(error_or) {
    liveSet = new std::set<const void*>();
    if (choose(W, 2)) errorHistory<Code>({Code::OK, Code::BAD, Code::NOT_FOUND, Code::BIG});
    else errorHistory<int16_t>({0, 1, -1, 32767, -32768});
    SIM_CHECK(liveSet->empty(), "%zu values outlive every result that held them", liveSet->size());
}
