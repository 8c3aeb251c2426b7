// Growing byte buffers (base/Cord, base/ICord): random histories against a plain
// string, with allocation failures injected at arbitrary points and every memory
// access checked.
#include "sim.h"
#include "common/base/Base.h"
#include "common/base/Logging.h"
#include "common/base/Cord.h"
#include "common/base/ICord.h"

using namespace sim;
using nebula::Cord;
using nebula::ICord;

namespace {
std::string randomBytes(size_t n) {
    std::string s(n, 0);
    uint32_t x = choose(W, 0x7fffffff) * 2654435761u + 12345;
    for (auto& c : s) { x = x * 1664525u + 1013904223u; c = (char)(x >> 24); }
    return s;
}

// A cord whose blocks hold `content` bytes each.  The buffer under test is driven
// through the same random history as a plain string.
template <class C>
void compare(const C& c, const std::string& m, size_t content, const char* what) {
    SIM_CHECK(c.size() == m.size(), "%s: size() is %zu after %zu bytes were written", what, c.size(), m.size());
    SIM_CHECK(c.empty() == m.empty(), "%s: empty() is wrong for %zu bytes", what, m.size());
    switch (choose(W, 3)) {
        case 0: {
            std::string s = c.str();
            SIM_CHECK(s == m, "%s: str() differs from the %zu bytes written", what, m.size());
            break;
        }
        case 1: {
            std::string pre = randomBytes(choose(W, 20)), s = pre;
            size_t n = c.appendTo(s);
            SIM_CHECK(n == m.size() && s == pre + m, "%s: appendTo() returned %zu and left %zu bytes for a prefix of %zu and content of %zu", what, n, s.size(), pre.size(), m.size());
            break;
        }
        default: {
            // visit: the blocks put together are the content, in order; a visitor that
            // declines is not called again
            std::string s;
            int stopAt = choose(W, 2) ? (int)choose(W, 6) : -1, calls = 0;
            bool stopped = false, again = false, emptyBlock = false;
            bool r = c.applyTo([&](const char* p, int32_t n) {
                if (stopped) again = true;
                if (n <= 0) emptyBlock = true; else s.append(p, n);
                if (calls++ == stopAt) { stopped = true; return false; }
                return true;
            });
            SIM_CHECK(!again, "%s: the visitor was called again after it declined", what);
            SIM_CHECK(!emptyBlock, "%s: the visitor was given an empty block", what);
            if (stopped) {
                SIM_CHECK(!r, "%s: applyTo() returned true although the visitor declined", what);
                SIM_CHECK(s.size() <= m.size() && m.compare(0, s.size(), s) == 0, "%s: visited blocks are not a prefix of the content", what);
            } else {
                SIM_CHECK(r, "%s: applyTo() returned false although no visitor declined", what);
                SIM_CHECK(s == m, "%s: the visited blocks do not add up to the %zu bytes written", what, m.size());
            }
        }
    }
    (void)content;
}

size_t drawLen(size_t content, size_t cur) {
    size_t left = content - cur % content;
    switch (choose(W, 9)) {
        case 0: return choose(W, 4);
        case 1: return left;                 // fills the block exactly
        case 2: return left + 1;
        case 3: return left ? left - 1 : 0;
        case 4: return left + content;       // fills the next one too
        case 5: return left + content * (1 + choose(W, 3)) + choose(W, 3);
        case 6: return content;
        default: return 1 + choose(W, (uint32_t)std::min<size_t>(content * 2, 3000));
    }
}

template <class C>
void writeOne(C& c, std::string& m, size_t content) {
    int op = choose(W, 18);
#define PUT(T, v) { T x = (T)(v); c << x; m.append(reinterpret_cast<const char*>(&x), sizeof x); }
    int64_t r = (int64_t)choose(W, 0x7fffffff) * 0x9e3779b97f4a7c15ll;
    switch (op) {
        case 0: PUT(int8_t, r) break;
        case 1: PUT(uint8_t, r) break;
        case 2: PUT(int16_t, r) break;
        case 3: PUT(uint16_t, r) break;
        case 4: PUT(int32_t, r) break;
        case 5: PUT(uint32_t, r) break;
        case 6: PUT(int64_t, r) break;
        case 7: PUT(uint64_t, r) break;
        case 8: PUT(char, r) break;
        case 9: PUT(bool, r & 1) break;
        case 10: PUT(float, (float)r / 3) break;
        case 11: PUT(double, (double)r / 7) break;
        case 12: {
            std::string s = randomBytes(drawLen(content, m.size()));
            c << s; m += s;
            break;
        }
        case 13: {
            std::string s = randomBytes(drawLen(content, m.size()));
            for (auto& ch : s) if (!ch) ch = 'z';
            c << s.c_str(); m += s;
            break;
        }
        default: {
            std::string s = randomBytes(drawLen(content, m.size()));
            c.write(s.data(), s.size()); m += s;
        }
    }
#undef PUT
}

struct CordBox {
    Cord* c; std::string m; size_t content;
};
}  // namespace

// ---------------------------------------------------------------- C08 ----
SIM_SCENARIO(cord) {
    bool alloc = faultsOn() && choose(W, 2);
    int n = 2 + choose(W, 3);
    std::vector<CordBox> cs;
    static const int32_t bs[] = {1024, 9, 10, 16, 24, 64, 128, 4096};
    for (int i = 0; i < n; ++i) {
        int32_t b = bs[choose(W, 8)];
        bool dflt = b == 1024 && choose(W, 2) == 0;
        cs.push_back({dflt ? new Cord() : new Cord(b), "", (size_t)b - sizeof(char*)});
    }
    auto base = memStats();
    if (alloc) { failStopAfter("alloc_fail"); }
    int steps = 5 + choose(W, 25);
    for (int i = 0; i < steps; ++i) {
        CordBox& x = cs[choose(W, n)];
        if (x.m.size() > 20000) { x.c->clear(); x.m.clear(); }
        int op = choose(W, 10);
        if (op < 6) {
            std::string m2 = x.m;
            memArm(alloc, 1, 40);
            writeOne(*x.c, m2, x.content);
            memDisarm();
            x.m = m2;
        } else if (op == 6) {
            x.c->clear(); x.m.clear();
        } else if (op == 7) {
            CordBox& y = cs[choose(W, n)];
            std::string t = y.m;
            memArm(alloc, 1, 40);
            *x.c << *y.c;
            memDisarm();
            x.m += t;
            compare(*y.c, y.m, y.content, "appended cord");
        } else {
            compare(*x.c, x.m, x.content, "cord");
        }
        if (choose(W, 3) == 0) compare(*x.c, x.m, x.content, "cord");
    }
    for (auto& x : cs) { compare(*x.c, x.m, x.content, "cord"); delete x.c; }
    (void)base;
}

SIM_SCENARIO(cord_memory) {
    // everything a buffer allocated is given back by clear() and by its end of life
    static const int32_t bs[] = {9, 16, 64, 1024};
    int32_t b = bs[choose(W, 4)];
    size_t content = b - sizeof(char*);
    std::string data = randomBytes(content * 4 + 10);
    auto before = memStats();
    memArm(false, 0, 1);
    {
        Cord c(b);
        int n = 1 + choose(W, 12);
        size_t have = 0;
        for (int i = 0; i < n; ++i) {
            if (choose(W, 4) == 0) {
                c.clear();
                have = 0;
                auto now = memStats();
                SIM_CHECK(now.liveBlocks <= before.liveBlocks + 1, "clear() left %lld blocks allocated", (long long)(now.liveBlocks - before.liveBlocks));
            } else {
                size_t l = std::min(data.size(), drawLen(content, have));
                c.write(data.data(), l);
                have += l;
            }
        }
    }
    memDisarm();
    auto now = memStats();
    SIM_CHECK(now.liveBlocks == before.liveBlocks, "%lld blocks leaked by a cord that is gone", (long long)(now.liveBlocks - before.liveBlocks));
}

// ---------------------------------------------------------------- C09 ----
namespace {
template <size_t N>
void icordHistory() {
    bool alloc = faultsOn() && choose(W, 2);
    auto before = memStats();
    {
        std::string m[2];
        if (alloc) failStopAfter("alloc_fail");
        ICord<N> a, b;
        ICord<N>* c[2] = {&a, &b};
        int steps = 4 + choose(W, 25);
        for (int i = 0; i < steps; ++i) {
            int k = choose(W, 2);
            if (m[k].size() > N * 12 + 200) { c[k]->clear(); m[k].clear(); }
            int op = choose(W, 10);
            if (op < 6) {
                std::string m2 = m[k];
                memArm(alloc, 1, 40);
                writeOne(*c[k], m2, N);
                memDisarm();
                m[k] = m2;
            } else if (op == 6) {
                c[k]->clear(); m[k].clear();
            } else if (op == 7) {
                int j = choose(W, 2);
                std::string t = m[j];
                memArm(alloc, 1, 40);
                *c[k] << *c[j];
                memDisarm();
                m[k] += t;
                compare(*c[j], m[j], N, "appended inline cord");
            } else {
                compare(*c[k], m[k], N, "inline cord");
            }
            if (choose(W, 3) == 0) compare(*c[k], m[k], N, "inline cord");
        }
        compare(a, m[0], N, "inline cord");
        compare(b, m[1], N, "inline cord");
    }
    auto now = memStats();
    SIM_CHECK(now.liveBlocks == before.liveBlocks, "%lld blocks leaked by inline cords that are gone", (long long)(now.liveBlocks - before.liveBlocks));
}
}  // namespace
SIM_SCENARIO(icord) {
    switch (choose(W, 6)) {
        case 0: icordHistory<8>(); break;
        case 1: icordHistory<16>(); break;
        case 2: icordHistory<64>(); break;
        case 3: icordHistory<1>(); break;
        case 4: icordHistory<256>(); break;
        default: icordHistory<1024>();
    }
}

