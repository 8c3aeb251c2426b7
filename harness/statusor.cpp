// Status and StatusOr: random histories against a small reference model, payloads
// that know whether they are alive, failing allocations that the caller survives.
#include "sim.h"
#include <set>
#include <new>
#include <csignal>
#include <glog/logging.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include "common/base/Base.h"
#include "common/base/StatusOr.h"

using namespace sim;
using nebula::Status;
using nebula::StatusOr;

namespace {
std::set<const void*>* liveSet;
struct Src { int x; };
template <char TAG>
struct Pay {
    std::unique_ptr<int> v;
    const void* self;
    Pay(const Src& s) : v(new int(s.x)), self(this) { birth(); }  // NOLINT
    Pay(const Pay& o) : self(this) { o.alive("copied"); v.reset(new int(*o.v)); birth(); }
    Pay(Pay&& o) : self(this) { o.alive("moved from"); v = std::move(o.v); birth(); }
    Pay& operator=(const Pay& o) { alive("assigned to"); v.reset(new int(*o.v)); return *this; }
    ~Pay() { alive("destroyed"); NoPreempt np; liveSet->erase(this); }
    int get() const { alive("read"); return v ? *v : -1; }
    void birth() { NoPreempt np; if (!liveSet->insert(this).second) violation("a value was built on top of a live one"); }
    void alive(const char* how) const { NoPreempt np; if (!liveSet->count(this) || self != this) violation("a value that is not there was %s", how); }
};
struct A : Pay<'A'> { using Pay<'A'>::Pay; };
struct B : Pay<'B'> { using Pay<'B'>::Pay; B(const A& a) : Pay<'B'>(Src{a.get()}) {} };   // NOLINT
struct Gen {
    const char* name; Status::Code code; Status (*none)(); Status (*piece)(folly::StringPiece); Status (*fmt)(const char*, ...); bool (Status::*is)() const; const char* text;
};
#define GEN(X, T) {#X, Status::k##X, static_cast<Status (*)()>(&Status::X), static_cast<Status (*)(folly::StringPiece)>(&Status::X), static_cast<Status (*)(const char*, ...)>(&Status::X), &Status::is##X, T}
const Gen gens[] = {
    GEN(Inserted, "Inserted: "), GEN(Error, ""), GEN(NoSuchFile, "NoSuchFile: "), GEN(NotSupported, "NotSupported: "), GEN(SyntaxError, "SyntaxError: "), GEN(SemanticError, "SemanticError: "),
    GEN(StatementEmpty, "StatementEmpty: "), GEN(KeyNotFound, "KeyNotFound: "), GEN(PartialSuccess, "PartialSuccess: "), GEN(SpaceNotFound, "SpaceNotFound: "), GEN(HostNotFound, "HostNotFound: "),
    GEN(TagNotFound, "TagNotFound: "), GEN(EdgeNotFound, "EdgeNotFound: "), GEN(UserNotFound, "UserNotFound: "), GEN(IndexNotFound, "IndexNotFound: "), GEN(GroupNotFound, "GroupNotFound: "),
    GEN(ZoneNotFound, "ZoneNotFound: "), GEN(LeaderChanged, "LeaderChanged: "), GEN(Balanced, "Balanced: "), GEN(PartNotFound, "PartNotFound: "), GEN(ListenerNotFound, "ListenerNotFound: "), GEN(PermissionError, "PermissionError: "),
};
const int NG = sizeof(gens) / sizeof(*gens);
struct SM { int code = -1; std::string msg; };       // -1 is OK, -2 unknown
std::string text(uint32_t n) { std::string s(n, 'a'); for (uint32_t i = 0; i < n; i++) s[i] = "ab%s\0d{}\n\xff"[i % 10 ^ (n & 3)]; return s; }
std::string someText() {
    static const uint32_t n[] = {0, 1, 5, 40, 254, 255, 256, 257, 1000, 65531, 65532, 65535, 65536, 65540, 70000};
    uint32_t k = choose(W, 8);
    return text(k < 5 ? choose(W, 60) : n[choose(W, sizeof(n) / sizeof(*n))]);
}
Status make(SM& m, bool shortOnly = false) {
    int g = (int)choose(W, NG + 1) - 1;
    SM n; n.code = g;
    Status r;
    if (g >= 0) switch (choose(W, 3)) {
    case 0: r = gens[g].none(); break;
    case 1: { auto t = shortOnly ? text(choose(W, 30)) : someText(); n.msg = t.substr(0, 65535); r = gens[g].piece(folly::StringPiece(t)); memset(&t[0], '#', t.size()); break; }
    default: { auto t = someText(); int k = choose(W, 1000); n.msg = (std::to_string(k) + ": " + t.c_str()).substr(0, 255); r = gens[g].fmt("%d: %s", k, t.c_str()); break; }
    }
    m = n;
    return r;
}
void checkS(const Status& s, const SM& m, const char* what) {
    if (m.code == -2) return;
    if (m.code == -1) {
        SIM_CHECK(s.ok() && s.code() == Status::kOk && s.message().empty() && s.toString() == "OK", "%s: %s instead of OK", what, s.toString().substr(0, 60).c_str());
    } else {
        const Gen& g = gens[m.code];
        SIM_CHECK(!s.ok() && s.code() == g.code, "%s: code %d instead of %s", what, (int)s.code(), g.name);
        SIM_CHECK(s.message() == m.msg, "%s: the message of %zu bytes became one of %zu bytes", what, m.msg.size(), s.message().size());
        auto t = s.toString();
        SIM_CHECK(t == g.text + m.msg, "%s: shown as '%s' instead of '%s%s'", what, t.substr(0, 60).c_str(), g.text, m.msg.substr(0, 40).c_str());
    }
    for (int i = 0; i < NG; i++) SIM_CHECK((s.*gens[i].is)() == (i == m.code), "%s: is%s() is wrong", what, gens[i].name);
}
// Asking something that holds nothing for its status ends the process and never tells one:
// tried in a process of its own, which has nothing else to do and touches nothing.
template <class O> void holdsNothing(const O& o, const char* what) {
    NoPreempt np;
    long pid = syscall(SYS_fork);
    if (pid == 0) {
        for (int fd = 0; fd < 64; fd++) syscall(SYS_close, fd);
        struct sigaction sa; memset(&sa, 0, sizeof sa);
        sa.sa_handler = [](int) { for (;;) syscall(SYS_exit_group, 0); };
        for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGTRAP}) sigaction(s, &sa, nullptr);
        google::InstallFailureFunction(+[]() { for (;;) syscall(SYS_exit_group, 0); });
        std::set_terminate([] { for (;;) syscall(SYS_exit_group, 0); });
        bool ok = o.status().ok();
        for (;;) syscall(SYS_exit_group, ok ? 41 : 42);
    }
    if (pid < 0) return;
    int st = 0;
    while (syscall(SYS_wait4, pid, &st, 0, nullptr) < 0 && errno == EINTR) {}
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 0;
    SIM_CHECK(code != 41 && code != 42, "%s: what holds nothing tells a status, %s", what, code == 41 ? "OK" : "an error");
    count("nothing_held");
}
template <class F> bool survives(bool alloc, F f) {      // false: an allocation failed on the way
    memArm(alloc, 1, 12);
    try { f(); memDisarm(); return true; } catch (const std::bad_alloc&) { memDisarm(); count("survived"); return false; }
}
}  // namespace

SIM_SCENARIO(status) {
    auto before = memStats();
    {
        bool alloc = faultsOn() && choose(W, 2);
        const int K = 4;
        Status s[K]; SM m[K];
        int steps = 5 + choose(W, 25);
        for (int k = 0; k < steps; k++) {
            int i = choose(W, K), j = choose(W, K);
            SM was = m[i], n;
            bool ok = true;
            switch (choose(W, 6)) {
            case 0: ok = survives(alloc, [&] { s[i] = make(n); }); if (ok) m[i] = n; else m[i] = was; break;
            case 1: ok = survives(alloc, [&] { s[i] = static_cast<const Status&>(s[j]); }); if (ok) m[i] = m[j]; break;
            case 2: s[i] = std::move(s[j]); if (i != j) { m[i] = m[j]; m[j].code = -2; } break;
            case 3: { survives(alloc, [&] { Status c(static_cast<const Status&>(s[j])); checkS(c, m[j], "copy"); }); break; }
            case 4: if (i != j) { Status c(std::move(s[j])); checkS(c, m[j], "moved"); s[j] = std::move(c); } break;
            case 5: ok = survives(alloc, [&] { s[i] = Status::from(s[j]); }); if (ok) m[i] = m[j]; break;
            }
            for (int x = 0; x < K; x++) checkS(s[x], m[x], "status");
            if (m[i].code != -2 && m[j].code != -2) SIM_CHECK((s[i] == s[j]) == (m[i].code == m[j].code) && (s[i] != s[j]) == (m[i].code != m[j].code), "comparing two statuses is wrong");
        }
    }
    auto now = memStats();
    SIM_CHECK(now.liveBlocks <= before.liveBlocks, "%lld allocations leaked", (long long)(now.liveBlocks - before.liveBlocks));
}

namespace {
struct M { int state = 0; int v = 0; SM s; };            // 0 nothing, 1 status, 2 value, 3 not known
template <class SO> void checkO(const SO& o, const M& m, const char* what) {
    if (m.state == 3) return;
    SIM_CHECK(o.ok() == (m.state == 2) && static_cast<bool>(o) == o.ok(), "%s: ok() is wrong", what);
    if (m.state == 2) SIM_CHECK(o.value().get() == m.v, "%s: holds the value %d instead of %d", what, o.value().get(), m.v);
    if (m.state == 1) { checkS(o.status(), m.s, what); checkS(Status::from(o), m.s, what); }
}
}  // namespace

SIM_SCENARIO(status_or) {
    liveSet = new std::set<const void*>();
    auto before = memStats();
    {
        using SA = StatusOr<A>; using SB = StatusOr<B>;
        bool alloc = faultsOn() && choose(W, 2);
        const int K = 3;
        std::unique_ptr<SA> o[K]; M m[K];
        std::unique_ptr<SB> b = std::make_unique<SB>(); M bm;
        for (auto& x : o) x = std::make_unique<SA>();
        auto err = [&](SM& sm) { for (;;) { Status s = make(sm, true); if (sm.code >= 0) return s; } };
        int steps = 6 + choose(W, 30);
        for (int k = 0; k < steps; k++) {
            int i = choose(W, K), j = choose(W, K), v = choose(W, 1000);
            M n;
            bool ok = true;
            auto set = [&](int state) { if (ok) { m[i] = n; m[i].state = state; m[i].v = v; } };
            auto lost = [&](M was) { if (!ok) { m[i] = was; m[i].state = was.state == 0 ? 0 : 3; } };   // what it holds then is its own affair
            M was = m[i];
            switch (choose(W, 22)) {
            case 0: o[i] = std::make_unique<SA>(); m[i] = M(); break;
            case 1: { Status s = err(n.s); ok = survives(alloc, [&] { o[i] = std::make_unique<SA>(static_cast<const Status&>(s)); }); set(1); checkS(s, n.s, "source"); break; }
            case 2: { Status s = err(n.s); o[i] = std::make_unique<SA>(std::move(s)); set(1); break; }
            case 3: { const A a(Src{v}); ok = survives(alloc, [&] { o[i] = std::make_unique<SA>(a); }); set(2); break; }
            case 4: o[i] = std::make_unique<SA>(A(Src{v})); set(2); break;
            case 5: ok = survives(alloc, [&] { o[i] = std::make_unique<SA>(Src{v}); }); set(2); break;
            case 6: if (i != j) { ok = survives(alloc, [&] { o[i] = std::make_unique<SA>(static_cast<const SA&>(*o[j])); }); if (ok) m[i] = m[j]; } break;
            case 7: if (i != j) { o[i] = std::make_unique<SA>(std::move(*o[j])); m[i] = m[j]; m[j] = M(); } break;
            case 8: case 9: ok = survives(alloc, [&] { *o[i] = static_cast<const SA&>(*o[j]); }); if (ok) m[i] = m[j]; lost(was); break;
            case 10: case 11: *o[i] = std::move(*o[j]); if (i != j) { m[i] = m[j]; m[j] = M(); } break;
            case 12: { const A a(Src{v}); *o[i] = a; set(2); SIM_CHECK(a.get() == v, "assigning from a value changed it"); break; }
            case 13: *o[i] = A(Src{v}); set(2); break;
            case 14: *o[i] = Src{v}; set(2); break;
            case 15: { Status s = err(n.s); ok = survives(alloc, [&] { *o[i] = static_cast<const Status&>(s); }); set(1); lost(was); checkS(s, n.s, "source"); break; }
            case 16: { Status s = err(n.s); *o[i] = std::move(s); set(1); break; }
            case 17:                                      // taking out leaves nothing behind
                if (m[i].state == 2) { A a = std::move(*o[i]).value(); SIM_CHECK(a.get() == m[i].v, "wrong value taken out"); m[i] = M(); }
                else if (m[i].state == 1) { Status s = choose(W, 2) ? std::move(*o[i]).status() : Status::from(std::move(*o[i])); checkS(s, m[i].s, "taken out"); m[i] = M(); }
                break;
            case 18:
                if (m[i].state == 2) { if (choose(W, 2)) *o[i] = static_cast<const A&>(o[i]->value()); else *o[i] = o[i]->value(); }   // the value it holds
                else if (m[i].state == 1) { ok = survives(alloc, [&] { *o[i] = o[i]->status(); }); lost(was); }
                break;
            case 19: b = std::make_unique<SB>(static_cast<const SA&>(*o[i])); bm = m[i]; break;
            case 20: b = std::make_unique<SB>(std::move(*o[i])); bm = m[i]; m[i] = M(); break;
            case 21: *b = std::move(*o[i]); bm = m[i]; m[i] = M(); break;
            }
            for (int x = 0; x < K; x++) checkO(*o[x], m[x], "result");
            checkO(*b, bm, "converted result");
        }
        if (choose(W, 3) == 1) {
            int x = choose(W, K + 1);
            if (x < K ? m[x].state == 0 : bm.state == 0) { if (x < K) holdsNothing(*o[x], "result"); else holdsNothing(*b, "converted result"); }
        }
    }
    SIM_CHECK(liveSet->empty(), "%zu values outlive every object that held them", liveSet->size());
    delete liveSet;
    auto now = memStats();
    SIM_CHECK(now.liveBlocks <= before.liveBlocks, "%lld allocations leaked", (long long)(now.liveBlocks - before.liveBlocks));
}
