// Deterministic simulation runtime: public interface for harnesses.
// One process, one seed -> one exactly repeatable execution.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>

namespace sim {

// Every nondeterministic decision is drawn through choose(); the four kinds are
// independent streams so that the minimiser can remove decisions of one kind
// without disturbing the others.  Value 0 is always the benign default.
enum Kind : uint8_t { W = 0 /*workload*/, S = 1 /*schedule*/, F = 2 /*fault*/, T = 3 /*time*/, NK = 4 };

uint32_t choose(Kind k, uint32_t n);                    // uniform in [0,n)
bool chance(Kind k, uint32_t num, uint32_t den);        // true with num/den, recorded as 1
int64_t range(Kind k, int64_t lo, int64_t hi);          // uniform in [lo,hi]; lo is the default

// A named fault site: true when the fault is to be injected here.  Never true
// while faults are disabled.  Counted when it fires.
bool fault(const char* name, uint32_t num, uint32_t den);
uint64_t faultCount(const char* name);                   // how often a fault fired in this run
void failStopAfter(const char* name);                   // once this fault fired, aborting is correct
void count(const char* name, uint64_t by = 1);          // counter reported in the evidence
void setFaultRate(const char* name, uint32_t per65536);  // enables a seam fault
void setBulkRandom(uint64_t seed);                      // getrandom() from one seed instead of a choice per byte
bool faultsOn();
void setSkips(bool on);                                 // off: no time is lost any more (the machine is fast)
void setFaults(bool on);                                // e.g. off for the convergence phase

void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));      // logged and hashed
[[noreturn]] void violation(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finishPass();                         // ends this run as a pass
[[noreturn]] void knownFinding(const char* id, const char* fmt, ...);       // ends the run: listed finding hit
[[noreturn]] void harnessError(const char* fmt, ...);   // machinery fault, never a violation

// Virtual time ------------------------------------------------------------
int64_t monoNs();                                       // virtual monotonic clock
int64_t realNs();                                       // virtual CLOCK_REALTIME
void stepRealtime(int64_t deltaNs);                     // wall clock jump (fault)
void sleepNs(int64_t ns);                               // virtual sleep of the calling thread
void setClockLimitNs(int64_t fromNow);                  // virtual deadline: past it = no progress
void setTscHz(uint64_t hz, uint64_t base);
uint64_t tsc();
void setTscBack(int64_t ns);                            // the counter jumps back by this much
int64_t stolenNs();                                     // time taken from runnable threads by skips and stalls

// Scheduling --------------------------------------------------------------
void yieldPoint();                                      // explicit preemption point
int tid();                                              // simulated thread id (0 = scenario)
int liveThreads();
bool inSim();
int threadState(int t);                                 // 0 runnable 1 blocked 2 done
// Blocks the calling thread in the simulator until pred() (evaluated by other
// threads' progress) or the virtual timeout; true when pred() held.
bool waitUntil(const std::function<bool()>& pred, int64_t timeoutNs);
// If no thread can run and no timer is pending: default is a violation.
void onDeadlock(std::function<void()> fn);
void violationPrefix(const char* s);                    // context for crashes, prepended to reports
uint64_t stepCount();
struct NoPreempt { NoPreempt(); ~NoPreempt(); };        // harness bookkeeping, atomic for the scheduler

// Memory ------------------------------------------------------------------
struct MemStats { uint64_t allocs, frees, liveBlocks, liveBytes; };
void memArm(bool failures, uint32_t num, uint32_t den); // track (and maybe fail) allocations of this thread
void memDisarm();
MemStats memStats();

// Scenarios ---------------------------------------------------------------
struct Scenario { const char* name; void (*body)(); Scenario* next; };
void registerScenario(Scenario*);
}  // namespace sim

#define SIM_SCENARIO(fn)                                                      \
    static void fn();                                                         \
    static ::sim::Scenario sim_scn_##fn{#fn, fn, nullptr};                    \
    __attribute__((constructor)) static void sim_reg_##fn() {                 \
        ::sim::registerScenario(&sim_scn_##fn);                               \
    }                                                                         \
    static void fn()

#define SIM_CHECK(cond, ...)                                                  \
    do { if (!(cond)) ::sim::violation(__VA_ARGS__); } while (0)
