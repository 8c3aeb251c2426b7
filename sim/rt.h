// Internal interface shared by the runtime's own translation units.
#pragma once
#include "sim.h"
#include <atomic>
#include <pthread.h>

namespace sim {

enum Status : uint32_t { ST_NONE = 0, ST_PASS = 1, ST_VIOLATION = 2, ST_HARNESS = 3, ST_KNOWN = 4 };

struct Choice { uint32_t kind; uint32_t idx; uint32_t val; };
constexpr uint32_t kMaxChoices = 400000;
constexpr uint32_t kMaxCounters = 128;
constexpr uint32_t kMaxNotes = 1 << 20;

struct Result {
    uint32_t status;
    uint32_t faults;                     // fault mode of this run
    uint64_t seed;
    uint64_t hash;                       // event log hash
    uint64_t schedHash;                  // interleaving hash (who ran, in what order)
    uint64_t steps, syncSteps, switches, preemptions, timeJumps;
    int64_t vtimeNs;
    uint32_t abortOk;                    // a fail-stop abort is an accepted outcome
    char failStop[40];
    char msg[2048];
    char prefix[256];
    uint32_t nCounters;
    char cname[kMaxCounters][40];
    uint64_t cval[kMaxCounters];
    uint32_t cfault[kMaxCounters];       // 1 when the counter is an injected fault
    uint32_t nChoices;
    uint32_t choiceOverflow;
    Choice choices[kMaxChoices];
    uint32_t noteLen;
    char notes[kMaxNotes];
};

extern Result* R;
extern bool g_active;                    // simulation is running in this process
extern __thread int tl_rt;               // >0: inside the runtime, pass everything through
extern __thread int tl_nop;              // >0: harness asked not to be preempted

struct RtGuard { RtGuard() { ++tl_rt; } ~RtGuard() { --tl_rt; } };

inline bool simulated() { return g_active && tl_rt == 0; }

void memYield();                         // preemption point at one memory access
void syncYield(int op);                  // preemption point at a synchronisation operation
extern void (*g_stepHook)();             // called between the steps of a thread, outside the runtime
void hashMix(uint64_t v);

// blocking: the thread leaves the runnable set until wakeObj(obj,...) or the deadline
enum WakeReason { WK_SIGNAL = 0, WK_TIMEOUT = 1 };
WakeReason blockOn(const void* obj, int64_t deadlineNs /* -1: none */);
int wakeAll(const void* obj);
bool wakeOne(const void* obj);           // scheduler picks which waiter
void memInit();
void memAccess(const void* p, size_t n, bool write);
uint32_t faultRate(const char* name);    // per 65536; 0 unless the scenario set it

bool ioFd(int fd);                       // a descriptor made by io.cpp
void ioClosed(int fd);
void ioWoke();
long ioWrite(int fd, const void* b, size_t n);
long ioRead(int fd, void* b, size_t n);

struct RunConfig {
    uint64_t seed = 1;
    int faults = 1;
    bool replay = false;
    const Choice* replayChoices = nullptr;
    uint32_t nReplay = 0;
    bool trace = false;
};
void beginRun(const RunConfig& cfg);
[[noreturn]] void endRun(Status st);
void installTscTrap();

}  // namespace sim
