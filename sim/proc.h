// Processes as the code under test sees them.
#pragma once
#include <functional>
#include <string>
namespace sim {
enum ProcState { PROC_GONE, PROC_ALIVE, PROC_FOREIGN };
void procSet(int pid, ProcState s);
int procSelf();                                          // what getpid() returns in a run
void procSetSelf(int pid);
// fork() gives what the first answers (-1 with errno set, 0 in the child, else the parent);
// setsid() is told to the second, and exit() or _exit() to the third, which does not return.
void onFork(std::function<int()> f, std::function<int()> sid, std::function<void(int status)> ex);
// What a command prints and the status it ends with; false: it cannot be started.
void onPopen(std::function<bool(const std::string& cmd, std::string* out, int* status)> f);
int popenUnwaited();                                     // commands nobody waited for
// Signals.  A signal set up here arrives in whichever thread runs `steps` steps after the
// process began to care about it (steps after now when it already does).
void sigSchedule(int sig, int steps, int pid, int uid);
int sigScheduled();                                      // not arrived yet
void sigDeliver(int sig, int pid, int uid);              // in this thread, now
struct SigEvents {
    std::function<void(int sig, int pid)> before, after; // around the delivery to a handler
    std::function<void(int sig, int pid)> ignored;
    std::function<void(int sig)> death;                  // the default action ends the process
};
void onSignals(SigEvents e);
}
