// ProcessUtils: pid files and commands, over a simulated process table.
#include "sim.h"
#include "simfs.h"
#include "proc.h"
#include "common/base/Base.h"
#include "common/process/ProcessUtils.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <sys/syscall.h>
#include <unistd.h>

using namespace sim;
using nebula::ProcessUtils;

namespace {
const char* kFaults[] = {"open_fail", "read_fail", "write_fail", "short_write", "close_fail", "mkdir_fail", "stat_fail", "access_fail", "kill_fail", "short_read"};
uint64_t injected() { uint64_t n = 0; for (auto* f : kFaults) if (strcmp(f, "short_read") && strcmp(f, "short_write")) n += faultCount(f); return n; }
void rates() {
    static const uint32_t r[] = {0, 4000, 15000};
    if (faultsOn()) for (auto* f : kFaults) setFaultRate(f, r[choose(W, 3)]);
}
struct Content { std::string text; long long pid; };      // pid: -1 none
}  // namespace

SIM_SCENARIO(pid_file) {
    fsInit();
    rates();
    fsMkdir("/sim/run");
    std::map<int, ProcState> procs;
    for (int i = 0; i < 6; ++i) {
        int pid = choose(W, 3) == 1 ? (int)(4194304 - choose(W, 5)) : choose(W, 4) == 1 ? 2147483647 - (int)choose(W, 2) : 2 + (int)choose(W, 40000);
        if (pid == procSelf()) continue;
        procs[pid] = (ProcState)choose(W, 3);
        procSet(pid, procs[pid]);
    }
    procs[procSelf()] = PROC_ALIVE;
    auto free = [&](long long pid) { if (pid == procSelf()) return true; auto i = procs.find((int)pid); return i == procs.end() || i->second == PROC_GONE; };
    std::vector<int> ids;
    for (auto& p : procs) ids.push_back(p.first);
    // what is in the file: text and the pid it stands for
    std::map<std::string, Content> files;
    std::vector<std::string> names = {"/sim/run/a.pid", "/sim/run/b.pid", "/sim/run/new/deep/c.pid"};
    int steps = 3 + choose(W, 8);
    for (int k = 0; k < steps; ++k) {
        std::string f = names[choose(W, names.size())];
        uint64_t f0 = injected();
        switch (choose(W, 4)) {
        case 0: {   // somebody else's file
            if (f == names[2] && !files.count(f)) break;
            Content c{"", -1};
            long long big = ids[choose(W, ids.size())];
            switch (choose(W, 13)) {
                case 0: break;
                case 1: c.text = "\n\n"; break;
                case 2: c.text = "no pid here\n"; break;
                case 3: c = {std::to_string(big), big}; break;
                case 4: c = {std::to_string(big) + "\n", big}; break;
                case 5: c = {"\n" + std::to_string(big) + "\n", big}; break;
                case 6: c = {"pid " + std::to_string(big) + " running\nsecond 77\n", big}; break;
                case 7: c.text = "99999999999999999999999999\n"; break;
                case 8: c.text = "4294967295\n"; break;                      // -1 as 32 bits
                case 9: c.text = "0\n"; break;
                case 10: c.text = std::to_string((1LL << 32) + big) + "\n"; break;
                case 11: c = {"000" + std::to_string(big), big}; break;
                case 12: c.text = "2147483648\n"; break;
            }
            fsWriteFile(f, c.text);
            files[f] = c;
            break;
        }
        case 1: {
            int pid = choose(W, 3) ? ids[choose(W, ids.size())] : 0;
            auto st = ProcessUtils::makePidFile(f, pid);
            bool faulted = injected() > f0;
            long long want = pid ? pid : procSelf();
            std::string c;
            if (st.ok()) {
                SIM_CHECK(fsReadFile(f, &c) && c == std::to_string(want) + "\n", "a pid file was reported as written with %lld but holds '%s'", want, c.c_str());
                files[f] = {c, want};
                sim::count("pid_files");
            } else {
                SIM_CHECK(faulted, "a pid file could not be made although nothing failed: %s", st.toString().c_str());
                if (fsReadFile(f, &c)) { if (!files.count(f) || files[f].text != c) fsWriteFile(f, ""), files[f] = {"", -1}; }
                else SIM_CHECK(!files.count(f), "the pid file vanished");
                sim::count("pid_files_refused");
            }
            break;
        }
        case 2: {
            auto st = ProcessUtils::isPidAvailable(f);
            bool faulted = injected() > f0;
            bool want = !files.count(f) || files[f].pid < 0 || free(files[f].pid);
            if (st.ok()) SIM_CHECK(want, "the pid in '%s' was reported free while process %lld is alive", files[f].text.c_str(), files[f].pid);
            else SIM_CHECK(!want || faulted, "the pid in '%s' was reported taken: %s", files.count(f) ? files[f].text.c_str() : "(no file)", st.toString().c_str());
            sim::count(st.ok() ? "free" : "taken");
            break;
        }
        case 3: {
            int pid = ids[choose(W, ids.size())];
            auto st = ProcessUtils::isPidAvailable((pid_t)pid);
            if (st.ok()) SIM_CHECK(free(pid), "pid %d was reported free while it is alive", pid);
            else SIM_CHECK(!free(pid) || injected() > f0, "pid %d was reported taken: %s", pid, st.toString().c_str());
            // processes come and go
            if (pid != procSelf() && choose(W, 2)) { procs[pid] = (ProcState)choose(W, 3); procSet(pid, procs[pid]); }
            break;
        }
        }
        SIM_CHECK(fsOpenFds() == 0, "%d file descriptors were leaked", fsOpenFds());
    }
    auto st = ProcessUtils::makePidFile("");
    SIM_CHECK(!st.ok(), "a pid file without a name was reported as made");
}

SIM_SCENARIO(run_command) {
    fsInit();
    if (faultsOn()) {
        static const uint32_t r[] = {0, 4000, 15000};
        for (auto* f : {"popen_fail", "pclose_fail", "read_fail", "short_read"}) setFaultRate(f, r[choose(W, 3)]);
    }
    static const size_t sizes[] = {0, 1, 100, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 4096, 4097, 8192, 10000};
    static const int ends[] = {1 << 8, 127 << 8, 255 << 8, 2 << 8, 9, 15, 11 | 0x80};     // as waitpid() says it
    auto* outs = new std::map<std::string, std::string>();
    auto* status = new std::map<std::string, int>();
    int nt = 1 + choose(W, 3), each = 1 + choose(W, 3);
    for (int t = 0; t < nt; ++t) for (int k = 0; k < each; ++k) {
        size_t n = sizes[choose(W, sizeof sizes / sizeof *sizes)];
        std::string o(n, 0);
        uint32_t seed = choose(W, 1000);
        for (size_t i = 0; i < n; ++i) o[i] = (char)((i * 7 + i / 256 * 13 + seed * 31 + t) & 255);     // any byte, zero included
        (*outs)["cmd " + std::to_string(t) + " " + std::to_string(k)] = o;
        (*status)["cmd " + std::to_string(t) + " " + std::to_string(k)] = choose(W, 4) == 1 ? ends[choose(W, 7)] : 0;
    }
    onPopen([=](const std::string& c, std::string* o, int* st) {
        auto i = outs->find(c);
        if (i == outs->end()) return false;
        *o = i->second;
        *st = (*status)[c];
        return true;
    });
    auto body = [=](int t) {
        for (int k = 0; k < each; ++k) {
            std::string c = "cmd " + std::to_string(t) + " " + std::to_string(k);
            uint64_t f0; { NoPreempt np; f0 = faultCount("popen_fail") + faultCount("pclose_fail") + faultCount("read_fail"); }
            auto r = ProcessUtils::runCommand(c.c_str());
            NoPreempt np;
            bool faulted = faultCount("popen_fail") + faultCount("pclose_fail") + faultCount("read_fail") > f0;
            int end = (*status)[c];
            if (r.ok()) {
                SIM_CHECK(end == 0, "a command that ended with status %#x was reported done", end);
                auto& want = (*outs)[c];
                SIM_CHECK(r.value() == want, "a command that printed %zu bytes was reported with %zu%s", want.size(), r.value().size(), r.value().size() == want.size() ? ", other ones" : "");
                sim::count("commands");
            } else {
                SIM_CHECK(faulted || end != 0, "a command failed although nothing went wrong: %s", r.status().toString().c_str());
                sim::count("commands_failed");
            }
        }
    };
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) ts.emplace_back(body, t);
    for (auto& t : ts) t.join();
    auto r = ProcessUtils::runCommand("not there");
    SIM_CHECK(!r.ok(), "a command that cannot be started was reported as done");
    SIM_CHECK(popenUnwaited() == 0, "%d commands were not waited for", popenUnwaited());
}

// ---- becoming a daemon
namespace {
bool isNull(int fd) { struct stat st; return fstat(fd, &st) == 0 && S_ISCHR(st.st_mode) && st.st_rdev == makedev(1, 3); }
std::string fdTable() {                                     // which descriptors are open, standard input apart, and on what
    std::string s;
    for (int fd = 1; fd < 256; ++fd) {
        struct stat st;
        if (fstat(fd, &st) == 0) s += std::to_string(fd) + ":" + std::to_string(st.st_dev) + "/" + std::to_string(st.st_ino) + " ";
    }
    return s;
}
}  // namespace

SIM_SCENARIO(daemonize) {
    fsInit();
    uint32_t forkFail = 0;
    if (faultsOn()) {
        static const uint32_t r[] = {0, 0, 6000, 20000};
        for (auto* f : {"open_fail", "write_fail", "short_write", "close_fail", "mkdir_fail", "stat_fail", "null_open_fail", "dup2_fail"}) setFaultRate(f, r[choose(W, 4)]);
        forkFail = r[choose(W, 4)];
    }
    fsMkdir("/sim/run");
    // what the launcher left as standard input: whatever it was, a file, or nothing at all
    int in = choose(W, 3);
    if (in) {
        ::close(0);
        if (in == 1) { int fd = (int)syscall(SYS_open, "/dev/zero", O_RDONLY); if (fd != 0) harnessError("standard input cannot be set up"); }
    }
    struct stat in0; bool had = fstat(0, &in0) == 0;
    std::string fds = fdTable(), f = choose(W, 2) ? "/sim/run/d.pid" : "/sim/run/new/d.pid";
    bool old = f == "/sim/run/d.pid" && choose(W, 2);
    if (old) fsWriteFile(f, "77\n");
    enum { NONE, FAILED, PARENT, CHILD } role = NONE;
    int forks = 0, sids = 0;
    std::string c;
    auto untouched = [&](const char* who) {
        struct stat now; bool has = fstat(0, &now) == 0;
        SIM_CHECK(has == had && (!has || (now.st_ino == in0.st_ino && now.st_dev == in0.st_dev)), "%s touched its standard input", who);
        SIM_CHECK(fdTable() == fds, "%s has other descriptors open than before", who);
        bool there = fsReadFile(f, &c);
        SIM_CHECK(there == old && (!there || c == "77\n"), "%s touched the pid file", who);
        SIM_CHECK(sids == 0, "%s made itself the leader of a session", who);
    };
    onFork([&]() -> int {
        SIM_CHECK(++forks == 1, "more than one process was forked");
        if (forkFail && fault("fork_fail", forkFail, 65536)) { role = FAILED; errno = choose(F, 2) ? EAGAIN : ENOMEM; return -1; }
        if (choose(W, 4) == 1) { role = PARENT; return 4243; }
        role = CHILD;
        procSetSelf(4243);
        return 0;
    }, [&] {
        if (role != CHILD) violation("a process that was not forked was made the leader of a session");
        ++sids;
        return procSelf();
    }, [&](int st) {
        SIM_CHECK(role == PARENT, "the process was ended by the request to become a daemon");
        SIM_CHECK(st == 0, "the process that started the daemon ended with status %d", st);
        untouched("the process that started the daemon");
        sim::count("parents");
        finishPass();
    });
    auto bad = [] { return injected() + faultCount("fork_fail") + faultCount("null_open_fail") + faultCount("dup2_fail"); };
    auto st = ProcessUtils::daemonize(f);
    SIM_CHECK(role != NONE, "nothing was forked, the answer is %s", st.toString().c_str());
    SIM_CHECK(role != PARENT, "the process that started the daemon goes on");
    if (role == FAILED) {
        SIM_CHECK(!st.ok(), "no process could be forked, and that was reported as a success");
        untouched("a process that could not become a daemon");
        sim::count("not_forked");
        return;
    }
    SIM_CHECK(sids == 1, "the daemon is still in the session it was started from");
    SIM_CHECK(fsOpenFds() == 0 && fdTable() == fds, "the daemon has descriptors open besides the ones it had");
    if (st.ok()) {
        SIM_CHECK(isNull(0), "the daemon runs and its standard input is %s (at first %s)", fcntl(0, F_GETFD) < 0 ? "closed" : "not /dev/null", in == 2 ? "closed" : "open");
        int fl = fcntl(0, F_GETFL);
        SIM_CHECK((fl & O_ACCMODE) != O_WRONLY, "the daemon cannot read its standard input");
        SIM_CHECK(fsReadFile(f, &c) && c == "4243\n", "the daemon 4243 runs and the pid file holds '%s'", c.c_str());
        sim::count("daemons");
    } else {
        SIM_CHECK(bad() > 0, "becoming a daemon failed although nothing went wrong: %s", st.toString().c_str());
        sim::count("daemons_refused");
    }
}

// ---- asking the system about processes
SIM_SCENARIO(proc_queries) {
    fsInit();
    fsProcPid();
    fsMkdir("/sim/proc"); fsMkdir("/sim/proc/sys"); fsMkdir("/sim/proc/sys/kernel");
    struct Info { std::string exe, cwd, name; };
    std::map<int, Info> procs;
    static const size_t lens[] = {1, 2, 30, 254, 255, 256, 1023, 1024, 2048, 4094, 4095};
    auto path = [&] {
        std::string s = "/";
        size_t n = lens[choose(W, 11)];
        while (s.size() < n) s += choose(W, 12) ? (char)("abcXYZ 019.-_"[choose(W, 13)]) : s.back() == '/' ? 'q' : '/';
        if (choose(W, 6) == 1 && s.size() + 10 < 4095) s += " (deleted)";
        return s;
    };
    int n = 1 + choose(W, 4);
    for (int i = 0; i <= n; ++i) {
        int pid = i ? choose(W, 3) == 1 ? 4194304 - (int)choose(W, 3) : 2 + (int)choose(W, 40000) : procSelf();
        if (procs.count(pid)) continue;
        static const char* names[] = {"nebula-metad", "a", "kworker/0:1", "x y z", "(sd-pam)", "fifteen-chars-n", " lead", "tail ", "tab\there", "[x]"};
        procs[pid] = {path(), path(), names[choose(W, 10)]};
        std::string d = "/sim/proc/" + std::to_string(pid);
        fsMkdir(d);
        fsSymlink(procs[pid].exe, d + "/exe");
        fsSymlink(procs[pid].cwd, d + "/cwd");
        fsWriteFile(d + "/comm", procs[pid].name + "\n");
    }
    static const int maxes[] = {32768, 4194304, 99999, 301, 65536};
    int max = maxes[choose(W, 5)];
    fsWriteFile("/sim/proc/sys/kernel/pid_max", std::to_string(max) + "\n");
    SIM_CHECK(ProcessUtils::maxPid() == max, "the greatest pid is %d, reported as %d", max, ProcessUtils::maxPid());
    static const uint32_t r[] = {0, 4000, 15000};
    static const char* fl[] = {"open_fail", "read_fail", "stat_fail", "readlink_fail", "short_read"};
    if (faultsOn()) for (auto* f : fl) setFaultRate(f, r[choose(W, 3)]);
    auto bad = [] { return faultCount("open_fail") + faultCount("read_fail") + faultCount("stat_fail") + faultCount("readlink_fail"); };
    std::vector<int> ids;
    for (auto& p : procs) ids.push_back(p.first);
    int nt = 1 + choose(W, 3);
    auto body = [&] {
        for (int k = 0, steps = 2 + choose(W, 6); k < steps; ++k) {
            int pid = choose(W, 4) == 1 ? 0 : choose(W, 5) == 1 ? 50000 + (int)choose(W, 1000) : ids[choose(W, ids.size())];
            int real = pid ? pid : procSelf();
            uint64_t f0 = bad();
            int what = choose(W, 3);
            auto got = what == 0 ? ProcessUtils::getExePath(pid) : what == 1 ? ProcessUtils::getExeCWD(pid) : ProcessUtils::getProcessName(pid);
            bool faulted = bad() > f0;
            static const char* w[] = {"executable", "directory", "name"};
            auto i = procs.find(real);
            if (got.ok()) {
                SIM_CHECK(i != procs.end(), "the %s of process %d, which does not exist, was reported as '%s'", w[what], real, got.value().c_str());
                auto& want = what == 0 ? i->second.exe : what == 1 ? i->second.cwd : i->second.name;
                SIM_CHECK(got.value() == want, "the %s of process %d was reported as '%.80s' (%zu bytes) and is '%.80s' (%zu bytes)", w[what], real, got.value().c_str(), got.value().size(), want.c_str(), want.size());
                sim::count("asked");
            } else {
                SIM_CHECK(faulted || i == procs.end(), "the %s of process %d cannot be told although nothing failed: %s", w[what], real, got.status().toString().c_str());
                sim::count("not_told");
            }
        }
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < nt; ++t) ts.emplace_back(body);
    body();
    for (auto& t : ts) t.join();
    SIM_CHECK(fsOpenFds() == 0, "%d file descriptors were leaked", fsOpenFds());
}
