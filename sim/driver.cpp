// Test driver: forks one process per simulated run.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <algorithm>
#include <map>
#include <gflags/gflags.h>
#include <glog/logging.h>

using namespace sim;

namespace sim {
static Scenario* g_scn = nullptr;
void registerScenario(Scenario* s) { s->next = g_scn; g_scn = s; }
}

namespace {

double wall() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

std::string esc(const char* s) {
    std::string o;
    for (; *s; ++s) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

struct Outcome { Status st; std::string msg; int sig; };

[[noreturn]] void fatalHook() { abort(); }

// removes the scratch directory of a finished run; never follows links
void scrubAt(int dfd, const char* name) {
    int fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
    if (fd < 0) return;
    struct D { ino64_t ino; off64_t off; unsigned short len; unsigned char type; char nm[1]; };
    char b[8192]; long n;
    while ((n = syscall(SYS_getdents64, fd, b, sizeof b)) > 0)
        for (long o = 0; o < n;) {
            D* d = (D*)(b + o); o += d->len;
            if (!strcmp(d->nm, ".") || !strcmp(d->nm, "..")) continue;
            if (syscall(SYS_unlinkat, fd, d->nm, 0) != 0) scrubAt(fd, d->nm);
        }
    close(fd);
    syscall(SYS_unlinkat, dfd, name, AT_REMOVEDIR);
}
void scrub(pid_t pid) {
    for (const char* base : {"/dev/shm", "/tmp"}) {
        char nm[40]; snprintf(nm, sizeof nm, "vsim-%d", (int)pid);
        int d = open(base, O_RDONLY | O_DIRECTORY);
        if (d < 0) continue;
        scrubAt(d, nm);
        close(d);
    }
}

Outcome runOne(Scenario* sc, const RunConfig& cfg, int hangSec, bool quiet) {
    // the result block keeps its pages between runs: only the used parts are cleared
    R->status = ST_NONE; R->nChoices = 0; R->choiceOverflow = 0; R->noteLen = 0; R->nCounters = 0;
    memset(R->cval, 0, sizeof R->cval); memset(R->cname, 0, sizeof R->cname); memset(R->cfault, 0, sizeof R->cfault);
    R->steps = R->syncSteps = R->switches = R->preemptions = R->timeJumps = 0; R->vtimeNs = 0;
    memset(R->msg, 0, sizeof R->msg); memset(R->prefix, 0, sizeof R->prefix); memset(R->failStop, 0, sizeof R->failStop); R->abortOk = 0; R->hash = R->schedHash = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        if (quiet) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); close(fd); }
        alarm(hangSec);
        installTscTrap();
        beginRun(cfg);
        sc->body();
        endRun(ST_PASS);
    }
    int ws = 0;
    while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
    scrub(pid);
    Outcome o{ST_NONE, "", 0};
    if (R->status != ST_NONE) {
        o.st = (Status)R->status; o.msg = R->msg;
        if (o.st == ST_VIOLATION && R->prefix[0]) o.msg = std::string(R->prefix) + ": " + o.msg;
    } else if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGABRT && R->abortOk) {
        o.st = ST_PASS;
        uint32_t i = 0;
        while (i < R->nCounters && strcmp(R->cname[i], "fail_stop_exits")) ++i;
        if (i == R->nCounters && i < kMaxCounters) { R->nCounters++; strcpy(R->cname[i], "fail_stop_exits"); }
        if (i < kMaxCounters) R->cval[i]++;
    } else if (WIFSIGNALED(ws)) {
        o.sig = WTERMSIG(ws);
        o.st = ST_VIOLATION;
        o.msg = o.sig == SIGALRM ? "hang: the run did not finish in real time (a loop without any simulated operation)"
                                 : std::string("crash: the process died of signal ") + std::to_string(o.sig) + " (" + strsignal(o.sig) + ")";
        if (R->prefix[0]) o.msg = std::string(R->prefix) + ": " + o.msg;
        if (o.sig == SIGKILL) { o.st = ST_HARNESS; o.msg = "run was killed (out of memory?)"; }
    } else {
        o.st = ST_VIOLATION;
        o.msg = "crash: the process exited on its own with code " + std::to_string(WEXITSTATUS(ws));
    }
    return o;
}

void writeRun(FILE* f, Scenario* sc, const Outcome& o, bool withNotes) {
    fprintf(f, "{\"scenario\":\"%s\",\"seed\":%llu,\"faults\":%u,\"status\":%d,\"hash\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"vtime_ns\":%lld,\"overflow\":%u,\"msg\":\"%s\"",
            sc->name, (unsigned long long)R->seed, R->faults, (int)o.st, (unsigned long long)R->hash, (unsigned long long)R->steps,
            (unsigned long long)R->switches, (unsigned long long)R->preemptions, (long long)R->vtimeNs, R->choiceOverflow, esc(o.msg.c_str()).c_str());
    fprintf(f, ",\"counters\":{");
    for (uint32_t i = 0; i < R->nCounters; ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", R->cname[i], (unsigned long long)R->cval[i]);
    fprintf(f, "},\"choices\":[");
    std::vector<Choice> v(R->choices, R->choices + R->nChoices);
    std::stable_sort(v.begin(), v.end(), [](const Choice& a, const Choice& b) { return a.kind != b.kind ? a.kind < b.kind : a.idx < b.idx; });
    for (size_t i = 0; i < v.size(); ++i) fprintf(f, "%s[%u,%u,%u]", i ? "," : "", v[i].kind, v[i].idx, v[i].val);
    fprintf(f, "]");
    if (withNotes) {
        fprintf(f, ",\"events\":[");
        const char* p = R->notes; const char* e = p + R->noteLen; bool first = true;
        std::vector<std::string> lines;
        while (p < e) { const char* nl = (const char*)memchr(p, '\n', e - p); if (!nl) break; lines.emplace_back(p, nl); p = nl + 1; }
        size_t from = lines.size() > 400 ? lines.size() - 400 : 0;
        for (size_t i = from; i < lines.size(); ++i) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(lines[i].c_str()).c_str()); first = false; }
        fprintf(f, "]");
    }
    fprintf(f, "}\n");
}

Scenario* find(const char* n) {
    for (Scenario* s = g_scn; s; s = s->next) if (!strcmp(s->name, n)) return s;
    fprintf(stderr, "unknown scenario %s\n", n);
    exit(2);
}

}  // namespace

int main(int argc, char** argv) {
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    // a fixed environment: nothing the runs see may depend on the caller's
    const char* mode = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> a;
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    google::InitGoogleLogging("sim");
    FLAGS_logtostderr = true;
    FLAGS_minloglevel = getenv("SIM_LOG") ? 0 : 3;  // 3: fatal messages must still end the run
    google::InstallFailureFunction(&fatalHook);
    signal(SIGPIPE, SIG_IGN);

    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    memInit();
    int hang = a.count("--hang") ? atoi(a["--hang"].c_str()) : 20;
    bool quiet = !getenv("SIM_LOG");

    if (!strcmp(mode, "list")) {
        for (Scenario* s = g_scn; s; s = s->next) printf("%s\n", s->name);
        return 0;
    }
    if (!strcmp(mode, "one") || !strcmp(mode, "replay")) {
        Scenario* sc = find(a["--scenario"].c_str());
        RunConfig c;
        c.seed = strtoull(a["--seed"].c_str(), nullptr, 10);
        c.faults = a.count("--faults") ? atoi(a["--faults"].c_str()) : 1;
        c.trace = a.count("--trace");
        std::vector<Choice> ch;
        // "replay" reads candidate choice lists, one per line: n k i v k i v ...
        if (!strcmp(mode, "one")) {
            Outcome o = runOne(sc, c, hang, quiet && !c.trace);
            writeRun(stdout, sc, o, a.count("--events"));
            return 0;
        }
        FILE* in = a.count("--in") ? fopen(a["--in"].c_str(), "r") : stdin;
        long n;
        while (fscanf(in, "%ld", &n) == 1) {
            ch.clear();
            for (long i = 0; i < n; ++i) { Choice x; if (fscanf(in, "%u %u %u", &x.kind, &x.idx, &x.val) != 3) return 2; ch.push_back(x); }
            c.replay = true; c.replayChoices = ch.data(); c.nReplay = ch.size();
            Outcome o = runOne(sc, c, hang, quiet && !c.trace);
            writeRun(stdout, sc, o, a.count("--events"));
            fflush(stdout);
        }
        return 0;
    }
    if (!strcmp(mode, "run")) {
        Scenario* sc = find(a["--scenario"].c_str());
        uint64_t base = strtoull(a["--seed"].c_str(), nullptr, 10);
        long from = atol(a["--from"].c_str()), to = atol(a["--to"].c_str()), stride = a.count("--stride") ? atol(a["--stride"].c_str()) : 1;
        double limit = a.count("--time") ? atof(a["--time"].c_str()) : 1e9;
        int maxViol = a.count("--max-viol") ? atoi(a["--max-viol"].c_str()) : 3;
        FILE* out = fopen(a["--out"].c_str(), "w");
        uint64_t sh = 1469598103934665603ull;
        for (const char* p = sc->name; *p; ++p) sh = (sh ^ *p) * 1099511628211ull;
        double t0 = wall();
        long done = 0, viol = 0, faultRuns = 0, nontrivial = 0;
        uint64_t steps = 0, sw = 0, pre = 0, sync = 0, jumps = 0; double vt = 0;
        std::map<std::string, uint64_t> cnt; std::map<std::string, uint64_t> cntRuns; std::map<std::string, int> isF;
        std::vector<uint64_t> hashes; std::map<std::string, uint64_t> known;
        uint64_t digest = 0;
        for (long i = from; i < to; i += stride) {
            if (wall() - t0 > limit) break;
            RunConfig c;
            c.seed = mix(base ^ sh, i) >> 1;
            c.faults = (i % 4) != 0;
            Outcome o = runOne(sc, c, hang, quiet);
            ++done;
            faultRuns += c.faults;
            steps += R->steps; sw += R->switches; pre += R->preemptions; sync += R->syncSteps; jumps += R->timeJumps;
            vt += R->vtimeNs * 1e-9;
            bool fired = false;
            for (uint32_t k = 0; k < R->nCounters; ++k) {
                cnt[R->cname[k]] += R->cval[k]; isF[R->cname[k]] |= R->cfault[k];
                if (R->cval[k]) { cntRuns[R->cname[k]]++; if (R->cfault[k]) fired = true; }
            }
            if (R->preemptions > 0 || fired) { nontrivial++; hashes.push_back(R->schedHash ^ (R->hash * 3)); }
            digest = mix(digest ^ R->hash, o.st);
            if (o.st == ST_KNOWN) known[o.msg]++;
            if (o.st == ST_VIOLATION || o.st == ST_HARNESS) {
                ++viol;
                fprintf(out, "V ");
                writeRun(out, sc, o, true);
                fflush(out);
                if (viol >= maxViol) break;
            } else if (done <= 2) {
                fprintf(out, "P ");
                writeRun(out, sc, o, true);
            }
        }
        std::sort(hashes.begin(), hashes.end());
        hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
        fprintf(out, "S {\"runs\":%ld,\"violations\":%ld,\"fault_runs\":%ld,\"nontrivial\":%ld,\"steps\":%llu,\"sync\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"time_jumps\":%llu,\"vtime_s\":%.6f,\"wall_s\":%.3f,\"digest\":\"%016llx\"",
                done, viol, faultRuns, nontrivial, (unsigned long long)steps, (unsigned long long)sync, (unsigned long long)sw, (unsigned long long)pre, (unsigned long long)jumps, vt, wall() - t0, (unsigned long long)digest);
        fprintf(out, ",\"counters\":{");
        bool first = true;
        for (auto& kv : cnt) { fprintf(out, "%s\"%s\":[%llu,%llu,%d]", first ? "" : ",", kv.first.c_str(), (unsigned long long)kv.second, (unsigned long long)cntRuns[kv.first], isF[kv.first]); first = false; }
        fprintf(out, "},\"known\":{");
        first = true;
        for (auto& kv : known) { fprintf(out, "%s\"%s\":%llu", first ? "" : ",", esc(kv.first.c_str()).c_str(), (unsigned long long)kv.second); first = false; }
        fprintf(out, "},\"hashes\":[");
        for (size_t k = 0; k < hashes.size(); ++k) fprintf(out, "%s\"%llx\"", k ? "," : "", (unsigned long long)hashes[k]);
        fprintf(out, "]}\n");
        fclose(out);
        return 0;
    }
    fprintf(stderr, "usage: list | one | replay | run\n");
    return 2;
}
