// File seam.  Paths under /sim exist only inside the simulation: they map to a
// scratch directory of this run.  Destructive calls on any other path are refused.
// Every call is a preemption point and a place where faults are injected.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include "simfs.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <algorithm>

#define SIMNOW (sim::simulated() && sim::tid() >= 0)
namespace sim {
std::string g_fsRoot;                                  // real scratch directory
namespace {
long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8) : "rcx", "r11", "memory");
    return ret;
}
long fin(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

unsigned long inoOf(int fd) { struct stat st; return raw(SYS_fstat, fd, (long)&st) == 0 ? st.st_ino : 0; }
struct FdInfo { bool used = false; std::string path; bool dir = false; };
constexpr int kMaxFd = 4096;
FdInfo g_fd[kMaxFd];
bool g_procNet, g_procPid;                              // /proc/net and /proc/sys/net, /proc/<pid> and /proc/sys/kernel, are the harness's
bool virtNet(const char* p) {
    if (!p || strncmp(p, "/proc/", 6)) return false;
    return (g_procNet && (!strncmp(p, "/proc/net/", 10) || !strncmp(p, "/proc/sys/net/", 14))) ||
           (g_procPid && ((p[6] >= '0' && p[6] <= '9') || p[6] == '-' || !strncmp(p, "/proc/self/", 11) || !strncmp(p, "/proc/sys/kernel/", 17)));
}
bool virt(const char* p) { return p && ((!strncmp(p, "/sim", 4) && (p[4] == 0 || p[4] == '/')) || virtNet(p)); }
std::string xl(const char* p) { return virt(p) ? g_fsRoot + (virtNet(p) ? p : p + 4) : std::string(p ? p : ""); }
bool simFd(int fd) { return fd >= 0 && fd < kMaxFd && g_fd[fd].used; }

struct Rule { const char* fault; int errs[6]; };
const Rule kRules[] = {
    {"open_fail", {EMFILE, EACCES, EIO, ENOSPC, ENFILE, 0}},
    {"mkstemp_fail", {EMFILE, EACCES, EIO, ENOSPC, EEXIST, 0}},
    {"read_fail", {EIO, EINTR, 0}},
    {"write_fail", {ENOSPC, EIO, EINTR, EDQUOT, 0}},
    {"fsync_fail", {EIO, ENOSPC, 0}},
    {"close_fail", {EIO, EINTR, ENOSPC, 0}},
    {"unlink_fail", {EIO, EBUSY, EPERM, EROFS, 0}},
    {"rmdir_fail", {EIO, EBUSY, EPERM, 0}},
    {"rename_fail", {EIO, ENOSPC, EACCES, 0}},
    {"mkdir_fail", {ENOSPC, EACCES, EIO, EMLINK, 0}},
    {"stat_fail", {EIO, EACCES, 0}},
    {"opendir_fail", {EMFILE, EACCES, EIO, 0}},
    {"readdir_fail", {EIO, 0}},
    {"readlink_fail", {EACCES, EIO, 0}},
    {"null_open_fail", {EMFILE, ENFILE, EACCES, ENOENT, 0}},
    {"access_fail", {EIO, EACCES, 0}},
};
bool inject(const char* name) {
    uint32_t r = faultRate(name);
    if (!r || !fault(name, r, 65536)) return false;
    for (auto& k : kRules)
        if (!strcmp(k.fault, name)) {
            int n = 0; while (k.errs[n]) ++n;
            errno = k.errs[choose(F, n)];
            return true;
        }
    errno = EIO;
    return true;
}
FsLog g_log;
std::vector<std::string>* g_outsiders;
// Somebody outside the process creates a file of this very name a moment before we do.
void outsider(const char* path) {
    if (!SIMNOW || !faultRate("name_taken") || !fault("name_taken", faultRate("name_taken"), 65536)) return;
    RtGuard g;
    if (!g_outsiders) g_outsiders = new std::vector<std::string>();
    int fd = raw(SYS_open, (long)xl(path).c_str(), O_WRONLY | O_CREAT | O_EXCL, 0644);
    if (fd < 0) return;
    raw(SYS_write, fd, (long)"outsider", 8);
    raw(SYS_close, fd);
    g_outsiders->push_back(path);
}
}  // namespace

std::vector<std::string> fsOutsiders() { return g_outsiders ? *g_outsiders : std::vector<std::string>(); }

FsLog& fsLog() { return g_log; }

void fsInit() {
    RtGuard g;
    char b[64];
    snprintf(b, sizeof b, "/dev/shm/vsim-%d", (int)raw(SYS_getpid));
    if (raw(SYS_mkdir, (long)b, 0755) < 0) {
        snprintf(b, sizeof b, "/tmp/vsim-%d", (int)raw(SYS_getpid));
        if (raw(SYS_mkdir, (long)b, 0755) < 0) harnessError("cannot create a scratch directory");
    }
    g_fsRoot = b;
    raw(SYS_chdir, (long)b);
    raw(SYS_umask, 022);
}
void fsProcNet() { g_procNet = true; }
void fsProcPid() { g_procPid = true; }
std::string fsReal(const std::string& p) { return xl(p.c_str()); }

int fsOpenFds() {                                      // descriptors this run holds open on simulated paths
    int n = 0;
    for (auto& f : g_fd) n += f.used;
    return n;
}
bool fsExists(const std::string& p) { struct stat st; return raw(SYS_lstat, (long)xl(p.c_str()).c_str(), (long)&st) == 0; }
bool fsStat(const std::string& p, struct stat* st) { return raw(SYS_lstat, (long)xl(p.c_str()).c_str(), (long)st) == 0; }
void fsWriteFile(const std::string& p, const std::string& data, int mode) {
    RtGuard g;
    std::string r = xl(p.c_str());
    int fd = raw(SYS_open, (long)r.c_str(), O_WRONLY | O_CREAT | O_TRUNC, mode);
    if (fd < 0) harnessError("cannot create %s", p.c_str());
    if (raw(SYS_write, fd, (long)data.data(), data.size()) != (long)data.size()) harnessError("cannot write %s", p.c_str());
    raw(SYS_close, fd);
}
bool fsReadFile(const std::string& p, std::string* out) {
    RtGuard g;
    int fd = raw(SYS_open, (long)xl(p.c_str()).c_str(), O_RDONLY, 0);
    if (fd < 0) return false;
    char b[4096]; long n;
    out->clear();
    while ((n = raw(SYS_read, fd, (long)b, sizeof b)) > 0) out->append(b, n);
    raw(SYS_close, fd);
    return true;
}
void fsMkdir(const std::string& p) { RtGuard g; raw(SYS_mkdir, (long)xl(p.c_str()).c_str(), 0755); }
void fsSymlink(const std::string& target, const std::string& at) {
    RtGuard g; std::string t = xl(target.c_str()), a = xl(at.c_str());
    raw(SYS_symlink, (long)t.c_str(), (long)a.c_str());
}
bool fsUnlink(const std::string& p) { RtGuard g; return raw(SYS_unlink, (long)xl(p.c_str()).c_str()) == 0; }
bool fsRmdir(const std::string& p) { RtGuard g; return raw(SYS_rmdir, (long)xl(p.c_str()).c_str()) == 0; }
static void listRaw(const std::string& real, std::vector<std::pair<std::string, unsigned char>>* out) {
    int fd = raw(SYS_open, (long)real.c_str(), O_RDONLY | O_DIRECTORY, 0);
    if (fd < 0) return;
    struct D { ino64_t ino; off64_t off; unsigned short len; unsigned char type; char name[1]; };
    char b[8192]; long n;
    while ((n = raw(SYS_getdents64, fd, (long)b, sizeof b)) > 0)
        for (long o = 0; o < n;) { D* d = (D*)(b + o); out->emplace_back(d->name, d->type); o += d->len; }
    raw(SYS_close, fd);
    std::sort(out->begin(), out->end());
}
std::vector<std::string> fsTree(const std::string& p) {
    RtGuard g;
    std::vector<std::string> res;
    std::vector<std::pair<std::string, unsigned char>> es;
    listRaw(xl(p.c_str()), &es);
    for (auto& e : es) {
        if (e.first == "." || e.first == "..") continue;
        res.push_back(p + "/" + e.first);
        if (e.second == DT_DIR) for (auto& s : fsTree(p + "/" + e.first)) res.push_back(s);
    }
    return res;
}
}  // namespace sim

using namespace sim;

#define SIMD (simulated() && tid() >= 0)
#define PRE() do { if (SIMD) syncYield(40); } while (0)
// a destructive call outside /sim never reaches the kernel
// True when modifying this path touches nothing outside the scratch area, wherever
// ".." and symbolic links in it lead.  Paths whose directory does not exist are harmless.
static bool contained(int dfd, const char* p) {
    static auto real = (char* (*)(const char*, char*))dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
    RtGuard g;
    std::string r = xl(p), base, dir;
    if (g_fsRoot.empty()) return r[0] != '/';
    if (r[0] != '/') r = (dfd == AT_FDCWD ? std::string(".") : "/proc/self/fd/" + std::to_string(dfd)) + "/" + r;
    while (r.size() > 1 && r.back() == '/') r.pop_back();
    size_t k = r.rfind('/');
    base = r.substr(k + 1); dir = k ? r.substr(0, k) : "/";
    if (base == "." || base == "..") dir = r;
    char b[PATH_MAX];
    int e = errno;
    bool ok = true;
    if (real(dir.c_str(), b)) ok = !strncmp(b, g_fsRoot.c_str(), g_fsRoot.size()) && (b[g_fsRoot.size()] == 0 || b[g_fsRoot.size()] == '/');
    errno = e;
    return ok;
}
// a destructive call outside /sim never reaches the kernel
#define GUARDAT(d, p) do { if (g_active && ((!virt(p) && (p)[0] == '/') || !contained(d, p))) { if (SIMD) violation("a path outside the scratch area would have been modified: %s", p); errno = EPERM; return -1; } } while (0)
#define GUARD(p) GUARDAT(AT_FDCWD, p)

static int regFd(long fd, const char* path) {
    if (fd >= 0 && fd < kMaxFd && virt(path)) { RtGuard g; g_fd[fd].used = true; g_fd[fd].path = path; }
    return (int)fd;
}

static int doOpen(int dfd, const char* path, int flags, mode_t mode) {
    if (!g_active) return fin(raw(SYS_openat, dfd, (long)path, flags, mode));
    if (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) if (path[0] != '/' || virt(path) || (strncmp(path, "/dev/", 5) && strncmp(path, "/proc/", 6))) GUARDAT(dfd, path);
    if (!virt(path)) {
        std::string base;
        if (dfd >= 0 && simFd(dfd) && path[0] != '/') base = g_fd[dfd].path + "/" + path;
        if (!base.empty()) { PRE(); if (SIMD && inject("open_fail")) return -1; }
        if (base.empty() && SIMD && faultRate("null_open_fail") && !strcmp(path, "/dev/null")) { PRE(); if (inject("null_open_fail")) return -1; }
        long fd = fin(raw(SYS_openat, dfd, (long)path, flags, mode));
        if (fd >= 0 && !base.empty()) regFd(fd, base.c_str());
        return (int)fd;
    }
    PRE();
    if (SIMD && inject("open_fail")) return -1;
    std::string r; { RtGuard g; r = xl(path); }
    bool created = (flags & O_CREAT) && !fsExists(path);
    if (created) outsider(path);
    long fd = fin(raw(SYS_openat, dfd, (long)r.c_str(), flags, mode));
    if (fd >= 0) {
        regFd(fd, path);
        RtGuard g;
        if (created) fsLog().op({FsOp::CREATE, path, "", 0, "", inoOf((int)fd)});
        if (flags & O_TRUNC) fsLog().op({FsOp::TRUNC, path, "", 0, "", inoOf((int)fd)});
    }
    { RtGuard g; r.clear(); r.shrink_to_fit(); }
    return (int)fd;
}

extern "C" {

int open(const char* path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return doOpen(AT_FDCWD, path, flags, m);
}
int open64(const char* path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return doOpen(AT_FDCWD, path, flags, m);
}
int openat(int dfd, const char* path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return doOpen(dfd, path, flags, m);
}
int openat64(int dfd, const char* path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return doOpen(dfd, path, flags, m);
}
int creat(const char* path, mode_t m) { return doOpen(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    if (SIMD && simFd(fd)) {
        syncYield(41);
        { RtGuard g; g_fd[fd].used = false; g_fd[fd].path.clear(); }
        raw(SYS_close, fd);
        // on Linux the descriptor is gone even when close reports an error
        if (inject("close_fail")) return -1;
        return 0;
    }
    if (g_active && ioFd(fd)) { if (SIMD) syncYield(41); RtGuard g; ioClosed(fd); }
    if (g_active && simFd(fd)) { RtGuard g; g_fd[fd].used = false; }
    return (int)fin(raw(SYS_close, fd));
}

static ssize_t simWrite(int fd, const void* b, size_t n) {
    syncYield(42);
    if (inject("write_fail")) return -1;
    if (n > 1 && faultRate("short_write") && fault("short_write", faultRate("short_write"), 65536)) n = 1 + choose(F, (uint32_t)n - 1);
    long off = raw(SYS_lseek, fd, 0, SEEK_CUR);
    long r = fin(raw(SYS_write, fd, (long)b, n));
    if (r > 0) { RtGuard g; fsLog().op({FsOp::WRITE, g_fd[fd].path, "", off, std::string((const char*)b, r), inoOf(fd)}); }
    return r;
}
ssize_t write(int fd, const void* b, size_t n) {
    if (SIMD && simFd(fd)) return simWrite(fd, b, n);
    if (SIMD && ioFd(fd)) return ioWrite(fd, b, n);
    return fin(raw(SYS_write, fd, (long)b, n));
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (SIMD && simFd(fd)) {
        ssize_t t = 0;
        for (int i = 0; i < c; ++i) {
            if (!v[i].iov_len) continue;
            ssize_t r = simWrite(fd, v[i].iov_base, v[i].iov_len);
            if (r < 0) return t ? t : -1;
            t += r;
            if ((size_t)r < v[i].iov_len) break;
        }
        return t;
    }
    return fin(raw(SYS_writev, fd, (long)v, c));
}
ssize_t read(int fd, void* b, size_t n) {
    if (SIMD && simFd(fd)) {
        syncYield(43);
        if (inject("read_fail")) return -1;
        if (n > 1 && faultRate("short_read") && fault("short_read", faultRate("short_read"), 65536)) n = 1 + choose(F, (uint32_t)(n > 64 ? 64 : n) - 1);
        return fin(raw(SYS_read, fd, (long)b, n));
    }
    if (SIMD && ioFd(fd)) return ioRead(fd, b, n);
    return fin(raw(SYS_read, fd, (long)b, n));
}
static int syncImpl(int fd) {
    if (SIMD && simFd(fd)) {
        syncYield(44);
        if (inject("fsync_fail")) return -1;
        RtGuard g;
        struct stat st; raw(SYS_fstat, fd, (long)&st);
        fsLog().op({S_ISDIR(st.st_mode) ? FsOp::DIRSYNC : FsOp::FSYNC, g_fd[fd].path, "", 0, "", st.st_ino});
        return 0;
    }
    return 0;
}
int fsync(int fd) { return syncImpl(fd); }
int fdatasync(int fd) { return syncImpl(fd); }
int ftruncate(int fd, off_t n) {
    if (SIMD && simFd(fd)) { syncYield(45); RtGuard g; fsLog().op({FsOp::TRUNC, g_fd[fd].path, "", n, "", inoOf(fd)}); }
    return (int)fin(raw(SYS_ftruncate, fd, n));
}
int truncate(const char* p, off_t n) {
    GUARD(p);
    PRE();
    RtGuard g;
    std::string r = xl(p);
    int rc = (int)fin(raw(SYS_truncate, (long)r.c_str(), n));
    if (rc == 0) fsLog().op({FsOp::TRUNC, p, "", n, ""});
    return rc;
}

// ---- temporary files
static int mkst(char* tmpl, int suffix, int flags, bool dir, bool nameOnly = false) {
    PRE();
    size_t len = strlen(tmpl);
    if (len < (size_t)(6 + suffix) || strncmp(tmpl + len - 6 - suffix, "XXXXXX", 6)) { errno = EINVAL; return -1; }
    if (g_active && ((!virt(tmpl) && tmpl[0] == '/') || !contained(AT_FDCWD, tmpl))) { violation("a temporary file would have been created outside the scratch area: %s", tmpl); }
    if (SIMD && inject("mkstemp_fail")) return -1;
    char* x = tmpl + len - 6 - suffix;
    static const char al[] = "ABab01";
    for (int tries = 0; tries < 200; ++tries) {
        // few distinct names, so that names collide all the time
        uint32_t v = choose(W, 36);
        for (int i = 0; i < 6; ++i) x[i] = 'q';
        x[0] = al[v % 6]; x[1] = al[v / 6 % 6];
        if (tries > 20) { x[2] = al[choose(W, 6)]; x[3] = al[choose(W, 6)]; x[4] = al[choose(W, 6)]; }
        PRE();
        if (!dir && tries < 10 && !fsExists(tmpl)) outsider(tmpl);
        RtGuard g;
        std::string r = xl(tmpl);
        if (nameOnly) { if (!fsExists(tmpl)) return 0; continue; }
        if (dir) { if (raw(SYS_mkdir, (long)r.c_str(), 0700) == 0) return 0; continue; }
        long fd = raw(SYS_openat, AT_FDCWD, (long)r.c_str(), O_RDWR | O_CREAT | O_EXCL | flags, 0600);
        if (fd >= 0) { regFd(fd, tmpl); fsLog().op({FsOp::CREATE, tmpl, "", 0, "", inoOf((int)fd)}); return (int)fd; }
        if (fd != -EEXIST) { memcpy(x, "XXXXXX", 6); return (int)fin(fd); }
    }
    errno = EEXIST;
    return -1;
}
int mkstemp(char* t) { return mkst(t, 0, 0, false); }
int mkstemp64(char* t) { return mkst(t, 0, 0, false); }
int mkostemp(char* t, int f) { return mkst(t, 0, f, false); }
int mkstemps(char* t, int s) { return mkst(t, s, 0, false); }
int mkostemps(char* t, int s, int f) { return mkst(t, s, f, false); }
char* mktemp(char* t) { if (mkst(t, 0, 0, false, true) < 0) t[0] = 0; return t; }
char* mkdtemp(char* t) { return mkst(t, 0, 0, true) == 0 ? t : nullptr; }

// ---- names
int unlinkat(int dfd, const char* p, int flags) {
    if (dfd == AT_FDCWD) { if (flags & AT_REMOVEDIR) return rmdir(p); return unlink(p); }
    if (p[0] == '/') { errno = EPERM; return -1; }
    GUARDAT(dfd, p);
    PRE();
    if (SIMD && inject((flags & AT_REMOVEDIR) ? "rmdir_fail" : "unlink_fail")) return -1;
    return (int)fin(raw(SYS_unlinkat, dfd, (long)p, flags));
}
int unlink(const char* p) {
    GUARD(p);
    PRE();
    if (SIMD && inject("unlink_fail")) return -1;
    RtGuard g;
    std::string r = xl(p);
    int rc = (int)fin(raw(SYS_unlink, (long)r.c_str()));
    if (rc == 0) fsLog().op({FsOp::UNLINK, p, "", 0, ""});
    return rc;
}
int rmdir(const char* p) {
    GUARD(p);
    PRE();
    if (SIMD && inject("rmdir_fail")) return -1;
    RtGuard g;
    std::string r = xl(p);
    return (int)fin(raw(SYS_rmdir, (long)r.c_str()));
}
int remove(const char* p) {
    GUARD(p);
    PRE();
    if (SIMD && inject("unlink_fail")) return -1;
    RtGuard g;
    std::string r = xl(p);
    int rc = (int)fin(raw(SYS_unlink, (long)r.c_str()));
    if (rc == 0) { fsLog().op({FsOp::UNLINK, p, "", 0, ""}); return 0; }
    if (errno == EISDIR || errno == EPERM) rc = (int)fin(raw(SYS_rmdir, (long)r.c_str()));
    return rc;
}
int rename(const char* a, const char* b) {
    GUARD(a); GUARD(b);
    PRE();
    if (SIMD && inject("rename_fail")) return -1;
    RtGuard g;
    std::string x = xl(a), y = xl(b);
    int rc = (int)fin(raw(SYS_rename, (long)x.c_str(), (long)y.c_str()));
    if (rc == 0) fsLog().op({FsOp::RENAME, a, b, 0, ""});
    return rc;
}
int link(const char* a, const char* b) { GUARD(b); PRE(); RtGuard g; std::string x = xl(a), y = xl(b); return (int)fin(raw(SYS_link, (long)x.c_str(), (long)y.c_str())); }
int symlink(const char* a, const char* b) { GUARD(b); PRE(); RtGuard g; std::string x = xl(a), y = xl(b); return (int)fin(raw(SYS_symlink, (long)x.c_str(), (long)y.c_str())); }
int mkdir(const char* p, mode_t m) {
    GUARD(p);
    PRE();
    if (SIMD && inject("mkdir_fail")) return -1;
    RtGuard g;
    std::string r = xl(p);
    return (int)fin(raw(SYS_mkdir, (long)r.c_str(), m));
}
int mkdirat(int d, const char* p, mode_t m) {
    if (d == AT_FDCWD) return mkdir(p, m);
    if (p[0] == '/') { errno = EPERM; return -1; }
    GUARDAT(d, p);
    PRE();
    return (int)fin(raw(SYS_mkdirat, d, (long)p, m));
}
int chmod(const char* p, mode_t m) { GUARD(p); PRE(); RtGuard g; std::string r = xl(p); return (int)fin(raw(SYS_chmod, (long)r.c_str(), m)); }
int chdir(const char* p) { PRE(); RtGuard g; std::string r = xl(p); return (int)fin(raw(SYS_chdir, (long)r.c_str())); }

static int statImpl(const char* p, struct stat* st, bool follow) {
    if (g_active && virt(p)) { PRE(); if (SIMD && inject("stat_fail")) return -1; }
    RtGuard g;
    std::string r = g_active ? xl(p) : std::string(p);
    return (int)fin(raw(follow ? SYS_stat : SYS_lstat, (long)r.c_str(), (long)st));
}
int stat(const char* p, struct stat* st) { return statImpl(p, st, true); }
int stat64(const char* p, struct stat64* st) { return statImpl(p, (struct stat*)st, true); }
int lstat(const char* p, struct stat* st) { return statImpl(p, st, false); }
int lstat64(const char* p, struct stat64* st) { return statImpl(p, (struct stat*)st, false); }
int fstatat(int d, const char* p, struct stat* st, int fl) {
    if (d == AT_FDCWD) return statImpl(p, st, !(fl & AT_SYMLINK_NOFOLLOW));
    if (p[0] == '/') { RtGuard g; std::string r = xl(p); return (int)fin(raw(SYS_newfstatat, d, (long)r.c_str(), (long)st, fl)); }
    return (int)fin(raw(SYS_newfstatat, d, (long)p, (long)st, fl));
}
int fstatat64(int d, const char* p, struct stat64* st, int fl) { return fstatat(d, p, (struct stat*)st, fl); }
int access(const char* p, int m) {
    if (g_active && virt(p)) { PRE(); if (SIMD && inject("access_fail")) return -1; }
    RtGuard g;
    std::string r = g_active ? xl(p) : std::string(p);
    return (int)fin(raw(SYS_access, (long)r.c_str(), m));
}
int faccessat(int d, const char* p, int m, int) { return access(p, m); }
ssize_t readlink(const char* p, char* b, size_t n) {
    if (g_active && virt(p)) { PRE(); if (SIMD && faultRate("readlink_fail") && inject("readlink_fail")) return -1; }
    RtGuard g;
    std::string r = g_active ? xl(p) : std::string(p);
    long k = fin(raw(SYS_readlink, (long)r.c_str(), (long)b, n));
    if (k > 0 && g_active && !g_fsRoot.empty() && (size_t)k >= g_fsRoot.size() && !strncmp(b, g_fsRoot.c_str(), g_fsRoot.size())) {
        std::string v = "/sim" + std::string(b + g_fsRoot.size(), k - g_fsRoot.size());
        k = v.size() < n ? v.size() : n;
        memcpy(b, v.data(), k);
    }
    return k;
}
char* realpath(const char* p, char* out) {
    static auto real = (char* (*)(const char*, char*))dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
    if (!g_active || !virt(p)) return real(p, out);
    PRE();
    std::string v;
    {
        RtGuard g;
        std::string r = xl(p);
        char b[PATH_MAX];
        if (!real(r.c_str(), b)) return nullptr;
        v = b;
        if (!v.compare(0, g_fsRoot.size(), g_fsRoot)) v = "/sim" + v.substr(g_fsRoot.size());
    }
    if (!out) out = (char*)malloc(PATH_MAX);
    strcpy(out, v.c_str());
    { RtGuard g; std::string().swap(v); }
    return out;
}

// ---- directories
struct FakeDir { int fd; size_t pos; std::vector<struct dirent>* ents; };
static DIR* mkDir(int fd) {
    RtGuard g;
    auto* d = new FakeDir{fd, 0, new std::vector<struct dirent>()};
    char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    std::vector<std::pair<std::string, unsigned char>> es;
    listRaw(p, &es);
    for (auto& e : es) {
        struct dirent x; memset(&x, 0, sizeof x);
        x.d_ino = 1; x.d_type = e.second; x.d_reclen = sizeof x;
        strncpy(x.d_name, e.first.c_str(), sizeof x.d_name - 1);
        d->ents->push_back(x);
    }
    // directory order is not specified
    for (size_t i = d->ents->size(); i > 1; --i) { size_t j = choose(W, (uint32_t)i); if (j) std::swap((*d->ents)[i - 1], (*d->ents)[i - 1 - j]); }
    return (DIR*)d;
}
DIR* opendir(const char* p) {
    static auto real = (DIR * (*)(const char*)) dlsym(RTLD_NEXT, "opendir");
    (void)real;
    if (SIMD && virt(p) && inject("opendir_fail")) { return nullptr; }
    PRE();
    RtGuard g;
    std::string r = xl(p);
    long fd = fin(raw(SYS_openat, AT_FDCWD, (long)r.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0));
    if (fd < 0) return nullptr;
    regFd(fd, p);
    return mkDir((int)fd);
}
DIR* fdopendir(int fd) { PRE(); return mkDir(fd); }
struct dirent* readdir(DIR* dp) {
    auto* d = (FakeDir*)dp;
    if (SIMD) { syncYield(46); if (d->pos > 0 && inject("readdir_fail")) return nullptr; }
    if (d->pos >= d->ents->size()) return nullptr;
    struct dirent* e = &(*d->ents)[d->pos++];
    if (faultRate("dtype_unknown") && fault("dtype_unknown", faultRate("dtype_unknown"), 65536)) e->d_type = DT_UNKNOWN;
    return e;
}
struct dirent64* readdir64(DIR* dp) { return (struct dirent64*)readdir(dp); }
int closedir(DIR* dp) {
    auto* d = (FakeDir*)dp;
    int fd = d->fd;
    { RtGuard g; if (simFd(fd)) { g_fd[fd].used = false; } delete d->ents; delete d; }
    raw(SYS_close, fd);
    return 0;
}
void rewinddir(DIR* dp) { ((FakeDir*)dp)->pos = 0; }
int dirfd(DIR* dp) { return ((FakeDir*)dp)->fd; }

// ---- stdio: streams on simulated files go through the seams above
struct CookieFd { int fd; FILE* f; };
static std::vector<CookieFd>* g_cookies;
static ssize_t ckRead(void* c, char* b, size_t n) { return read((int)(long)c, b, n); }
static ssize_t ckWrite(void* c, const char* b, size_t n) {
    size_t done = 0;                             // a real stream goes on after a short write
    while (done < n) {
        ssize_t r = write((int)(long)c, b + done, n - done);
        if (r < 0) break;
        done += r;
    }
    return done;                                 // fopencookie: less than n signals an error
}
static int ckSeek(void* c, off64_t* o, int wh) { long r = raw(SYS_lseek, (long)c, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ckClose(void* c) {
    { RtGuard g; for (size_t i = 0; i < g_cookies->size(); ++i) if ((*g_cookies)[i].fd == (int)(long)c) { g_cookies->erase(g_cookies->begin() + i); break; } }
    return close((int)(long)c);
}
static FILE* cookie(int fd, const char* mode) {
    cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
    RtGuard g;
    FILE* f = fopencookie((void*)(long)fd, mode, io);
    if (!g_cookies) g_cookies = new std::vector<CookieFd>();
    g_cookies->push_back({fd, f});
    return f;
}
FILE* fopen(const char* p, const char* mode) {
    static auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
    if (!SIMD || !virt(p)) {
        if (g_active && p[0] == '/' && strpbrk(mode, "wa+") && strncmp(p, "/dev/", 5)) { errno = EPERM; return nullptr; }
        RtGuard g;
        return real(p, mode);
    }
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? (O_WRONLY | O_CREAT | O_TRUNC) : (O_WRONLY | O_CREAT | O_APPEND);
    if (strchr(mode, '+')) fl = (fl & ~(O_RDONLY | O_WRONLY)) | O_RDWR;
    int fd = doOpen(AT_FDCWD, p, fl, 0666);
    if (fd < 0) return nullptr;
    return cookie(fd, mode);
}
FILE* fopen64(const char* p, const char* mode) { return fopen(p, mode); }
FILE* fdopen(int fd, const char* mode) {
    static auto real = (FILE * (*)(int, const char*)) dlsym(RTLD_NEXT, "fdopen");
    if (!SIMD || !simFd(fd)) return real(fd, mode);
    return cookie(fd, mode);
}
int fileno(FILE* f) {
    static auto real = (int (*)(FILE*))dlsym(RTLD_NEXT, "fileno");
    if (g_cookies) for (auto& c : *g_cookies) if (c.f == f) return c.fd;
    return real(f);
}

int prctl(int op, ...) {
    va_list ap; va_start(ap, op);
    long a[4]; for (auto& x : a) x = va_arg(ap, long);
    va_end(ap);
    PRE();
    int r = (int)fin(raw(SYS_prctl, op, a[0], a[1], a[2], a[3]));
    PRE();
    return r;
}
}  // extern "C"
