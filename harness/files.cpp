// File utilities (fs/FileUtils): directory trees built, listed and removed under
// failing system calls and by several threads at once.
#include "sim.h"
#include "simfs.h"
#include "common/base/Base.h"
#include "common/fs/FileUtils.h"
#include <fnmatch.h>
#include <sys/syscall.h>

using namespace sim;
using nebula::fs::FileUtils;
using nebula::fs::FileType;

namespace {
// The whole tree below /sim as the kernel sees it: path -> kind and content.
std::map<std::string, std::string> snap(const std::string& root = "/sim") {
    NoPreempt np;
    std::map<std::string, std::string> m;
    for (auto& p : fsTree(root)) {
        struct stat st;
        if (!fsStat(p, &st)) continue;
        if (S_ISDIR(st.st_mode)) m[p] = "d";
        else if (S_ISLNK(st.st_mode)) { char b[4097]; long n = ::syscall(SYS_readlink, fsReal(p).c_str(), b, 4096); m[p] = "l" + std::string(b, n > 0 ? n : 0); }
        else if (S_ISREG(st.st_mode)) { std::string c; fsReadFile(p, &c); m[p] = "f" + c; }
        else m[p] = "o";
    }
    return m;
}
bool under(const std::string& p, const std::string& dir) { return p == dir || (p.size() > dir.size() && !p.compare(0, dir.size(), dir) && p[dir.size()] == '/'); }
// Without doubled and trailing slashes.
std::string clean(const std::string& p) {
    std::string r;
    for (char c : p) if (!(c == '/' && !r.empty() && r.back() == '/')) r += c;
    while (r.size() > 1 && r.back() == '/') r.pop_back();
    return r;
}
const char* kNames[] = {"a", "b", "a.txt", "b.txt", ".hid", "x y", "dd"};
std::string drawPath(const std::string& top, int depth) {
    std::string p = top;
    for (int i = 0, n = 1 + (int)choose(W, depth); i < n; ++i) p += std::string("/") + kNames[choose(W, 7)];
    return p;
}
void fifo(const std::string& p) { NoPreempt np; ::syscall(SYS_mknod, fsReal(p).c_str(), S_IFIFO | 0644, 0); }
std::string up(const std::string& p) { return p.substr(0, p.rfind('/')); }

// A random tree: directories, files, links of every kind, a pipe.
void grow(const std::string& top, int n) {
    fsMkdir(top);
    for (int i = 0; i < n; ++i) {
        std::string p = drawPath(top, 3);
        if (!fsExists(up(p)) || fsExists(p)) continue;
        struct stat st;
        if (!fsStat(up(p), &st) || !S_ISDIR(st.st_mode)) continue;
        switch (choose(W, 9)) {
            case 0: case 1: case 2: fsMkdir(p); break;
            case 3: case 4: fsWriteFile(p, "content of " + p); break;
            case 5: fsSymlink("/sim/outside", p); break;                 // to a directory elsewhere
            case 6: fsSymlink("/sim/outside/keep", p); break;           // to a file elsewhere
            case 7: fsSymlink(choose(W, 2) ? p : "/sim/nowhere", p); break;   // to itself, or dangling
            default: if (choose(W, 4) == 0) fifo(p); else fsWriteFile(p, ""); break;
        }
    }
}
const char* kFaults[] = {"unlink_fail", "rmdir_fail", "mkdir_fail", "stat_fail", "opendir_fail", "readdir_fail", "rename_fail", "open_fail", "read_fail"};
uint64_t injected() { uint64_t n = 0; for (auto* f : kFaults) n += faultCount(f); return n; }
void arm() {
    if (!faultsOn()) return;
    setFaultRate("dtype_unknown", choose(W, 3) == 1 ? 30000 : 0);
    setFaultRate("short_read", choose(W, 2) ? 20000 : 0);
    if (choose(W, 3) == 0) return;
    for (auto* f : kFaults) if (choose(W, 3) == 0) setFaultRate(f, 4000);
}

// Where a path leads when the links on the way to its last component are followed.
std::string resolve(const std::string& p) {
    NoPreempt np;
    std::string head = up(clean(p)), tail = clean(p).substr(head.size());
    while (head.size() > 4) {
        char b[4096];
        if (::realpath(head.c_str(), b)) return b + tail;
        struct stat st;
        if (::syscall(SYS_lstat, fsReal(head).c_str(), &st) == 0) return clean(p);   // a broken link is in the way
        tail = head.substr(up(head).size()) + tail;
        head = up(head);
    }
    return head + tail;
}

// What differs between two snapshots.
std::vector<std::string> diff(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b) {
    std::vector<std::string> d;
    for (auto& e : a) { auto i = b.find(e.first); if (i == b.end() || i->second != e.second) d.push_back(e.first); }
    for (auto& e : b) if (!a.count(e.first)) d.push_back(e.first);
    return d;
}
std::string style(std::string p) {                     // the same path written differently
    switch (choose(W, 6)) {
        case 1: return p + "/";
        case 2: { size_t k = p.rfind('/'); return p.substr(0, k) + "/" + p.substr(k); }
        default: return p;
    }
}

void doMakeDir(const std::string& want) {
    std::string p = style(want);
    auto before = snap();
    uint64_t f0 = injected();
    bool ok = FileUtils::makeDir(p);
    bool faulted = injected() > f0;
    auto after = snap();
    std::string c = resolve(p);
    bool there = after.count(c) && (after[c] == "d" || after[c][0] == 'l');
    SIM_CHECK(ok ? there : (!there || faulted || after[c] != "d"), "makeDir(%s) returned %d, and the directory is %sthere", p.c_str(), ok, there ? "" : "not ");
    for (auto& d : diff(before, after)) SIM_CHECK(!before.count(d) && after[d] == "d" && under(c, d), "makeDir(%s) changed %s", p.c_str(), d.c_str());
    if (!ok && !faulted) {
        // only something in the way may refuse it: an ancestor that is no directory
        bool blocked = false;
        for (std::string a = clean(p); a.size() > 4; a = up(a)) {
            NoPreempt np;
            struct stat st;
            if (::syscall(SYS_lstat, fsReal(a).c_str(), &st) != 0) continue;
            if (::syscall(SYS_stat, fsReal(a).c_str(), &st) != 0 || !S_ISDIR(st.st_mode)) blocked = true;
        }
        SIM_CHECK(blocked, "makeDir(%s) failed although nothing was in its way", p.c_str());
    }
}

void doRemove(const std::string& path) {
    std::string p = resolve(path);
    bool rec = choose(W, 3) != 1;
    auto before = snap();
    uint64_t f0 = injected();
    bool ok = rec ? FileUtils::remove(path.c_str(), true) : choose(W, 2) ? FileUtils::remove(path.c_str()) : FileUtils::remove(path.c_str(), false);
    bool faulted = injected() > f0;
    auto after = snap();
    bool gone = !after.count(p);
    SIM_CHECK(ok ? gone : (!gone || faulted || !before.count(p)), "remove(%s, %d) returned %d although the path is %s", p.c_str(), rec, ok, gone ? "gone" : "still there");
    for (auto& d : diff(before, after)) SIM_CHECK(under(d, p) && !after.count(d), "remove(%s, %d) %s %s", p.c_str(), rec, after.count(d) ? "changed" : "removed", d.c_str());
    bool hasSub = false, special = false;
    for (auto& e : before) if (under(e.first, p)) { if (e.first != p && e.second == "d") hasSub = true; if (e.second == "o") special = true; }
    if (!rec && hasSub && !faulted) {
        SIM_CHECK(!ok, "remove(%s) without recursion removed a directory with sub-directories", p.c_str());
        for (auto& e : before) if (under(e.first, p) && e.second == "d") SIM_CHECK(after.count(e.first), "remove(%s) without recursion removed the sub-directory %s", p.c_str(), e.first.c_str());
    }
    if (!faulted && !special && (rec || !hasSub)) {
        // an ancestor that is not a directory makes the path unreachable rather than absent
        struct stat st;
        bool unreachable;
        { NoPreempt np; unreachable = ::syscall(SYS_lstat, fsReal(p).c_str(), &st) != 0 && errno != ENOENT; }
        if (!unreachable) SIM_CHECK(ok, "remove(%s, %d) failed although nothing prevented it", p.c_str(), rec);
    }
}

void doList(const std::string& p) {
    static const FileType types[] = {FileType::REGULAR, FileType::DIRECTORY, FileType::SYM_LINK, FileType::FIFO};
    static const char kinds[] = {'f', 'd', 'l', 'o'};
    static const char* pats[] = {nullptr, "*", "*.txt", "a*", "?", ".*", "[ab]", "x*y"};
    int t = choose(W, 4), pi = choose(W, 8);
    bool full = choose(W, 2);
    auto before = snap();
    uint64_t f0 = injected();
    std::vector<std::string> got;
    if (t == 0 && choose(W, 2)) got = pi || full ? FileUtils::listAllFilesInDir(p.c_str(), full, pats[pi]) : FileUtils::listAllFilesInDir(p.c_str());
    else if (t == 1 && choose(W, 2)) got = FileUtils::listAllDirsInDir(p.c_str(), full, pats[pi]);
    else got = FileUtils::listAllTypedEntitiesInDir(p.c_str(), types[t], full, pats[pi]);
    bool faulted = injected() > f0;
    // links on the way are followed, as everywhere
    std::string at = p;
    { auto i = before.find(clean(p)); if (i != before.end() && i->second == "l" + fsReal("/sim/outside")) at = "/sim/outside"; }
    for (std::string a = at; a.size() > 4; a = up(a)) { auto i = before.find(a); if (i != before.end() && i->second == "l" + fsReal("/sim/outside")) at = "/sim/outside" + at.substr(a.size()); }
    std::set<std::string> want;
    for (auto& e : before) {
        if (up(e.first) != clean(at) || e.second[0] != kinds[t]) continue;
        std::string n = e.first.substr(e.first.rfind('/') + 1);
        if (pats[pi] && fnmatch(pats[pi], n.c_str(), FNM_FILE_NAME | FNM_PERIOD)) continue;
        want.insert(full ? (p.back() == '/' ? p + n : p + "/" + n) : n);
    }
    std::set<std::string> g(got.begin(), got.end());
    SIM_CHECK(g.size() == got.size(), "listing %s names something twice", p.c_str());
    for (auto& n : g) SIM_CHECK(want.count(n), "listing %s (type %c, pattern %s) names %s, which is not there or not asked for", p.c_str(), kinds[t], pats[pi] ? pats[pi] : "-", n.c_str());
    if (!faulted) SIM_CHECK(g.size() == want.size(), "listing %s (type %c, pattern %s) names %zu of %zu", p.c_str(), kinds[t], pats[pi] ? pats[pi] : "-", g.size(), want.size());
}

void doIterate(const std::string& p) {
    auto before = snap();
    uint64_t f0 = injected();
    std::regex re(choose(W, 2) ? "t" : "^a");
    bool useRe = choose(W, 2);
    std::vector<std::string> got;
    size_t stopAt = choose(W, 5) == 1 ? choose(W, 4) : ~0u;
    bool stopped = false, ended = false;
    {
        FileUtils::Iterator it(p, useRe ? &re : nullptr);
        for (; it.valid(); choose(W, 2) ? (void)it.next() : (void)++it) {
            SIM_CHECK(got.size() < 100000, "the iteration over %s does not end", p.c_str());
            if (got.size() == stopAt) { stopped = true; break; }
            got.push_back(it.entry());
            if (useRe) SIM_CHECK(it.matched().size() == 1 && std::regex_search(it.entry(), re), "the iteration over %s shows an entry that does not match", p.c_str());
        }
        ended = !stopped && it.eof();
    }
    bool faulted = injected() > f0;
    std::string real;
    { NoPreempt np; char b[4096]; std::string pp = fsReal(p); char link[64]; (void)link; struct stat st;
      long fd = ::syscall(SYS_open, pp.c_str(), O_RDONLY | O_NONBLOCK, 0);
      if (fd >= 0) { char q[64]; snprintf(q, sizeof q, "/proc/self/fd/%ld", fd); long n = ::syscall(SYS_readlink, q, b, sizeof b); if (n > 0) real.assign(b, n); (void)st; ::syscall(SYS_close, fd); }
      std::string root = fsReal("/sim"); if (!real.compare(0, root.size(), root)) real = "/sim" + real.substr(root.size()); }
    std::vector<std::string> want;
    bool dir = false;
    auto i = before.find(real);
    if (i != before.end() && i->second == "d") {
        dir = true;
        for (auto& e : before) if (up(e.first) == real) { std::string n = e.first.substr(e.first.rfind('/') + 1); if (n[0] != '.') want.push_back(n); }
        std::sort(got.begin(), got.end());
        SIM_CHECK(std::adjacent_find(got.begin(), got.end()) == got.end(), "the iteration over %s shows an entry twice", p.c_str());
    } else if (i != before.end() && i->second[0] == 'f') {
        std::string l; std::istringstream is(i->second.substr(1));
        while (std::getline(is, l)) want.push_back(l);
    }
    if (useRe) want.erase(std::remove_if(want.begin(), want.end(), [&](const std::string& s) { return !std::regex_search(s, re); }), want.end());
    if ((!faulted && !stopped) || ended) SIM_CHECK(got == want, "the iteration over %s shows %zu entries instead of %zu", p.c_str(), got.size(), want.size());
    else if (dir) { for (auto& g : got) SIM_CHECK(std::find(want.begin(), want.end(), g) != want.end(), "the iteration over %s shows %s, which is not there", p.c_str(), g.c_str()); }
    else SIM_CHECK(got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin()), "the iteration over %s shows other lines than it has", p.c_str());
}

void doQuery(const std::string& p) {
    auto before = snap();
    uint64_t f0 = injected();
    auto t = FileUtils::fileType(p.c_str());
    size_t sz = FileUtils::fileSize(p.c_str());
    bool ex = FileUtils::exist(p);
    auto rl = FileUtils::readLink(p.c_str());
    auto rp = FileUtils::realPath(p.c_str());
    bool faulted = injected() > f0;
    struct stat st;
    int rc, e, rcF;
    { NoPreempt np; rc = (int)::syscall(SYS_lstat, fsReal(p).c_str(), &st); e = errno; struct stat s2; rcF = (int)::syscall(SYS_stat, fsReal(p).c_str(), &s2); }
    SIM_CHECK(ex == (rcF == 0), "exist(%s) is %d", p.c_str(), ex);
    SIM_CHECK(rl.ok() == (rc == 0 && S_ISLNK(st.st_mode)), "readLink(%s) %s", p.c_str(), rl.ok() ? "succeeded" : "failed");
    SIM_CHECK(rp.ok() == (rcF == 0), "realPath(%s) %s", p.c_str(), rp.ok() ? "succeeded" : "failed");
    if (rl.ok()) {
        char b[4097]; long n;
        { NoPreempt np; n = ::syscall(SYS_readlink, fsReal(p).c_str(), b, 4096); }
        std::string target(b, n), root = fsReal("/sim");
        if (!target.compare(0, root.size(), root)) target = "/sim" + target.substr(root.size());
        SIM_CHECK(rl.value() == target, "readLink(%s) gives %zu of the %zu characters of the target", p.c_str(), rl.value().size(), target.size());
    }
    if (faulted) return;
    FileType want = FileType::UNKNOWN;
    if (rc) want = e == ENOENT ? FileType::NOTEXIST : FileType::UNKNOWN;
    else if (S_ISREG(st.st_mode)) want = FileType::REGULAR;
    else if (S_ISDIR(st.st_mode)) want = FileType::DIRECTORY;
    else if (S_ISLNK(st.st_mode)) want = FileType::SYM_LINK;
    else if (S_ISFIFO(st.st_mode)) want = FileType::FIFO;
    SIM_CHECK(t == want, "fileType(%s) is %s", p.c_str(), FileUtils::getFileTypeName(t));
    if (rc == 0) SIM_CHECK(S_ISLNK(st.st_mode) || sz == (size_t)st.st_size, "fileSize(%s) is %zu", p.c_str(), sz);
    else SIM_CHECK(sz == 0, "fileSize(%s) of nothing is %zu", p.c_str(), sz);
}

void doRename(const std::string& x, const std::string& y) {
    auto before = snap();
    std::string a = resolve(x), b = resolve(y);
    bool ok = FileUtils::rename(x, y);
    auto after = snap();
    if (!ok) { SIM_CHECK(before == after, "rename(%s, %s) failed and changed something", a.c_str(), b.c_str()); return; }
    SIM_CHECK(before.count(a) && after.count(b) && after[b] == before[a] && (a == b || !after.count(a)), "rename(%s, %s) succeeded without doing it", a.c_str(), b.c_str());
}

// Paths put together and taken apart.
void doPaths() {
    std::string dir = choose(W, 4) == 0 ? "" : choose(W, 4) == 0 ? "rel/dir" : drawPath("/t", 3), name = kNames[choose(W, 7)];
    std::string j = FileUtils::joinPath(choose(W, 2) && !dir.empty() ? dir + "/" : dir, name);
    SIM_CHECK(j == (dir.empty() ? "./" : dir + "/") + name, "joinPath(%s, %s) is %s", dir.c_str(), name.c_str(), j.c_str());
    std::string p = choose(W, 3) ? j : j + "/";
    folly::StringPiece parent, child;
    FileUtils::dividePath(p, parent, child);
    SIM_CHECK(child == name && parent == (dir.empty() ? "." : dir), "dividePath(%s) is (%s, %s)", p.c_str(), parent.str().c_str(), child.str().c_str());
    SIM_CHECK(FileUtils::dirname(p.c_str()) == (dir.empty() ? "." : dir), "dirname(%s) is %s", p.c_str(), FileUtils::dirname(p.c_str()).c_str());
    SIM_CHECK(FileUtils::basename(p.c_str()) == name, "basename(%s) is %s", p.c_str(), FileUtils::basename(p.c_str()).c_str());
}
}  // namespace

SIM_SCENARIO(files_tree) {
    fsInit();
    fsMkdir("/sim/outside");
    fsWriteFile("/sim/outside/keep", "must survive\nall of it\n\nto the end");
    fsWriteFile("/sim/outside/a.txt", "1");
    fsMkdir("/sim/outside/dd");
    fsWriteFile("/sim/outside/dd/deep", "must survive too");
    grow("/sim/t", 4 + choose(W, 30));
    if (choose(W, 8) == 0) fsSymlink("/sim/" + std::string(200 + choose(W, 3700), 'L'), "/sim/t/longlink");
    arm();
    int steps = 3 + choose(W, 12);
    for (int i = 0; i < steps; ++i) {
        std::string p = drawPath("/sim/t", 4);
        if (choose(W, 6) == 0) p = "/sim/t";
        switch (choose(W, 8)) {
            case 0: doMakeDir(p); break;
            case 1: doRemove(p == "/sim/t" && choose(W, 3) ? p + "/a" : p); break;
            case 2: doList(choose(W, 4) == 0 ? p + "/" : p); break;
            case 3: doIterate(p); break;
            case 4: doQuery(choose(W, 4) == 0 ? "/sim/t/longlink" : p); break;
            case 5: { std::string q = drawPath("/sim/t", 4); if (p != "/sim/t") doRename(p, q); break; }
            case 6: doPaths(); break;
            default: {
                std::string n; int lines = choose(W, 40);
                for (int l = 0; l < lines; ++l) n += std::string(choose(W, 4) ? choose(W, 30) : choose(W, 500), "ta\tz"[choose(W, 4)]) + (l + 1 < lines || choose(W, 2) ? "\n" : "");
                auto s = snap();
                if (!s.count(p) && s.count(up(p)) && s[up(p)] == "d") { fsWriteFile(p, n); doIterate(p); }
                else grow("/sim/t", 5);
            }
        }
        SIM_CHECK(fsOpenFds() == 0, "%d descriptors are left open", fsOpenFds());
    }
}

// Several threads make overlapping directories, then remove overlapping trees.
SIM_SCENARIO(files_race) {
    fsInit();
    fsMkdir("/sim/outside");
    fsWriteFile("/sim/outside/keep", "must survive");
    if (faultsOn()) setFaultRate("dtype_unknown", choose(W, 3) == 1 ? 30000 : 0);
    int nt = 2 + choose(W, 3);
    std::vector<std::vector<std::string>> plan(nt);
    std::set<std::string> all;
    for (auto& v : plan) for (int i = 0, n = 1 + (int)choose(W, 3); i < n; ++i) { v.push_back(drawPath("/sim/t", 5)); all.insert(v.back()); }
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] {
        for (auto& p : plan[t]) {
            bool ok = FileUtils::makeDir(p);
            SIM_CHECK(ok && fsExists(p), "makeDir(%s) beside others returned %d, and the directory is %sthere", p.c_str(), ok, fsExists(p) ? "" : "not ");
        }
    });
    for (auto& t : ts) t.join();
    ts.clear();
    auto s = snap("/sim/t");
    for (auto& e : s) { bool asked = false; for (auto& p : all) asked = asked || under(p, e.first); SIM_CHECK(asked && e.second == "d", "%s was made without being asked for", e.first.c_str()); }
    grow("/sim/t", choose(W, 12));
    s = snap("/sim");
    bool pipe = false;
    for (auto& e : s) pipe = pipe || e.second == "o";
    if (pipe) return;
    std::vector<std::string> targets;
    for (int t = 0; t < nt; ++t) {
        auto& v = plan[t];
        std::string p = choose(W, 2) ? "/sim/t" : v[choose(W, (uint32_t)v.size())];
        if (choose(W, 3) == 0) p = up(p);
        if (p == "/sim") p = "/sim/t";
        targets.push_back(p);
    }
    for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] {
        std::string p = targets[t];
        bool ok = FileUtils::remove(p.c_str(), true);
        SIM_CHECK(ok, "remove(%s) beside others removing the same failed", p.c_str());
        SIM_CHECK(!fsExists(p), "remove(%s) beside others succeeded, and the path is still there", p.c_str());
    });
    for (auto& t : ts) t.join();
    auto e = snap("/sim");
    for (auto& d : diff(s, e)) { bool asked = false; for (auto& p : targets) asked = asked || under(d, p); SIM_CHECK(asked, "%s was removed without being asked for", d.c_str()); }
    SIM_CHECK(fsOpenFds() == 0, "%d descriptors are left open", fsOpenFds());
}
