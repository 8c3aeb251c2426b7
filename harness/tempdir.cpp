// TempDir: a directory of one's own, and what becomes of it.
#include "sim.h"
#include "simfs.h"
#include "common/base/Base.h"
#include "common/fs/TempDir.h"

using namespace sim;
using nebula::fs::TempDir;

namespace {
const char* kFaults[] = {"mkstemp_fail", "unlink_fail", "rmdir_fail", "stat_fail", "opendir_fail", "readdir_fail", "close_fail"};
uint64_t injected() { uint64_t n = 0; for (auto* f : kFaults) n += faultCount(f); return n; }
struct Own { std::unique_ptr<TempDir> d; std::string path; bool del; std::set<std::string> tree; };
}  // namespace

SIM_SCENARIO(tempdir) {
    fsInit();
    if (faultsOn()) {
        static const uint32_t r[] = {0, 2000, 9000};
        for (auto* f : kFaults) setFaultRate(f, r[choose(W, 3)]);
        setFaultRate("dtype_unknown", choose(W, 3) == 1 ? 30000 : 0);
    }
    fsMkdir("/sim/d"); fsMkdir("/sim/out"); fsMkdir("/sim/out/deep"); fsMkdir("/sim/d/tmp.XXXXXX");
    std::map<std::string, std::string> bystanders = {{"/sim/out/keep", "1"}, {"/sim/out/deep/keep", "2"}, {"/sim/d/tmp.XXXXXX/keep", "3"}, {"/sim/d/tmp.", "4"}};
    for (auto& b : bystanders) fsWriteFile(b.first, b.second);
    auto* live = new std::set<std::string>();
    auto* kept = new std::map<std::string, std::set<std::string>>();
    auto* maybe = new std::set<std::string>();           // whose removal met a fault
    int nt = 1 + choose(W, 3), each = 1 + choose(W, 4);
    auto inside = [](const std::string& p) { std::set<std::string> s; for (auto& f : fsTree("/sim/d")) if (f.compare(0, p.size() + 1, p + "/") == 0) s.insert(f); return s; };
    auto destroy = [=](Own& o) {
        uint64_t f0;
        {
            NoPreempt np;
            SIM_CHECK(o.path == o.d->path(), "path() changed during the object's life");
            SIM_CHECK(inside(o.path) == o.tree, "the content of a live temporary directory changed");
            live->erase(o.path);
            if (!o.del) (*kept)[o.path] = o.tree; else maybe->insert(o.path);
            f0 = injected();
        }
        o.d.reset();
        NoPreempt np;
        if (!o.del) return;
        if (injected() == f0) { if (!live->count(o.path)) SIM_CHECK(!fsExists(o.path), "a temporary directory with %zu entries is still there", o.tree.size()); count("removed"); }
        else count("removal_met_fault");
    };
    auto worker = [=](int w) {
        static const char* names[] = {"tmp.XXXXXX", "XXXXXX", "foo.XXXXXX", "noplace", "foo.XXXXXX.d"};
        std::vector<Own> own;
        for (int k = 0; k < each; ++k) {
            bool nodir = choose(W, 10) == 1;
            std::string dir = nodir ? "/sim/nodir" : "/sim/d", name = names[choose(W, 8) == 1 ? 3 + choose(W, 2) : choose(W, 3)], tmpl = dir + "/" + name;
            bool bad = nodir || name == names[3] || name == names[4], del = choose(W, 3) != 1, dflt = del && choose(W, 2);
            std::vector<char> b(tmpl.begin(), tmpl.end()), bd(dir.begin(), dir.end()), bn(name.begin(), name.end());
            b.push_back(0); bd.push_back(0); bn.push_back(0);
            uint64_t f0 = faultCount("mkstemp_fail");
            std::unique_ptr<TempDir> d;
            if (choose(W, 2)) d.reset(dflt ? new TempDir(b.data()) : new TempDir(b.data(), del));
            else d.reset(dflt ? new TempDir(bd.data(), bn.data()) : new TempDir(bd.data(), bn.data(), del));
            SIM_CHECK(tmpl == b.data() && dir == bd.data() && name == bn.data(), "the caller's template was overwritten");
            for (auto* v : {&b, &bd, &bn}) memset(v->data(), '#', v->size() - 1);
            if (!d->path() || !*d->path()) { SIM_CHECK(bad || faultCount("mkstemp_fail") > f0, "no temporary directory was made for %s", tmpl.c_str()); count("refused"); continue; }
            std::string p = d->path();
            SIM_CHECK(!bad, "a temporary directory was reported for the impossible template %s", tmpl.c_str());
            Own o{std::move(d), p, del, {}};
            {
                NoPreempt np;
                SIM_CHECK(p.size() == tmpl.size() && p.compare(0, tmpl.size() - 6, tmpl, 0, tmpl.size() - 6) == 0 && p != tmpl, "path %s does not come from template %s", p.c_str(), tmpl.c_str());
                SIM_CHECK(live->insert(p).second, "two live temporary directories share the path %s", p.c_str());
                SIM_CHECK(!kept->count(p), "the path %s of an earlier, kept directory was handed out again", p.c_str());
                struct stat st;
                SIM_CHECK(fsStat(p, &st) && S_ISDIR(st.st_mode), "the temporary directory %s does not exist", p.c_str());
                SIM_CHECK((st.st_mode & 07777) == 0700, "the temporary directory has mode %o", st.st_mode & 07777);
                SIM_CHECK(inside(p).empty(), "a new temporary directory is not empty");
                std::vector<std::string> dirs = {p};
                for (int i = choose(W, 7), n = 0; i > 0; --i, ++n) {
                    std::string at = dirs[choose(W, dirs.size())] + "/" + (choose(W, 6) == 1 ? "." : "") + "e" + std::to_string(n);
                    switch (choose(W, 5)) {
                    case 0: case 1: fsWriteFile(at, "x", choose(W, 3) ? 0600 : 0400); break;
                    case 2: fsMkdir(at); dirs.push_back(at); break;
                    case 3: fsSymlink(fsReal(choose(W, 2) ? "/sim/out" : "/sim/out/keep"), at); break;
                    default: fsSymlink(fsReal("/sim/none"), at); break;
                    }
                    o.tree.insert(at);
                }
                o.tree = inside(p);
                count("made");
            }
            own.push_back(std::move(o));
            if (choose(W, 2)) sleepNs(3000);
            if (choose(W, 3) == 1) { size_t j = choose(W, own.size()); std::swap(own[j], own.back()); Own x = std::move(own.back()); own.pop_back(); destroy(x); }
        }
        for (auto& o : own) destroy(o);
        (void)w;
    };
    std::vector<std::thread> ts;
    for (int i = 0; i < nt; ++i) ts.emplace_back(worker, i);
    for (auto& t : ts) t.join();
    NoPreempt np;
    for (auto& b : bystanders) { std::string c; SIM_CHECK(fsReadFile(b.first, &c) && c == b.second, "the unrelated file %s was removed or changed", b.first.c_str()); }
    for (auto& k : *kept) SIM_CHECK(fsExists(k.first) && inside(k.first) == k.second, "a directory made to be kept was changed");
    for (auto& f : fsTree("/sim/d")) {
        bool known = bystanders.count(f) || f == "/sim/d" || f == "/sim/d/tmp.XXXXXX";
        for (auto& k : *kept) known |= f == k.first || k.second.count(f);
        for (auto& m : *maybe) known |= injected() && (f == m || f.compare(0, m.size() + 1, m + "/") == 0);
        SIM_CHECK(known, "%s was left behind", f.c_str());
    }
    SIM_CHECK(fsOpenFds() == 0, "%d descriptors were left open", fsOpenFds());
}
