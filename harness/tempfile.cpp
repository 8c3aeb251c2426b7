// TempFile (fs/TempFile): ownership of the created file under concurrency and
// failing system calls.
#include "sim.h"
#include "simfs.h"
#include "common/base/Base.h"
#include "common/fs/TempFile.h"
#include <dirent.h>

using namespace sim;
using nebula::fs::TempFile;

namespace {
struct Book {
    std::map<std::string, int> live;       // path -> owner
    std::set<std::string> kept;            // files that must survive
    int made = 0, refused = 0, unlinkFaults = 0;
};
}

SIM_SCENARIO(tempfile) {
    fsInit();
    auto* bk = new Book();
    if (faultsOn()) {
        static const uint32_t r[] = {0, 3000, 15000};
        setFaultRate("mkstemp_fail", r[choose(W, 3)]);
        setFaultRate("open_fail", r[choose(W, 3)]);
        setFaultRate("name_taken", r[choose(W, 3)]);
        setFaultRate("close_fail", r[choose(W, 3)]);
        setFaultRate("unlink_fail", r[choose(W, 3)] / 2);
    }
    // bystanders, among them one named exactly like a template
    fsMkdir("/sim/d");
    std::vector<std::string> templates = {"/sim/d/tmp.XXXXXX", "/sim/d/XXXXXX", "/sim/d/foo.XXXXXX", "/sim/d/tmp.a.XXXXXX"};
    std::set<std::string> bystanders = {"/sim/d/tmp.XXXXXX", "/sim/d/foo.XXXXXX", "/sim/d/tmp.", "/sim/d/keep"};
    for (auto& b : bystanders) fsWriteFile(b, "bystander " + b);
    int nt = 1 + choose(W, 4);
    int each = 1 + choose(W, 4);
    note("threads=%d files-each=%d", nt, each);
    struct Owned { std::unique_ptr<TempFile> t; std::string path; bool del; };
    auto worker = [=](int w) {
        std::vector<Owned> own;
        for (int k = 0; k < each; ++k) {
            std::string tmpl = choose(W, 12) == 1 ? (choose(W, 2) ? "/sim/nodir/x.XXXXXX" : "/sim/d/noplace") : templates[choose(W, 4)];
            bool bad = tmpl.compare(0, 7, "/sim/d/") || tmpl == "/sim/d/noplace";
            bool del = choose(W, 3) != 1;
            bool dflt = del && choose(W, 2);
            std::vector<char> buf(tmpl.begin(), tmpl.end()); buf.push_back(0);
            std::unique_ptr<TempFile> t;
            bool threw = false;
            try {
                t.reset(dflt ? new TempFile(buf.data()) : new TempFile(buf.data(), del));
            } catch (const std::runtime_error&) {
                threw = true;
            }
            SIM_CHECK(std::string(buf.data()) == tmpl, "the caller's template was overwritten");
            memset(buf.data(), '#', buf.size() - 1);                // the object must not depend on it
            if (threw) { NoPreempt np; bk->refused++; continue; }
            SIM_CHECK(!bad, "a temporary file was reported for the impossible template %s", tmpl.c_str());
            std::string p = t->path();
            {
                NoPreempt np;
                SIM_CHECK(p.size() == tmpl.size() && p.compare(0, tmpl.size() - 6, tmpl, 0, tmpl.size() - 6) == 0 && p != tmpl,
                          "path %s does not come from template %s", p.c_str(), tmpl.c_str());
                SIM_CHECK(bk->live.emplace(p, w).second, "two live temporary files share the path %s", p.c_str());
                SIM_CHECK(!bk->kept.count(p), "the path %s of an earlier, kept file was handed out again", p.c_str());
                struct stat st;
                SIM_CHECK(fsStat(p, &st), "the temporary file %s does not exist", p.c_str());
                SIM_CHECK(S_ISREG(st.st_mode) && (st.st_mode & 07777) == 0600, "the temporary file has mode %o, not 0600", st.st_mode & 07777);
                SIM_CHECK(st.st_size == 0, "the temporary file is not empty");
                bk->made++;
            }
            // mark it as ours; nobody else may touch it while it lives
            fsWriteFile(p, "owner " + std::to_string(w) + " " + p, 0600);
            own.push_back({std::move(t), p, del});
            if (choose(W, 2)) usleep(3);
            if (choose(W, 3) == 1) {
                size_t j = choose(W, own.size());
                std::swap(own[j], own.back());
                Owned o = std::move(own.back());
                own.pop_back();
                std::string c;
                SIM_CHECK(fsReadFile(o.path, &c) && c == "owner " + std::to_string(w) + " " + o.path, "a live temporary file was removed or replaced");
                SIM_CHECK(o.path == o.t->path(), "path() changed during the object's life");
                { NoPreempt np; bk->live.erase(o.path); if (!o.del) bk->kept.insert(o.path); }
                o.t.reset();
            }
        }
        for (auto& o : own) {
            std::string c;
            SIM_CHECK(fsReadFile(o.path, &c) && c == "owner " + std::to_string(w) + " " + o.path, "a live temporary file was removed or replaced");
            { NoPreempt np; bk->live.erase(o.path); if (!o.del) bk->kept.insert(o.path); }
            o.t.reset();
        }
    };
    if (nt == 1) {
        worker(0);
    } else {
        std::vector<std::thread> ts;
        for (int i = 0; i < nt; ++i) ts.emplace_back(worker, i);
        for (auto& t : ts) t.join();
    }
    // afterwards: exactly the bystanders and the kept files remain
    NoPreempt np;
    int leftover = 0;
    std::set<std::string> outsiders;
    for (auto& o : fsOutsiders()) {
        outsiders.insert(o);
        std::string c;
        SIM_CHECK(fsReadFile(o, &c) && c == "outsider", "the file %s of another process was removed or changed", o.c_str());
    }
    for (auto& f : fsTree("/sim")) {
        if (outsiders.count(f)) continue;
        if (f == "/sim/d" || bystanders.count(f) || bk->kept.count(f)) continue;
        leftover++;
    }
    for (auto& b : bystanders) { std::string c; SIM_CHECK(fsReadFile(b, &c) && c == "bystander " + b, "the unrelated file %s was removed or changed", b.c_str()); }
    for (auto& k : bk->kept) SIM_CHECK(fsExists(k), "a file created without auto-delete was removed");
    // a failed unlink is the only excuse for a file that stays behind
    uint64_t excuse = faultCount("unlink_fail");
    SIM_CHECK((uint64_t)leftover <= excuse, "%d auto-deleted files still exist (%llu unlink calls were made to fail)", leftover, (unsigned long long)excuse);
    SIM_CHECK(fsOpenFds() == 0, "%d file descriptors were leaked", fsOpenFds());
    uint64_t cf = faultCount("mkstemp_fail") + faultCount("open_fail");
    (void)cf;
    count("tempfiles_made", bk->made);
    count("tempfiles_refused", bk->refused);
}

// Without faults and with usable templates creation always succeeds.
SIM_SCENARIO(tempfile_available) {
    fsInit();
    setFaults(false);
    fsMkdir("/sim/d");
    int nt = 1 + choose(W, 3);
    std::vector<std::thread> ts;
    for (int i = 0; i < nt; ++i) ts.emplace_back([=] {
        for (int k = 0; k < 4; ++k) {
            std::string p;
            try {
                TempFile t("/sim/d/f.XXXXXX");
                p = t.path();
                struct stat st;
                SIM_CHECK(fsStat(p, &st) && (st.st_mode & 07777) == 0600, "no usable temporary file at %s", p.c_str());
            } catch (const std::exception& e) {
                violation("creating a temporary file failed although every system call succeeded: %s", e.what());
            }
        }
    });
    for (auto& t : ts) t.join();
    SIM_CHECK(fsTree("/sim/d").empty(), "temporary files were left behind");
    SIM_CHECK(fsOpenFds() == 0, "%d file descriptors were leaked", fsOpenFds());
}
