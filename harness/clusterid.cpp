// FileBasedClusterIdMan: the persisted id across failing system calls, concurrent
// readers and writers, and a crash after any operation on the disk.
#include "sim.h"
#include "simfs.h"
#include "common/base/Base.h"
#include "common/clients/meta/FileBasedClusterIdMan.h"

using namespace sim;
using nebula::ClusterID;
using Man = nebula::meta::FileBasedClusterIdMan;

namespace {
struct Call {
    ClusterID v;
    uint64_t inv, ret;                                   // logical times
    size_t logInv, logRet;                               // positions in the log of disk operations
    bool ok, done;
};
struct Disk {                                            // what survives a crash
    std::map<std::string, unsigned long> names;
    struct Data { std::string synced, now; };
    std::map<unsigned long, Data> files;
};
struct Hist {
    std::vector<Call> calls;
    uint64_t clk = 0;
};
std::string bytesOf(ClusterID v) { return std::string((const char*)&v, sizeof v); }
}  // namespace

SIM_SCENARIO(cluster_id) {
    fsInit();
    auto* h = new Hist();
    if (faultsOn()) {
        static const uint32_t r[] = {0, 4000, 15000};
        for (auto* f : {"open_fail", "mkstemp_fail", "write_fail", "short_write", "fsync_fail", "close_fail", "rename_fail", "unlink_fail",
                        "read_fail", "short_read", "mkdir_fail", "stat_fail", "name_taken"})
            setFaultRate(f, r[choose(W, 3)] / (1 + choose(W, 2)));
    }
    std::string dir = "/sim/data", file;
    fsMkdir(dir);
    bool newDir = choose(W, 4) == 1;
    if (newDir) dir += "/meta/storage";
    file = dir + "/cluster.id";
    fsWriteFile("/sim/data/other", "bystander");
    bool had = !newDir && choose(W, 3) != 0;
    const ClusterID init = had ? 0x0101010101010101LL * (1 + choose(W, 100)) : 0;
    Disk start;
    if (had) {
        fsWriteFile(file, bytesOf(init));
        struct stat st; fsStat(file, &st);
        start.names[file] = st.st_ino;
        start.files[st.st_ino] = {bytesOf(init), bytesOf(init)};
    }
    fsLog().on = true;
    int nw = 1 + choose(W, 3), nr = choose(W, 3), each = 1 + choose(W, 3);
    note("writers=%d readers=%d each=%d initial=%llx new-directory=%d", nw, nr, each, (unsigned long long)init, newDir);
    // May a look at this moment give v?  `from`..`to` in logical time.
    auto legal = [=](ClusterID v, uint64_t from, uint64_t to) {
        bool overwritten = false;                        // is the initial value gone for sure
        for (auto& c : h->calls) if (c.done && c.ok && c.ret < from) overwritten = true;
        if (v == init && !overwritten) return true;
        for (auto& c : h->calls) {
            if (c.v != v || c.inv > to) continue;
            bool over = false;
            for (auto& d : h->calls) if (d.done && d.ok && c.done && d.inv > c.ret && d.ret < from) over = true;
            if (!over) return true;
        }
        return false;
    };
    auto writer = [=](int w) {
        for (int k = 0; k < each; ++k) {
            size_t me;
            ClusterID v;
            uint64_t f0;
            {
                NoPreempt np;
                me = h->calls.size();
                v = 0x1122334400000000LL + (w + 1) * 0x01000100 + (k + 1) * 0x00010001;
                h->calls.push_back({v, ++h->clk, 0, fsLog().ops.size(), 0, false, false});
                f0 = 0;
                for (auto* f : {"open_fail", "mkstemp_fail", "write_fail", "short_write", "fsync_fail", "close_fail", "rename_fail", "unlink_fail", "mkdir_fail", "stat_fail", "name_taken"}) f0 += faultCount(f);
            }
            bool ok = Man::persistInFile(v, file);
            NoPreempt np;
            auto& c = h->calls[me];
            c.ok = ok; c.done = true; c.ret = ++h->clk; c.logRet = fsLog().ops.size();
            uint64_t f1 = 0;
            for (auto* f : {"open_fail", "mkstemp_fail", "write_fail", "short_write", "fsync_fail", "close_fail", "rename_fail", "unlink_fail", "mkdir_fail", "stat_fail", "name_taken"}) f1 += faultCount(f);
            SIM_CHECK(ok || f1 != f0, "persisting failed although nothing went wrong");
            sim::count(ok ? "persisted" : "persist_failed");
        }
    };
    auto reader = [=](int) {
        for (int k = 0; k < 2 * each; ++k) {
            uint64_t t0, f0;
            { NoPreempt np; t0 = ++h->clk; f0 = faultCount("open_fail") + faultCount("read_fail") + faultCount("short_read"); }
            ClusterID v = Man::getClusterIdFromFile(file);
            NoPreempt np;
            uint64_t t1 = ++h->clk;
            if (v == 0 && faultCount("open_fail") + faultCount("read_fail") + faultCount("short_read") != f0) continue;
            SIM_CHECK(legal(v, t0, t1), "a reader saw %llx, which is neither the old nor the new id", (unsigned long long)v);
            sim::count("reads");
        }
    };
    {
        std::vector<std::thread> ts;
        for (int i = 0; i < nw; ++i) ts.emplace_back(writer, i);
        for (int i = 0; i < nr; ++i) ts.emplace_back(reader, i);
        for (auto& t : ts) t.join();
    }
    fsLog().on = false;
    setFaults(false);
    {   // no crash: the file shows the last id; nothing else is left behind
        ClusterID v = Man::getClusterIdFromFile(file);
        SIM_CHECK(legal(v, h->clk + 1, h->clk + 1), "the file holds %llx, which is neither the old nor the new id", (unsigned long long)v);
        SIM_CHECK(fsOpenFds() == 0, "%d file descriptors were leaked", fsOpenFds());
        std::string c;
        SIM_CHECK(fsReadFile("/sim/data/other", &c) && c == "bystander", "an unrelated file was changed");
        size_t left = 0;
        auto outs = fsOutsiders();
        for (auto& p : fsTree("/sim")) {
            bool mine = p == file || p == "/sim/data" || p == "/sim/data/other" || p == "/sim/data/meta" || p == dir;
            if (!mine && std::find(outs.begin(), outs.end(), p) == outs.end()) ++left;
        }
        SIM_CHECK(left <= faultCount("unlink_fail"), "%zu files were left behind", left);
    }
    // a crash after each prefix of the disk operations
    auto& ops = fsLog().ops;
    fsMkdir("/sim/after");
    for (size_t p = 0; p <= ops.size(); ++p) {
        Disk d = start;
        std::vector<Disk> meta;                          // names after each metadata operation since the last sync of the directory
        auto settled = d.names;
        std::vector<std::map<std::string, unsigned long>> pend{d.names};
        for (size_t i = 0; i < p; ++i) {
            auto& o = ops[i];
            switch (o.k) {
                case FsOp::CREATE: if (!d.names.count(o.a) || d.names[o.a] != o.ino) { d.names[o.a] = o.ino; d.files[o.ino]; pend.push_back(d.names); } break;
                case FsOp::TRUNC: { unsigned long ino = o.ino ? o.ino : d.names[o.a]; d.files[ino].now.resize(o.off); break; }
                case FsOp::WRITE: { auto& n = d.files[o.ino].now; if (n.size() < o.off + o.data.size()) n.resize(o.off + o.data.size()); n.replace(o.off, o.data.size(), o.data); break; }
                case FsOp::FSYNC: d.files[o.ino].synced = d.files[o.ino].now; break;
                case FsOp::DIRSYNC: if (o.a == dir) pend = {d.names}; break;
                case FsOp::UNLINK: d.names.erase(o.a); pend.push_back(d.names); break;
                case FsOp::RENAME: { auto it = d.names.find(o.a); if (it != d.names.end()) { auto ino = it->second; d.names.erase(o.a); d.names[o.b] = ino; pend.push_back(d.names); } break; }
            }
        }
        // which of the pending changes of names reached the disk, and what of the data did
        auto names = pend[choose(F, pend.size())];
        std::string content; bool present = false;
        auto it = names.find(file);
        if (it != names.end()) {
            present = true;
            auto& dt = d.files[it->second];
            switch (dt.synced == dt.now ? 0 : choose(F, 4)) {
                case 0: content = dt.now; break;
                case 1: content = dt.synced; break;
                case 2: content = dt.now.substr(0, choose(F, dt.now.size() + 1)); break;
                case 3: content.assign(dt.now.size(), 0); break;
            }
            if (dt.synced != dt.now && content != dt.now) sim::count("fault.crash_lost_data");
        }
        if (names != d.names) sim::count("fault.crash_lost_names");
        sim::count("fault.crash");
        fsUnlink("/sim/after/cluster.id");
        if (present) fsWriteFile("/sim/after/cluster.id", content);
        ClusterID v = Man::getClusterIdFromFile("/sim/after/cluster.id");
        // in terms of the log: calls that had returned by then, and calls that had begun
        bool overwritten = false, ok = false;
        // a call that returned when the log stood at p may have returned just before the crash
        for (auto& c : h->calls) if (c.ok && c.logRet <= p) overwritten = true;
        if (v == init && !overwritten) ok = true;
        for (auto& c : h->calls) {
            if (ok || c.v != v || c.logInv > p) continue;
            bool over = false;
            for (auto& e : h->calls) if (e.ok && e.inv > c.ret && e.logRet <= p) over = true;
            ok = !over;
        }
        SIM_CHECK(ok, "after a crash at disk operation %zu of %zu the id is %llx: %s", p, ops.size(), (unsigned long long)v,
                  overwritten ? "an id whose persisting had been reported was lost" : "neither the old nor the new id");
    }
    SIM_CHECK(fsOpenFds() == 0, "%d file descriptors were leaked", fsOpenFds());
}
