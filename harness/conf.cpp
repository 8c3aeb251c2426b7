// Configuration: loading files through a failing disk, while they are replaced.
#include "sim.h"
#include "simfs.h"
#include <sys/syscall.h>
#include <unistd.h>
#include "common/base/Base.h"
#include "common/conf/Configuration.h"

using namespace sim;
using folly::dynamic;
using nebula::conf::Configuration;
using nebula::Status;

namespace {
std::string name(int i) { static const char* odd[] = {"port", "a//b", "#", "with \"quotes\"", "back\\slash", "\xc3\xa9", "", "/", "x y"}; return i < 9 ? odd[i] : "key" + std::to_string(i); }
std::string text() {
    static const char* bits[] = {"a", "http://h:1/p", "#", "//", "/", "\"", "\\", "\n", "}", "{", "\xe4\xb8\xad", " ", "/*", "\\\"", ",", "\t"};
    std::string s;
    for (int n = choose(sim::W, 10) == 1 ? choose(sim::W, 3000) : choose(sim::W, 6); n > 0; --n) s += bits[choose(sim::W, 16)];
    return s;
}
dynamic value(int depth) {
    switch (choose(sim::W, depth ? 8 : 5)) {
    case 0: return (int64_t)choose(sim::W, 100000) - 50000;
    case 1: return (double)choose(sim::W, 1000) / 8 + 0.5;
    case 2: return choose(sim::W, 2) == 1;
    case 3: return text();
    case 4: return choose(sim::W, 4) == 1 ? dynamic(nullptr) : dynamic(INT64_MAX - choose(sim::W, 2));
    case 5: { dynamic a = dynamic::array(); int k = choose(sim::W, 4); for (int n = choose(sim::W, 6); n > 0; --n) { if (k == 0) a.push_back((int64_t)choose(sim::W, 1000) << (choose(sim::W, 2) ? 50 : 0)); else if (k == 1) a.push_back(choose(sim::W, 2) == 1); else if (k == 2) a.push_back(text()); else a.push_back(choose(sim::W, 100) + 0.25); } return a; }
    default: { dynamic o = dynamic::object(); for (int n = choose(sim::W, 5); n > 0; --n) o[name(choose(sim::W, 14))] = value(depth - 1); return o; }
    }
}
// The text of a document, with spaces and comments between its tokens.
struct Writer {
    std::string o;
    bool comments;
    size_t brace = 0;                                    // the last one of the document
    void gap() {
        switch (comments ? choose(sim::W, 12) : choose(sim::W, 6)) {
        case 1: o += ' '; break;
        case 2: o += "\n"; break;
        case 3: o += "\r\n\t"; break;
        case 6: o += "// a comment, \"quoted\" { } # // \\\n"; break;
        case 7: o += "# another 'one' , : \" \\\" }\n"; break;
        case 8: o += "//\n"; break;
        case 9: if (choose(sim::W, 8) == 1) { o += "# "; o.append(choose(sim::W, 9000), 'c'); o += "\n"; } break;
        default: break;
        }
    }
    void write(const dynamic& d) {
        gap();
        if (d.isObject()) {
            o += '{';
            bool first = true;
            for (auto& i : d.items()) { if (!first) { gap(); o += ','; } first = false; gap(); o += folly::toJson(i.first); gap(); o += ':'; write(i.second); }
            gap();
            brace = o.size();
            o += '}';
        } else if (d.isArray()) {
            o += '[';
            bool first = true;
            for (auto& x : d) { if (!first) { gap(); o += ','; } first = false; write(x); }
            gap();
            o += ']';
        } else o += folly::toJson(d);
        gap();
    }
};
struct File { std::string text; bool good; dynamic doc; };
File make(bool there) {
    File f{"", true, dynamic::object()};
    if (!there) return f;
    for (int n = choose(sim::W, 8); n > 0; --n) f.doc[name(choose(sim::W, 14))] = value(2);
    Writer w{"", choose(sim::W, 3) != 0, 0};
    w.write(f.doc);
    f.text = w.o;
    int k = choose(sim::W, 10);
    if (k == 1) f.text = "", f.good = false;
    if (k == 3) { static const char* other[] = {"[1, 2]", "17", "\"port\"", "null", "true # {}", "[{\"a\":1}]"}; f.text = other[choose(sim::W, 6)]; f.good = false; }
    if (k == 4) { f.text = f.text.substr(0, choose(sim::W, (uint32_t)w.brace + 1)); f.good = false; }
    if (k == 5) { f.text += " , 1"; f.good = false; }
    if (k == 6 && choose(sim::W, 3) == 1) { f.text.append(4096 * (1 + choose(sim::W, 3)) - f.text.size() % 4096, ' '); }      // ends with a block
    return f;
}
}  // namespace

SIM_SCENARIO(configuration) {
    fsInit();
    fsMkdir("/sim/etc");
    if (faultsOn()) {
        static const uint32_t r[] = {0, 3000, 12000};
        for (auto* f : {"open_fail", "read_fail", "short_read", "close_fail"}) setFaultRate(f, r[choose(sim::W, 3)]);
    }
    const std::string path = "/sim/etc/nebula.conf";
    auto* files = new std::vector<File>();               // what was under the name, in turn
    auto put = [=](File f) {                             // replaces the file at once
        NoPreempt np;
        fsWriteFile("/sim/etc/.new", f.text);
        syscall(SYS_rename, fsReal("/sim/etc/.new").c_str(), fsReal(path).c_str());
        files->push_back(std::move(f));
    };
    put(make(true));
    std::thread editor;
    int edits = choose(sim::W, 4);
    if (edits) editor = std::thread([=] { for (int i = 0; i < edits; ++i) { sleepNs(range(T, 1000, 300000)); File f; { NoPreempt np; f = make(true); } put(f); } });
    auto load = [&] {
        Configuration conf;
        dynamic have = dynamic::object();
        auto look = [&] {
            // every item answers by its type, and only by it
            for (auto& it : have.items()) {
                std::string k = it.first.getString();
                const dynamic& v = it.second;
                int64_t i = -7; double d = -7; bool b = false; std::string s = "before"; Configuration sub;
                auto check = [&](const char* what, const Status& st, bool is, bool same) { SIM_CHECK(st.ok() == is, "item '%s' (%s) asked for as %s: %s", k.c_str(), folly::toJson(v).c_str(), what, st.toString().c_str()); SIM_CHECK(same, "item '%s' asked for as %s came as another value", k.c_str(), what); };
                auto st = conf.fetchAsInt(k.c_str(), i); check("an integer", st, v.isInt(), v.isInt() ? i == v.getInt() : i == -7);
                st = conf.fetchAsDouble(k.c_str(), d); check("a double", st, v.isDouble(), v.isDouble() ? d == v.getDouble() : d == -7);
                st = conf.fetchAsBool(k.c_str(), b); check("a bool", st, v.isBool(), v.isBool() ? b == v.getBool() : !b);
                st = conf.fetchAsString(k.c_str(), s); check("a string", st, v.isString(), v.isString() ? s == v.getString() : s == "before");
                st = conf.fetchAsSubConf(k.c_str(), sub); check("an object", st, v.isObject(), folly::parseJson(sub.dumpToString()) == (v.isObject() ? v : dynamic(dynamic::object())));
                if (v.isArray() && !v.empty()) {
                    std::vector<int64_t> iv; std::vector<double> dv; std::vector<bool> bv; std::vector<std::string> sv;
                    dynamic got = dynamic::array();
                    if (v[0].isInt()) { st = conf.fetchAsIntArray(k.c_str(), iv); for (auto x : iv) got.push_back(x); }
                    else if (v[0].isDouble()) { st = conf.fetchAsDoubleArray(k.c_str(), dv); for (auto x : dv) got.push_back(x); }
                    else if (v[0].isBool()) { st = conf.fetchAsBoolArray(k.c_str(), bv); for (bool x : bv) got.push_back(x); }
                    else { st = conf.fetchAsStringArray(k.c_str(), sv); for (auto& x : sv) got.push_back(x); }
                    SIM_CHECK(st.ok() && got == v, "array '%s' came as %s", k.c_str(), folly::toJson(got).c_str());
                } else if (!v.isArray()) { std::vector<std::string> sv; st = conf.fetchAsStringArray(k.c_str(), sv); SIM_CHECK(!st.ok() && sv.empty(), "item '%s' is no array but was given as one", k.c_str()); }
            }
            int64_t i = -7;
            auto st = conf.fetchAsInt("no such item", i);
            SIM_CHECK(!st.ok() && i == -7, "an item that is not there was found");
            std::set<std::string> keys, want;
            for (auto& it : have.items()) want.insert(it.first.getString());
            st = conf.forEachKey([&](const std::string& k) { keys.insert(k); });
            SIM_CHECK(st.ok() && keys == want, "%zu keys were listed of %zu", keys.size(), want.size());
            SIM_CHECK(folly::parseJson(conf.dumpToString()) == have, "the configuration prints as another one");
        };
        for (int n = 1 + choose(sim::W, 3); n > 0; --n) {
            size_t from; uint64_t f0;
            { NoPreempt np; from = files->size() - 1; f0 = faultCount("open_fail") + faultCount("read_fail"); }
            Status st = Status::OK();
            try { st = conf.parseFromFile(path); } catch (std::exception& e) { violation("loading a configuration file threw: %s", e.what()); }
            NoPreempt np;
            size_t to = files->size() - 1;
            bool faulted = faultCount("open_fail") + faultCount("read_fail") > f0;
            if (st.ok()) {
                dynamic got = folly::parseJson(conf.dumpToString());
                bool fine = false;
                for (size_t i = from; i <= to; ++i) fine |= (*files)[i].good && (*files)[i].doc == got;
                SIM_CHECK(fine, "a file of %zu bytes (%s) was loaded as something else: %s", (*files)[to].text.size(), (*files)[to].good ? "proper" : "not proper", conf.dumpToString().c_str());
                have = got;
                count("loaded");
            } else {
                bool some = faulted;
                for (size_t i = from; i <= to; ++i) some |= !(*files)[i].good;
                SIM_CHECK(some, "a proper file of %zu bytes was refused: %s; it holds %s", (*files)[to].text.size(), st.toString().c_str(), folly::toJson(dynamic((*files)[to].text.substr(0, 300))).c_str());
                count("refused");
            }
            look();
            if (choose(sim::W, 4) == 1) {                     // changed in memory only
                bool str = have.count("key9") == 0 || have["key9"].isString();
                auto s2 = conf.upsertStringField("key9", "set");
                SIM_CHECK(s2.ok() == str, "setting a string item: %s", s2.toString().c_str());
                if (str) have["key9"] = "set";
                look();
            }
        }
        Configuration none;
        auto st = none.parseFromFile("/sim/etc/not there");
        SIM_CHECK(!st.ok(), "a file that is not there was loaded");
    };
    int nt = 1 + choose(sim::W, 2);
    std::vector<std::thread> ts;
    for (int t = 1; t < nt; ++t) ts.emplace_back(load);
    load();
    for (auto& t : ts) t.join();
    if (editor.joinable()) editor.join();
    SIM_CHECK(fsOpenFds() == 0, "%d file descriptors were leaked", fsOpenFds());
}
