// Data on the wire: the hand-written Thrift codecs of /repo against peers that know
// nothing but the interface files, over a link that cuts, repeats, mixes and damages
// messages, between nodes of mixed versions and with failing allocations.
#include "sim.h"
#include <algorithm>
#include <cmath>
#include <deque>
#include <functional>
#include <map>
#include <new>
#include "common/base/Base.h"
#include "common/datatypes/ValueOps.inl"
#include "common/datatypes/HostAddrOps.inl"
#include "common/datatypes/KeyValueOps.inl"
#include "common/graph/AuthResponseOps.inl"
#include "common/graph/ExecutionResponseOps.inl"
#include "common/graph/PairOps.inl"
#include "common/graph/PlanDescriptionOps.inl"
#include "common/graph/PlanNodeBranchInfoOps.inl"
#include "common/graph/PlanNodeDescriptionOps.inl"
#include "common/graph/ProfilingStatsOps.inl"

using namespace sim;
using namespace nebula;
using apache::thrift::Cpp2Ops;
using apache::thrift::Proto;
using apache::thrift::TType;
using apache::thrift::WireReader;
using apache::thrift::WireWriter;

namespace {
// The interface, as the interface files say.
struct IField { int id; std::string req, type, name; };
struct IStruct { bool uni = false; std::vector<IField> f; };
bool inSet = false;
std::map<std::string, IStruct> idl;
std::map<std::string, std::map<std::string, int>> enums;
void loadIdl() {
    if (!idl.empty()) return;
    std::istringstream in(
#include "idl.inc"
    );
    std::string l, cur; bool en = false;
    while (std::getline(in, l)) {
        if (l.empty()) continue;
        std::istringstream w(l); std::string a, b, c, d; w >> a >> b >> c >> d;
        if (a == "struct" || a == "union") { cur = b; en = false; idl[cur].uni = a == "union"; }
        else if (a == "enum") { cur = b; en = true; }
        else if (en) enums[cur][b] = atoi(a.c_str());
        else idl[cur].f.push_back({atoi(a.c_str()), b, c, d});
    }
}
struct Node {
    char t = 0; int64_t i = 0; double d = 0; std::string s; std::string name;
    std::vector<Node> e;                                                        // of lists and sets; keys and values in turn of maps
    std::map<std::string, Node> f;                                              // of structs
    std::string key() const {
        std::string r(1, t);
        switch (t) {
        case 'd': { char b[9] = {0}; memcpy(b, &d, 8); return r + std::string(b, 8); }
        case 's': return r + std::to_string(s.size()) + ":" + s;
        case 'S': for (auto& x : f) r += x.first + "=" + x.second.key() + ";"; return r + "}";
        case 'L': for (auto& x : e) r += x.key() + ","; return r + "]";
        case 'T': case 'M': {
            std::vector<std::string> k; size_t st = t == 'M' ? 2 : 1;
            for (size_t j = 0; j + st <= e.size(); j += st) k.push_back(t == 'M' ? e[j].key() + ">" + e[j + 1].key() : e[j].key());
            std::sort(k.begin(), k.end()); for (auto& x : k) r += x + ","; return r + "]";
        }
        default: return r + std::to_string(i);
        }
    }
    std::string show() const {
        switch (t) {
        case 'd': return std::to_string(d);
        case 's': { std::string r = "\""; for (char c : s.substr(0, 40)) r += c >= 32 && c < 127 ? c : '.'; return r + (s.size() > 40 ? "..." + std::to_string(s.size()) : "") + "\""; }
        case 'S': { std::string r = name + "{"; for (auto& x : f) r += x.first + ":" + x.second.show() + " "; return r + "}"; }
        case 'L': case 'T': case 'M': { std::string r = "["; for (auto& x : e) r += x.show() + " "; return r + "]"; }
        default: return std::to_string(i);
        }
    }
    bool operator==(const Node& o) const { return key() == o.key(); }
};
TType ttOf(char c) {
    switch (c) { case 'b': return TType::T_BOOL; case '1': return TType::T_BYTE; case '2': return TType::T_I16; case '4': case 'E': return TType::T_I32; case '8': return TType::T_I64; case 'd': return TType::T_DOUBLE; case 's': return TType::T_STRING; case 'S': return TType::T_STRUCT; case 'L': return TType::T_LIST; case 'T': return TType::T_SET; default: return TType::T_MAP; }
}
size_t typeEnd(const std::string& t, size_t p) {
    switch (t[p]) { case 'L': case 'T': return typeEnd(t, p + 1); case 'M': return typeEnd(t, typeEnd(t, p + 1)); case 'S': case 'E': return t.find(';', p) + 1; default: return p + 1; }
}
std::string structName(const std::string& t) { return t.substr(1, t.size() - 2); }

// A peer that speaks by the interface alone.
struct Oddities { bool shuffle = false, unknown = false; };
void writeUnknown(WireWriter& w, Proto p) {
    int id = 40 + choose(W, 300);
    std::string nm = "later" + std::to_string(id);
    switch (choose(W, 7)) {
    case 0: w.writeFieldBegin(nm.c_str(), TType::T_BOOL, id); w.writeBool(choose(W, 2)); break;
    case 1: w.writeFieldBegin(nm.c_str(), TType::T_I64, id); w.writeI64(-5); break;
    case 2: w.writeFieldBegin(nm.c_str(), TType::T_STRING, id); w.writeBinary("newer"); break;
    case 3: w.writeFieldBegin(nm.c_str(), TType::T_STRUCT, id); w.writeStructBegin("Later"); w.writeFieldBegin("a", TType::T_I32, 1); w.writeI32(1); w.writeFieldStop(); w.writeStructEnd(); break;
    case 4: w.writeFieldBegin(nm.c_str(), TType::T_LIST, id); w.writeListBegin(TType::T_STRING, 2); w.writeBinary("x"); w.writeBinary(""); break;
    case 5: w.writeFieldBegin(nm.c_str(), TType::T_MAP, id); w.writeMapBegin(TType::T_STRING, TType::T_BOOL, 1); w.writeBinary("k"); w.writeBool(true); break;
    default: w.writeFieldBegin(nm.c_str(), TType::T_DOUBLE, id); w.writeDouble(0.5); break;
    }
    w.writeFieldEnd();
}
void put(WireWriter& w, Proto p, const Node& n, const std::string& type, const Oddities& o) {
    switch (type[0]) {
    case 'b': w.writeBool(n.i); break;
    case '1': w.writeByte(n.i); break;
    case '2': w.writeI16(n.i); break;
    case '4': case 'E': w.writeI32(n.i); break;
    case '8': w.writeI64(n.i); break;
    case 'd': w.writeDouble(n.d); break;
    case 's': w.writeBinary(n.s); break;
    case 'L': case 'T': { auto et = type.substr(1); w.writeListBegin(ttOf(et[0]), n.e.size()); for (auto& x : n.e) put(w, p, x, et, o); break; }
    case 'M': { size_t m = typeEnd(type, 1); auto kt = type.substr(1, m - 1), vt = type.substr(m); w.writeMapBegin(ttOf(kt[0]), ttOf(vt[0]), n.e.size() / 2); for (size_t j = 0; j < n.e.size(); j += 2) { put(w, p, n.e[j], kt, o); put(w, p, n.e[j + 1], vt, o); } break; }
    default: {
        auto& st = idl[structName(type)];
        w.writeStructBegin("");
        std::vector<const IField*> fs; for (auto& x : st.f) if (n.f.count(x.name)) fs.push_back(&x);
        if (o.shuffle && choose(W, 2)) for (size_t j = fs.size(); j > 1; j--) std::swap(fs[j - 1], fs[choose(W, j)]);
        for (auto x : fs) {
            if (o.unknown && !st.uni && choose(W, 6) == 1) writeUnknown(w, p);
            w.writeFieldBegin(x->name.c_str(), ttOf(x->type[0]), x->id); put(w, p, n.f.at(x->name), x->type, o); w.writeFieldEnd();
        }
        if (o.unknown && !st.uni && choose(W, 4) == 1) writeUnknown(w, p);
        w.writeFieldStop(); w.writeStructEnd();
    }
    }
}
struct Bad { std::string why; };
Node get(WireReader& r, const std::string& type) {
    Node n; n.t = type[0] == 'E' ? '4' : type[0];
    switch (type[0]) {
    case 'b': { bool b; r.readBool(b); n.i = b; break; }
    case '1': { int8_t b; r.readByte(b); n.i = b; break; }
    case '2': { int16_t b; r.readI16(b); n.i = b; break; }
    case '4': case 'E': { int32_t b; r.readI32(b); n.i = b; break; }
    case '8': r.readI64(n.i); break;
    case 'd': r.readDouble(n.d); break;
    case 's': r.readBinary(n.s); break;
    case 'L': case 'T': { auto et = type.substr(1); TType t; uint32_t c; r.readListBegin(t, c); if (c && t != ttOf(et[0])) throw Bad{"elements of a wrong type"}; while (c--) n.e.push_back(get(r, et)); break; }
    case 'M': { size_t m = typeEnd(type, 1); auto kt = type.substr(1, m - 1), vt = type.substr(m); TType a, b; uint32_t c; r.readMapBegin(a, b, c); if (c && (a != ttOf(kt[0]) || b != ttOf(vt[0]))) throw Bad{"entries of wrong types"}; while (c--) { n.e.push_back(get(r, kt)); n.e.push_back(get(r, vt)); } break; }
    default: {
        n.name = structName(type);
        auto& st = idl[n.name];
        r.structBegin();
        for (;;) {
            TType t; int16_t id; folly::StringPiece nm; r.fieldBegin(t, id, nm);
            if (t == TType::T_STOP) break;
            const IField* x = nullptr;
            for (auto& y : st.f) if (r.kUsesFieldNames() ? nm == y.name : id == y.id) x = &y;
            if (!x) throw Bad{"field " + std::to_string(id) + " " + (r.kUsesFieldNames() ? nm.str() : "") + " of " + n.name + " is not in the interface"};
            if (t != ttOf(x->type[0])) throw Bad{"field " + x->name + " of " + n.name + " has a wrong type"};
            if (n.f.count(x->name)) throw Bad{"field " + x->name + " of " + n.name + " comes twice"};
            n.f[x->name] = get(r, x->type);
        }
        r.structEnd();
        if (st.uni && n.f.size() > 1) throw Bad{"a union with several members"};
        for (auto& y : st.f) if (y.req == "required" && !n.f.count(y.name)) throw Bad{"required field " + y.name + " of " + n.name + " is missing"};
    }
    }
    return n;
}

// What an object says, by the names of the interface.
Node num(char t, int64_t v) { Node n; n.t = t; n.i = v; return n; }
Node str(const std::string& v) { Node n; n.t = 's'; n.s = v; return n; }
Node st(const char* name) { Node n; n.t = 'S'; n.name = name; return n; }
Node nodeOf(const Value& v);
template <class T> Node listOf(const std::vector<T>& v);
Node props(const std::unordered_map<std::string, Value>& m) { Node n; n.t = 'M'; for (auto& x : m) { n.e.push_back(str(x.first)); n.e.push_back(nodeOf(x.second)); } return n; }
Node nodeOf(const std::string& s) { return str(s); }
Node nodeOf(int64_t v) { return num('8', v); }
Node nodeOf(const Date& d) { Node n = st("Date"); n.f["year"] = num('2', d.year); n.f["month"] = num('1', d.month); n.f["day"] = num('1', d.day); return n; }
Node nodeOf(const Time& t) { Node n = st("Time"); n.f["hour"] = num('1', t.hour); n.f["minute"] = num('1', t.minute); n.f["sec"] = num('1', t.sec); n.f["microsec"] = num('4', t.microsec); return n; }
Node nodeOf(const DateTime& t) { Node n = st("DateTime"); n.f["year"] = num('2', t.year); n.f["month"] = num('1', t.month); n.f["day"] = num('1', t.day); n.f["hour"] = num('1', t.hour); n.f["minute"] = num('1', t.minute); n.f["sec"] = num('1', t.sec); n.f["microsec"] = num('4', t.microsec); return n; }
Node nodeOf(const Tag& t) { Node n = st("Tag"); n.f["name"] = str(t.name); n.f["props"] = props(t.props); return n; }
Node nodeOf(const Vertex& v) { Node n = st("Vertex"); n.f["vid"] = nodeOf(v.vid); n.f["tags"] = listOf(v.tags); return n; }
Node nodeOf(const Edge& e) { Node n = st("Edge"); n.f["src"] = nodeOf(e.src); n.f["dst"] = nodeOf(e.dst); n.f["type"] = num('4', (e.type > 0) - (e.type < 0)); n.f["name"] = str(e.name); n.f["ranking"] = num('8', e.ranking); n.f["props"] = props(e.props); return n; }
Node nodeOf(const Step& s) { Node n = st("Step"); n.f["dst"] = nodeOf(s.dst); n.f["type"] = num('4', (s.type > 0) - (s.type < 0)); n.f["name"] = str(s.name); n.f["ranking"] = num('8', s.ranking); n.f["props"] = props(s.props); return n; }
Node nodeOf(const Path& p) { Node n = st("Path"); n.f["src"] = nodeOf(p.src); n.f["steps"] = listOf(p.steps); return n; }
Node nodeOf(const List& l) { Node n = st("NList"); n.f["values"] = listOf(l.values); return n; }
Node nodeOf(const Map& m) { Node n = st("NMap"); n.f["kvs"] = props(m.kvs); return n; }
Node nodeOf(const Set& s) { Node n = st("NSet"), x; x.t = 'T'; for (auto& v : s.values) x.e.push_back(nodeOf(v)); n.f["values"] = x; return n; }
Node nodeOf(const DataSet& d) { Node n = st("DataSet"); n.f["column_names"] = listOf(d.colNames); n.f["rows"] = listOf(d.rows); return n; }
Node nodeOf(const HostAddr& h) { Node n = st("HostAddr"); n.f["host"] = str(h.host); n.f["port"] = num('4', h.port); return n; }
Node nodeOf(const KeyValue& k) { Node n = st("KeyValue"); n.f["key"] = str(k.key); n.f["value"] = str(k.value); return n; }
Node nodeOf(const Value& v) {
    Node n = st("Value");
    switch (v.type()) {
    case Value::Type::__EMPTY__: break;
    case Value::Type::NULLVALUE: n.f["nVal"] = num('4', (int)v.getNull()); break;
    case Value::Type::BOOL: n.f["bVal"] = num('b', v.getBool()); break;
    case Value::Type::INT: n.f["iVal"] = num('8', v.getInt()); break;
    case Value::Type::FLOAT: { Node d; d.t = 'd'; d.d = v.getFloat(); n.f["fVal"] = d; break; }
    case Value::Type::STRING: n.f["sVal"] = str(v.getStr()); break;
    case Value::Type::DATE: n.f["dVal"] = nodeOf(v.getDate()); break;
    case Value::Type::TIME: n.f["tVal"] = nodeOf(v.getTime()); break;
    case Value::Type::DATETIME: n.f["dtVal"] = nodeOf(v.getDateTime()); break;
    case Value::Type::VERTEX: n.f["vVal"] = nodeOf(v.getVertex()); break;
    case Value::Type::EDGE: n.f["eVal"] = nodeOf(v.getEdge()); break;
    case Value::Type::PATH: n.f["pVal"] = nodeOf(v.getPath()); break;
    case Value::Type::LIST: n.f["lVal"] = nodeOf(v.getList()); break;
    case Value::Type::MAP: n.f["mVal"] = nodeOf(v.getMap()); break;
    case Value::Type::SET: n.f["uVal"] = nodeOf(v.getSet()); break;
    case Value::Type::DATASET: n.f["gVal"] = nodeOf(v.getDataSet()); break;
    }
    return n;
}
Node nodeOf(const Pair& p) { Node n = st("Pair"); n.f["key"] = str(p.key); n.f["value"] = str(p.value); return n; }
Node nodeOf(const ProfilingStats& p) {
    Node n = st("ProfilingStats"); n.f["rows"] = num('8', p.rows); n.f["exec_duration_in_us"] = num('8', p.execDurationInUs); n.f["total_duration_in_us"] = num('8', p.totalDurationInUs);
    if (p.otherStats) { Node m; m.t = 'M'; for (auto& x : *p.otherStats) { m.e.push_back(str(x.first)); m.e.push_back(str(x.second)); } n.f["other_stats"] = m; }
    return n;
}
Node nodeOf(const PlanNodeBranchInfo& p) { Node n = st("PlanNodeBranchInfo"); n.f["is_do_branch"] = num('b', p.isDoBranch); n.f["condition_node_id"] = num('8', p.conditionNodeId); return n; }
Node nodeOf(const PlanNodeDescription& p) {
    Node n = st("PlanNodeDescription"); n.f["name"] = str(p.name); n.f["id"] = num('8', p.id); n.f["output_var"] = str(p.outputVar);
    if (p.description) n.f["description"] = listOf(*p.description);
    if (p.profiles) n.f["profiles"] = listOf(*p.profiles);
    if (p.branchInfo) n.f["branch_info"] = nodeOf(*p.branchInfo);
    if (p.dependencies) n.f["dependencies"] = listOf(*p.dependencies);
    return n;
}
Node nodeOf(const PlanDescription& p) {
    Node n = st("PlanDescription"), m; m.t = 'M';
    for (auto& x : p.nodeIndexMap) { m.e.push_back(num('8', x.first)); m.e.push_back(num('8', x.second)); }
    n.f["plan_node_descs"] = listOf(p.planNodeDescs); n.f["node_index_map"] = m; n.f["format"] = str(p.format); n.f["optimize_time_in_us"] = num('4', p.optimize_time_in_us);
    return n;
}
Node nodeOf(const ExecutionResponse& r) {
    Node n = st("ExecutionResponse"); n.f["error_code"] = num('4', (int)r.errorCode); n.f["latency_in_us"] = num('4', r.latencyInUs);
    if (r.data) n.f["data"] = nodeOf(*r.data);
    if (r.spaceName) n.f["space_name"] = str(*r.spaceName);
    if (r.errorMsg) n.f["error_msg"] = str(*r.errorMsg);
    if (r.planDesc) n.f["plan_desc"] = nodeOf(*r.planDesc);
    if (r.comment) n.f["comment"] = str(*r.comment);
    return n;
}
Node nodeOf(const AuthResponse& r) {
    Node n = st("AuthResponse"); n.f["error_code"] = num('4', (int)r.errorCode);
    if (r.errorMsg) n.f["error_msg"] = str(*r.errorMsg);
    if (r.sessionId) n.f["session_id"] = num('8', *r.sessionId);
    if (r.timeZoneOffsetSeconds) n.f["time_zone_offset_seconds"] = num('4', *r.timeZoneOffsetSeconds);
    if (r.timeZoneName) n.f["time_zone_name"] = str(*r.timeZoneName);
    return n;
}
template <class T> Node listOf(const std::vector<T>& v) { Node n; n.t = 'L'; for (auto& x : v) n.e.push_back(nodeOf(x)); return n; }

// Some object of each type. `plain' ones hold nothing whose equality is odd.
bool plain = false;
std::string someStr() {
    static const char* fix[] = {"", "a", "name", "\xe4\xb8\xad\xe6\x96\x87", "{}\"\\"};
    int k = choose(W, 8);
    if (k < 5) return fix[k];
    std::string s(choose(W, 3) ? choose(W, 20) : 120 + choose(W, 200), 0);
    for (auto& c : s) c = (char)choose(W, 256);
    return s;
}
int64_t someInt() {
    static const int64_t fix[] = {0, 1, -1, 63, 64, -64, -65, 127, 128, 8191, 8192, INT32_MAX, INT32_MIN, (int64_t)INT32_MAX + 1, INT64_MAX, INT64_MIN};
    return choose(W, 3) ? fix[choose(W, 16)] : (int64_t)((uint64_t)choose(W, 1u << 31) << 33 ^ (uint64_t)choose(W, 1u << 31) << 5);
}
int budget = 0;
size_t someLen(int depth) {
    static const int k[] = {0, 1, 2, 3, 14, 15, 16, 40};
    int n = depth <= 0 ? choose(W, 2) : choose(W, 12) == 1 ? k[choose(W, 8)] : choose(W, 4);
    return budget < n ? 0 : (budget -= n, n);
}
Value someValue(int depth);
std::unordered_map<std::string, Value> someProps(int depth) { std::unordered_map<std::string, Value> m; for (size_t n = someLen(depth); n--;) m[someStr()] = someValue(depth - 1); return m; }
template <class T> std::vector<T> someList(int depth, T (*f)(int)) { std::vector<T> v; for (size_t n = someLen(depth); n--;) v.push_back(f(depth - 1)); return v; }
Date someDate(int) { return Date((int16_t)choose(W, 65536), choose(W, 128), choose(W, 3) ? choose(W, 128) : -(int)choose(W, 128)); }
Time someTime(int) { return Time((int8_t)choose(W, 24), choose(W, 60), choose(W, 60), choose(W, 1000000)); }
DateTime someDateTime(int) { return DateTime((int16_t)choose(W, 65536), choose(W, 13), choose(W, 32), choose(W, 24), choose(W, 60), choose(W, 60), choose(W, 1000000)); }
Tag someTag(int d) { return Tag(someStr(), someProps(d)); }
Vertex someVertex(int d) { return Vertex(someValue(choose(W, 2) ? 0 : d - 1), someList(d, someTag)); }
Edge someEdge(int d) { return Edge(someValue(0), someValue(0), (EdgeType)someInt(), someStr(), someInt(), someProps(d)); }
Step someStep(int d) { return Step(someVertex(d - 1), (EdgeType)someInt(), someStr(), someInt(), someProps(d)); }
Path somePath(int d) { return Path(someVertex(d), someList(d, someStep)); }
List someNList(int d) { return List(someList(d, someValue)); }
Map someMap(int d) { Map m; m.kvs = someProps(d); return m; }
Set someSet(int d) { Set s; bool was = plain; plain = true; for (size_t n = someLen(1); n--;) { switch (choose(W, 3)) { case 0: s.values.insert(Value(someInt())); break; case 1: s.values.insert(Value(someStr())); break; default: { int deep = choose(W, 4) ? 0 : 1; inSet |= deep; s.values.insert(someValue(deep)); } } } plain = was; return s; }
DataSet someDataSet(int d) { DataSet r; for (size_t n = someLen(d); n--;) r.colNames.push_back(someStr()); for (size_t n = someLen(d); n--;) r.rows.push_back(someNList(d - 1)); return r; }
Value someValue(int d) {
    switch (choose(W, d > 0 ? 16 : 9)) {
    case 0: return Value();
    case 1: { static const NullType k[] = {NullType::__NULL__, NullType::NaN, NullType::BAD_DATA, NullType::BAD_TYPE, NullType::ERR_OVERFLOW, NullType::UNKNOWN_PROP, NullType::DIV_BY_ZERO, NullType::OUT_OF_RANGE}; return plain ? Value(someInt()) : Value(k[choose(W, 8)]); }
    case 2: return Value(choose(W, 2) == 1);
    case 3: return Value(someInt());
    case 4: { static const double k[] = {0.0, -0.0, 1.5, -1e300, 5e-324, INFINITY, -INFINITY, NAN, 3.14}; return plain ? Value(someStr()) : Value(k[choose(W, 9)]); }
    case 5: return Value(someStr());
    case 6: return Value(someDate(d));
    case 7: return Value(someTime(d));
    case 8: return Value(someDateTime(d));
    case 9: return Value(someVertex(d - 1));
    case 10: return Value(someEdge(d - 1));
    case 11: return Value(somePath(d - 1));
    case 12: return Value(someNList(d - 1));
    case 13: return Value(someMap(d - 1));
    case 14: return Value(someSet(d - 1));
    default: return Value(someDataSet(d - 1));
    }
}
ErrorCode someCode() { auto& m = enums["ErrorCode"]; auto it = m.begin(); std::advance(it, choose(W, m.size())); return (ErrorCode)it->second; }
std::unique_ptr<std::string> maybeStr() { return choose(W, 2) ? std::make_unique<std::string>(someStr()) : nullptr; }
Pair somePair(int) { Pair p; p.key = someStr(); p.value = someStr(); return p; }
ProfilingStats someStats(int) {
    ProfilingStats p; p.rows = someInt(); p.execDurationInUs = someInt(); p.totalDurationInUs = someInt();
    if (choose(W, 2)) { p.otherStats = std::make_unique<std::unordered_map<std::string, std::string>>(); for (size_t n = someLen(1); n--;) (*p.otherStats)[someStr()] = someStr(); }
    return p;
}
PlanNodeBranchInfo someBranch(int) { PlanNodeBranchInfo b; b.isDoBranch = choose(W, 2); b.conditionNodeId = someInt(); return b; }
PlanNodeDescription someNode(int d) {
    PlanNodeDescription p; p.name = someStr(); p.id = someInt(); p.outputVar = someStr();
    if (choose(W, 2)) p.description = std::make_unique<std::vector<Pair>>(someList(1, somePair));
    if (choose(W, 2)) p.profiles = std::make_unique<std::vector<ProfilingStats>>(someList(1, someStats));
    if (choose(W, 2)) p.branchInfo = std::make_unique<PlanNodeBranchInfo>(someBranch(d));
    if (choose(W, 2)) { p.dependencies = std::make_unique<std::vector<int64_t>>(); for (size_t n = someLen(1); n--;) p.dependencies->push_back(someInt()); }
    return p;
}
PlanDescription somePlan(int d) {
    PlanDescription p; p.planNodeDescs = someList(1, someNode);
    for (size_t n = someLen(1); n--;) p.nodeIndexMap[someInt()] = someInt();
    p.format = someStr(); p.optimize_time_in_us = (int32_t)someInt();
    return p;
}
ExecutionResponse someExec(int d) {
    ExecutionResponse r; r.errorCode = someCode(); r.latencyInUs = (int32_t)someInt();
    if (choose(W, 2)) r.data = std::make_unique<DataSet>(someDataSet(d));
    r.spaceName = maybeStr(); r.errorMsg = maybeStr(); r.comment = maybeStr();
    if (choose(W, 2)) r.planDesc = std::make_unique<PlanDescription>(somePlan(d));
    return r;
}
AuthResponse someAuth(int) {
    AuthResponse r; r.errorCode = someCode(); r.errorMsg = maybeStr(); r.timeZoneName = maybeStr();
    if (choose(W, 2)) r.sessionId = std::make_unique<int64_t>(someInt());
    if (choose(W, 2)) r.timeZoneOffsetSeconds = std::make_unique<int32_t>((int32_t)someInt());
    return r;
}
HostAddr someHost(int) { return HostAddr(someStr(), (Port)someInt()); }
KeyValue someKV(int) { return KeyValue(std::make_pair(someStr(), someStr())); }

const char* protoName[] = {"compact", "binary", "named"};
Node defaults(const std::string& type) {
    Node n; n.t = type[0] == 'E' ? '4' : type[0];
    if (type[0] == 'S') { n.name = structName(type); if (!idl[n.name].uni) for (auto& x : idl[n.name].f) if (x.req != "optional") n.f[x.name] = defaults(x.type); if (n.name == "Date" || n.name == "DateTime") n.f["month"].i = n.f["day"].i = 1; }
    return n;
}
// An older peer leaves fields out; what is left of `n', and what it then means.
bool thin(Node& sent, Node& meant, const std::string& type) {
    bool req = false;
    if (type[0] == 'S' && !idl[structName(type)].uni) {
        for (auto& x : idl[structName(type)].f) {
            if (!sent.f.count(x.name)) continue;
            if (choose(W, 6) == 1) { sent.f.erase(x.name); if (x.req == "required") req = true; if (x.req == "optional") meant.f.erase(x.name); else { meant.f[x.name] = defaults(x.type); if (type != "STime;" && (x.name == "month" || x.name == "day")) meant.f[x.name].i = 1; } }
            else if (thin(sent.f[x.name], meant.f[x.name], x.type)) req = true;
        }
    } else if (type[0] == 'S') { for (auto& x : idl[structName(type)].f) if (sent.f.count(x.name) && thin(sent.f[x.name], meant.f[x.name], x.type)) req = true; }
    else if (type[0] == 'L') { for (size_t j = 0; j < sent.e.size(); j++) if (thin(sent.e[j], meant.e[j], type.substr(1))) req = true; }
    return req;
}
void damage(std::string& b) {
    for (int n = 1 + choose(W, 3); n-- && !b.empty();) switch (choose(W, 4)) {
    case 0: b[choose(W, b.size())] ^= 1 << choose(W, 8); break;
    case 1: b[choose(W, b.size())] = (char)choose(W, 256); break;
    case 2: b.erase(choose(W, b.size()), 1 + choose(W, 4)); break;
    default: b.insert(choose(W, b.size()), 1, (char)choose(W, 256)); break;
    }
}
template <class T> bool same(const T&, const T&) { return true; }
template <class T>
struct Kind_ {
    static void run(const char* name, T (*some)(int), bool comparable, int depth) {
        std::string type = std::string("S") + name + ";";
        inSet = false; budget = 60;
        T x = some(depth);
        const Node want = nodeOf(x);
        Proto p = (Proto)choose(W, 3);
        std::string bytes;
        { WireWriter w(p, &bytes); Cpp2Ops<T>::write(&w, &x); SIM_CHECK(w.balanced(), "a struct of %s does not end", name);
          Cpp2Ops<T>::serializedSizeZC(&w, &x); }
        SIM_CHECK(nodeOf(x) == want, "writing changed it");
        count(protoName[(int)p]);
        // The peer understands it.
        try {
            WireReader r(p, bytes); Node n = get(r, type);
            SIM_CHECK(n == want, "the peer understood %s (%s): %s instead of %s", name, protoName[(int)p], n.show().substr(0, 300).c_str(), want.show().substr(0, 300).c_str());
            SIM_CHECK(r.pos() == bytes.data() + bytes.size(), "%s: the peer did not need it all", name);
        } catch (Bad& b) { violation("%s (%s): %s", name, protoName[(int)p], b.why.c_str());
        } catch (std::exception& e) { violation("%s (%s): the peer cannot read it: %s", name, protoName[(int)p], e.what()); }
        // So does another node of ours, into a new object or one cleared for it.
        T y = choose(W, 2) ? T() : some(1);
        y.__clear();
        SIM_CHECK(nodeOf(y) == nodeOf(T()), "a cleared %s still holds %s", name, nodeOf(y).show().substr(0, 300).c_str());
        try { WireReader r(p, bytes); Cpp2Ops<T>::read(&r, &y); SIM_CHECK(r.pos() == bytes.data() + bytes.size(), "%s was not read to its end", name);
        } catch (std::exception& e) { violation("%s (%s) cannot be read back: %s", name, protoName[(int)p], e.what()); }
        SIM_CHECK(nodeOf(y) == want, "%s (%s) was read as %s instead of %s", name, protoName[(int)p], nodeOf(y).show().substr(0, 300).c_str(), want.show().substr(0, 300).c_str());
        // A container that is read into takes what was sent in place of what it held.
        if (type == "SNList;" || type == "SNMap;" || type == "SNSet;" || type == "SDataSet;") {
            T u = some(1);
            WireReader r(p, bytes); Cpp2Ops<T>::read(&r, &u);
            SIM_CHECK(nodeOf(u) == want, "%s (%s) was read over another one as %s instead of %s", name, protoName[(int)p], nodeOf(u).show().substr(0, 300).c_str(), want.show().substr(0, 300).c_str());
        }
        // The peer's message: fields in another order, of later versions, left out.
        {
            Oddities o; o.shuffle = faultsOn() && choose(W, 2); o.unknown = faultsOn() && choose(W, 2);
            Node sent = want, meant = want; bool refuse = false;
            if (faultsOn() && choose(W, 2)) { refuse = thin(sent, meant, type); count("older_peer"); }
            if (o.unknown) count("newer_peer");
            std::string b2; Proto q = (Proto)choose(W, 3);
            { WireWriter w(q, &b2); put(w, q, sent, type, o); }
            T z;
            bool ok = true; std::string why;
            try { WireReader r(q, b2); Cpp2Ops<T>::read(&r, &z); SIM_CHECK(r.pos() == b2.data() + b2.size(), "the peer's %s was not read to its end", name); } catch (std::exception& e) { ok = false; why = e.what(); }
            SIM_CHECK(ok == !refuse, "the peer's %s (%s) %s: %s", name, protoName[(int)q], ok ? "lacks a required field and was accepted" : "was refused", why.c_str());
            if (ok) SIM_CHECK(nodeOf(z) == meant, "the peer's %s (%s) was read as %s instead of %s", name, protoName[(int)q], nodeOf(z).show().substr(0, 300).c_str(), meant.show().substr(0, 300).c_str());
        }
        if (!faultsOn()) return;
        // A message cut short is refused.
        for (int k = 0; k < 4; k++) {
            size_t cut = k == 0 ? bytes.size() - 1 : choose(W, bytes.size());
            T z; bool ok = false;
            try { WireReader r(p, folly::StringPiece(bytes.data(), cut)); Cpp2Ops<T>::read(&r, &z); ok = true; } catch (std::exception&) {}
            SIM_CHECK(!ok, "%s (%s) was accepted although cut after %zu of %zu bytes", name, protoName[(int)p], cut, bytes.size());
            nodeOf(z);
            count("message_cut");
        }
        // A damaged one does no harm: it is refused or is something that can be sent again.
        for (int k = 0; k < 3; k++) {
            std::string b3 = bytes; damage(b3); count("message_damaged");
            T z; bool ok = false;
            try { WireReader r(p, b3); Cpp2Ops<T>::read(&r, &z); ok = true; } catch (std::exception&) {}
            if (!ok) { nodeOf(z); continue; }
            Node n = nodeOf(z); std::string b4;
            { WireWriter w(p, &b4); Cpp2Ops<T>::write(&w, &z); }
            T u; WireReader r(p, b4); Cpp2Ops<T>::read(&r, &u);
            SIM_CHECK(nodeOf(u) == n, "a damaged %s was not read as what it was taken for", name);
        }
        // Out of memory on the way.
        // (The hashes of vertices, edges and paths in a set allocate and may not throw: left out.)
        for (int k = 0; k < 3; k++) {
            bool ok = false, same = false;
            auto base = memStats();
            memArm(!inSet && k, 1 + choose(W, 8), 40);
            try {
                auto z = std::make_unique<T>();
                { WireReader r(p, bytes); Cpp2Ops<T>::read(&r, z.get()); ok = true; }
                memDisarm();
                same = nodeOf(*z) == want;
                if (k == 2) z->__clear();
            } catch (std::bad_alloc&) {}
            memDisarm();
            if (ok) SIM_CHECK(same, "%s was read wrong", name);
            auto now = memStats();
            SIM_CHECK(now.liveBlocks == base.liveBlocks, "reading a %s%s leaves %lld blocks of memory behind", name, ok ? "" : " until memory ran out", (long long)(now.liveBlocks - base.liveBlocks));
        }
        if (comparable) {
            budget = 60;
            auto z = std::make_unique<T>(some(depth));
            if (choose(W, 3)) {                                                   // equal, or all but one field
                z = std::make_unique<T>(); Node m = want;
                if (choose(W, 2)) {
                    auto& fs = idl[name].f; auto& f = fs[choose(W, fs.size())];
                    T other = some(depth); Node on = nodeOf(other);
                    if (on.f.count(f.name)) m.f[f.name] = on.f[f.name]; else m.f.erase(f.name);
                }
                std::string b5; { WireWriter w(p, &b5); put(w, p, m, type, Oddities()); }
                WireReader r(p, b5); Cpp2Ops<T>::read(&r, z.get());
            }
            bool is = same(y, *z), should = nodeOf(*z) == want;
            SIM_CHECK(is == should, "%s: %s and %s are %s", name, want.show().substr(0, 200).c_str(), nodeOf(*z).show().substr(0, 200).c_str(), is ? "equal" : "not equal");
        }
    }
};
template <> bool same(const AuthResponse& a, const AuthResponse& b) { return a == b; }
template <> bool same(const ExecutionResponse& a, const ExecutionResponse& b) { return a == b; }
template <> bool same(const PlanDescription& a, const PlanDescription& b) { return a == b; }
template <> bool same(const PlanNodeDescription& a, const PlanNodeDescription& b) { return a == b; }
template <> bool same(const PlanNodeBranchInfo& a, const PlanNodeBranchInfo& b) { return a == b; }
template <> bool same(const ProfilingStats& a, const ProfilingStats& b) { return a == b; }
template <> bool same(const Pair& a, const Pair& b) { return a == b; }
void one() {
    int d = 1 + choose(W, 3);
    plain = false;
    int k = choose(W, 26);
    if (k >= 16 && k < 23) plain = true;
    switch (k) {
    case 0: Kind_<Vertex>::run("Vertex", someVertex, false, d); break;
    case 1: Kind_<Edge>::run("Edge", someEdge, false, d); break;
    case 2: Kind_<Path>::run("Path", somePath, false, d); break;
    case 3: Kind_<List>::run("NList", someNList, false, d); break;
    case 4: Kind_<Map>::run("NMap", someMap, false, d); break;
    case 5: Kind_<Set>::run("NSet", someSet, false, d); break;
    case 6: Kind_<DataSet>::run("DataSet", someDataSet, false, d); break;
    case 7: Kind_<Tag>::run("Tag", someTag, false, d); break;
    case 8: Kind_<Step>::run("Step", someStep, false, d); break;
    case 9: Kind_<Date>::run("Date", someDate, false, d); break;
    case 10: Kind_<Time>::run("Time", someTime, false, d); break;
    case 11: Kind_<DateTime>::run("DateTime", someDateTime, false, d); break;
    case 12: Kind_<HostAddr>::run("HostAddr", someHost, false, d); break;
    case 13: Kind_<KeyValue>::run("KeyValue", someKV, false, d); break;
    case 16: Kind_<Pair>::run("Pair", somePair, true, d); break;
    case 17: Kind_<ProfilingStats>::run("ProfilingStats", someStats, true, d); break;
    case 18: Kind_<PlanNodeBranchInfo>::run("PlanNodeBranchInfo", someBranch, true, d); break;
    case 19: Kind_<PlanNodeDescription>::run("PlanNodeDescription", someNode, true, d); break;
    case 20: Kind_<PlanDescription>::run("PlanDescription", somePlan, true, d); break;
    case 21: Kind_<ExecutionResponse>::run("ExecutionResponse", someExec, true, d); break;
    case 22: Kind_<AuthResponse>::run("AuthResponse", someAuth, true, d); break;
    default: Kind_<Value>::run("Value", someValue, false, d); break;
    }
    count("messages");
}
}  // namespace

SIM_SCENARIO(wire) {
    loadIdl();
    auto& m = enums["ErrorCode"];
    for (auto& x : m) {
        const char* n = errorCode((ErrorCode)x.second);
        SIM_CHECK(n && x.first == n, "error code %d is called %s here and %s in the interface", x.second, n ? n : "nothing", x.first.c_str());
    }
    for (int i = 0; i < 8; i++) one();
}
