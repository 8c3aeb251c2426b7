// Values for harnesses, and what a value is.  Included inside an anonymous namespace that has pick().
#pragma once
// What a value is, to the bit.
std::string key(const Value& v);
std::string keyProps(const std::unordered_map<std::string, Value>& m) {
    std::vector<std::string> k; for (auto& x : m) k.push_back(x.first + "=" + key(x.second));
    std::sort(k.begin(), k.end()); std::string r = "{"; for (auto& x : k) r += x + ","; return r + "}";
}
std::string keyVertex(const Vertex& v) { std::string r = "V" + key(v.vid); for (auto& t : v.tags) r += ":" + t.name + keyProps(t.props); return r; }
std::string keyDay(int y, int m, int d) { return std::to_string(y) + "-" + std::to_string(m) + "-" + std::to_string(d); }
std::string keyTime(int h, int m, int s, int u) { return std::to_string(h) + ":" + std::to_string(m) + ":" + std::to_string(s) + "." + std::to_string(u); }
std::string key(const Value& v) {
    switch (v.type()) {
    case Value::Type::__EMPTY__: return "EMPTY";
    case Value::Type::NULLVALUE: return "NULL" + std::to_string((int)v.getNull());
    case Value::Type::BOOL: return v.getBool() ? "true" : "false";
    case Value::Type::INT: return std::to_string(v.getInt());
    case Value::Type::FLOAT: { double d = v.getFloat(); if (std::isnan(d)) return "nan"; char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
    case Value::Type::STRING: return "\"" + v.getStr() + "\"";
    case Value::Type::DATE: { auto& d = v.getDate(); return "D" + keyDay(d.year, d.month, d.day); }
    case Value::Type::TIME: { auto& t = v.getTime(); return "T" + keyTime(t.hour, t.minute, t.sec, t.microsec); }
    case Value::Type::DATETIME: { auto& t = v.getDateTime(); return "DT" + keyDay(t.year, t.month, t.day) + " " + keyTime(t.hour, t.minute, t.sec, t.microsec); }
    case Value::Type::VERTEX: return keyVertex(v.getVertex());
    case Value::Type::EDGE: { auto& e = v.getEdge(); return "E" + key(e.src) + ">" + key(e.dst) + "t" + std::to_string(e.type) + e.name + "@" + std::to_string(e.ranking) + keyProps(e.props); }
    case Value::Type::PATH: { auto& p = v.getPath(); std::string r = "P" + keyVertex(p.src); for (auto& s : p.steps) r += "-" + std::to_string(s.type) + s.name + "@" + std::to_string(s.ranking) + keyProps(s.props) + keyVertex(s.dst); return r; }
    case Value::Type::LIST: { std::string r = "["; for (auto& x : v.getList().values) r += key(x) + ","; return r + "]"; }
    case Value::Type::MAP: return "M" + keyProps(v.getMap().kvs);
    case Value::Type::SET: { std::vector<std::string> k; for (auto& x : v.getSet().values) k.push_back(key(x)); std::sort(k.begin(), k.end()); std::string r = "S{"; for (auto& x : k) r += x + ","; return r + "}"; }
    case Value::Type::DATASET: {
        auto& d = v.getDataSet(); std::string r = "DS("; for (auto& c : d.colNames) r += c + ",";
        for (auto& w : d.rows) { r += ";"; for (auto& x : w.values) r += key(x) + ","; }
        return r + ")";
    }
    default: return "UNKNOWN";
    }
}
std::string brief(std::string s) { for (auto& c : s) if (c < 32 || c > 126) c = '.'; return s.size() > 160 ? s.substr(0, 160) + "..." : s; }

// Values.
const int64_t kInts[] = {0, 1, -1, 2, 3, 7, -5, 100, 1LL << 40, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()};
const char* kStrs[] = {"", "a", "b", "abc", "Abc", "bc", "7", "-1", "1.5", "true", "2020-02-29", "12:30:10", "2020-02-29T12:30:10", "^a.*", "x,y,z", "_id", "\xe4\xbd\xa0\xe5\xa5\xbd", "name"};
const char* kProps[] = {"name", "age", "p", "q", "_src", "_dst", "_rank", "_type", "_vid", "_other", "year", "month", "hour"};
enum Hint { ANY, BOOL, INT, NUM, STR, LIST, MAP, SET, VERTEX, EDGE, PATH, TEMP, HINTS };
Value leaf(int h, int d = 0);
Value intV() { return Value(chance(W, 3, 4) ? kInts[pick(8)] : kInts[pick(11)]); }
Value strV() { return Value(std::string(kStrs[pick(18)])); }
bool gLongIds;
std::string vid(int i) { return (gLongIds ? "a vertex with quite a long identifier " : "v") + std::to_string(i); }
Vertex vertexV(int i) { Vertex v; v.vid = Value(vid(i)); int n = pick(3); for (int j = 0; j < n; j++) v.tags.emplace_back(j ? "t2" : "t1", std::unordered_map<std::string, Value>{{j ? "age" : "name", leaf(pick(2) ? INT : STR, 2)}}); return v; }
Edge edgeV(int i, int j) { return Edge(vid(i), vid(j), pick(2) ? 1 : -1, "knows", pick(3), {{pick(2) ? "p" : "q", leaf(pick(2) ? INT : STR, 2)}}); }
Value leaf(int h, int d) {
    if (h == ANY || chance(W, 1, 8)) h = 1 + pick(HINTS - 1);
    if (chance(W, 1, 12)) return pick(4) == 0 ? Value() : pick(3) == 0 ? Value(NullType::BAD_TYPE) : Value(NullType::__NULL__);
    switch (h) {
    case BOOL: return Value((bool)pick(2));
    case INT: return intV();
    case NUM: { const double f[] = {0.0, 1.5, -2.25, 1e300, 3.0, 0.1}; return pick(2) ? intV() : Value(f[pick(6)]); }
    case STR: return strV();
    case LIST: { if (d > 1) return Value(List()); List l; int n = pick(4); int hh = pick(3) ? INT : ANY; if (n && pick(5) == 0) hh = LIST; for (int i = 0; i < n; i++) l.values.push_back(leaf(hh, d + 1)); return Value(l); }
    case MAP: { Map m; if (pick(4) && d < 2) m.kvs.emplace(kProps[pick(4)], leaf(ANY, d + 1)); return Value(m); }
    case SET: { Set s; if (pick(4)) s.values.emplace(pick(2) ? intV() : strV()); return Value(s); }
    case VERTEX: return Value(vertexV(pick(3)));
    case EDGE: return Value(edgeV(pick(3), pick(3)));
    case PATH: { Path p; p.src = vertexV(pick(3)); int n = pick(3); for (int i = 0; i < n; i++) { Step s; s.dst = vertexV(pick(3)); s.type = 1; s.name = "knows"; s.ranking = i; p.steps.push_back(s); } return Value(p); }
    default: switch (pick(3)) {
        case 0: return Value(Date(2000 + pick(30), 1 + pick(12), 1 + pick(28)));
        case 1: { Time t; t.hour = pick(24); t.minute = pick(60); t.sec = pick(60); t.microsec = pick(1000000); return Value(t); }
        default: { DateTime t; t.year = 2000 + pick(30); t.month = 1 + pick(12); t.day = 1 + pick(28); t.hour = pick(24); t.minute = pick(60); t.sec = pick(60); t.microsec = pick(1000000); return Value(t); }
        }
    }
}
