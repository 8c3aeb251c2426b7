// Expressions that are shipped to storage nodes, stored, copied and evaluated row after
// row: every copy, on every node, after every history of rows, repeated deliveries,
// restarts and failed allocations answers what a fresh copy answers for the row alone.
#include "sim.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <map>
#include <new>
#include <thread>
#include "common/base/Base.h"
#include "common/base/ObjectPool.h"
#include "common/context/ExpressionContext.h"
#include "common/datatypes/ValueOps.inl"
#include <thrift/lib/cpp2/protocol/Serializer.h>
#include "common/time/TimezoneInfo.h"
#include "common/expression/AggregateExpression.h"
#include "common/expression/ArithmeticExpression.h"
#include "common/expression/AttributeExpression.h"
#include "common/expression/CaseExpression.h"
#include "common/expression/ColumnExpression.h"
#include "common/expression/ConstantExpression.h"
#include "common/expression/ContainerExpression.h"
#include "common/expression/EdgeExpression.h"
#include "common/expression/FunctionCallExpression.h"
#include "common/expression/LabelAttributeExpression.h"
#include "common/expression/LabelExpression.h"
#include "common/expression/ListComprehensionExpression.h"
#include "common/expression/LogicalExpression.h"
#include "common/expression/PathBuildExpression.h"
#include "common/expression/PredicateExpression.h"
#include "common/expression/PropertyExpression.h"
#include "common/expression/ReduceExpression.h"
#include "common/expression/RelationalExpression.h"
#include "common/expression/SubscriptExpression.h"
#include "common/expression/TypeCastingExpression.h"
#include "common/expression/UUIDExpression.h"
#include "common/expression/UnaryExpression.h"
#include "common/expression/VariableExpression.h"
#include "common/expression/VertexExpression.h"

DECLARE_string(timezone_name);

using namespace sim;
using namespace nebula;

namespace {
int pick(int n) { return choose(W, n); }

#include "valuekit.h"

// One row of data.
struct Row {
    std::map<std::string, Value> tag, edge, src, dst, in, var;
    Value vertex, edgeVal; std::vector<Value> cols;
};
const Value kNoProp(NullType::UNKNOWN_PROP);
struct Ctx : ExpressionContext {
    const Row* row = nullptr; std::map<std::string, Value> vars;
    Value find(const std::map<std::string, Value>& m, const std::string& k) const { auto i = m.find(k); return i == m.end() ? kNoProp : i->second; }
    const Value& ref(const std::map<std::string, Value>& m, const std::string& k) const { auto i = m.find(k); return i == m.end() ? kNoProp : i->second; }
    const Value& getVar(const std::string& v) const override { auto i = vars.find(v); return i != vars.end() ? i->second : ref(row->var, v); }
    const Value& getVersionedVar(const std::string& v, int64_t n) const override { return n == 0 ? getVar(v) : ref(row->var, v + std::to_string(n)); }
    const Value& getVarProp(const std::string& v, const std::string& p) const override { return ref(row->in, v + p); }
    Value getEdgeProp(const std::string& e, const std::string& p) const override { return find(row->edge, e + "." + p); }
    Value getTagProp(const std::string& t, const std::string& p) const override { return find(row->tag, t + "." + p); }
    Value getSrcProp(const std::string& t, const std::string& p) const override { return find(row->src, t + "." + p); }
    const Value& getDstProp(const std::string& t, const std::string& p) const override { return ref(row->dst, t + "." + p); }
    const Value& getInputProp(const std::string& p) const override { return ref(row->in, p); }
    Value getVertex() const override { return row->vertex; }
    Value getEdge() const override { return row->edgeVal; }
    Value getColumn(int32_t i) const override { return i < 0 || (size_t)i >= row->cols.size() ? kNoProp : row->cols[i]; }
    void setVar(const std::string& v, Value x) override { vars[v] = std::move(x); }
};

// The kinds, as they are stored in the catalogue: they never change.
enum K { kConst, kAdd, kMinus, kMul, kDiv, kMod, kPlus, kNeg, kNot, kIncr, kDecr, kEQ, kNE, kLT, kLE, kGT, kGE, kREG, kIn, kNotIn, kContains, kNotContains, kStarts, kNotStarts,
    kEnds, kNotEnds, kSub, kAttr, kLabelAttr, kCol, kAnd, kOr, kXor, kCast, kCall, kTagP, kEdgeP, kInP, kVarP, kDstP, kSrcP, kESrc, kEType, kERank, kEDst, kVertexK, kEdgeK, kUUIDK,
    kVarK, kVersioned, kListK, kSetK, kMapK, kLabelK, kCaseK, kPred, kLC, kReduceK, kPath, kTS1, kTS2, kTS3, kTS4, kAgg, kIsNull, kIsNotNull, kIsEmpty, kIsNotEmpty, kRange };
static_assert(kTagP == 35 && kVarK == 48 && kAgg == 63 && kRange == 68, "");
struct Spec { int k = 0; std::string a, b, c; Value v; int64_t n = 0; bool f = false, g = false; std::vector<Spec> ch; std::vector<std::string> keys; };

Row rowV() {
    Row r;
    for (int i = 0; i < 4; i++) for (auto m : {&r.tag, &r.src, &r.dst}) if (pick(6)) (*m)["t." + std::string(kProps[i])] = leaf(i == 0 ? STR : i == 1 ? INT : i == 2 ? LIST : ANY);
    for (auto p : {"name", "age", "p", "q"}) if (pick(6)) r.edge["e." + std::string(p)] = leaf(p[0] == 'n' ? STR : p[0] == 'a' ? INT : ANY);
    r.edge["e._src"] = Value("v1"); r.edge["e._dst"] = Value("v2"); r.edge["e._type"] = Value(3); r.edge["e._rank"] = intV();
    for (auto p : {"name", "age", "p", "x", "xp"}) if (pick(6)) r.in[p] = leaf(ANY);
    for (auto p : {"x", "x1", "x-1"}) if (pick(6)) r.var[p] = leaf(INT);
    r.vertex = leaf(VERTEX); r.edgeVal = leaf(EDGE);
    int n = 2 + pick(4); for (int i = 0; i < n; i++) r.cols.push_back(leaf(ANY));
    return r;
}

// Expressions.
struct Fun { const char* name; std::vector<int> args; int ret; };
enum { SMALL = 100 };
const std::vector<Fun> kFuns = {{"abs", {NUM}, NUM}, {"floor", {NUM}, NUM}, {"ceil", {NUM}, NUM}, {"sqrt", {NUM}, NUM}, {"sign", {NUM}, NUM}, {"bit_and", {INT, INT}, INT}, {"bit_xor", {INT, INT}, INT}, {"size", {LIST}, INT},
    {"size", {STR}, INT}, {"range", {SMALL, SMALL}, LIST}, {"range", {SMALL, SMALL, SMALL}, LIST}, {"hash", {STR}, INT}, {"lower", {STR}, STR}, {"upper", {STR}, STR}, {"length", {STR}, INT}, {"length", {PATH}, INT}, {"trim", {STR}, STR},
    {"left", {STR, SMALL}, STR}, {"right", {STR, SMALL}, STR}, {"lpad", {STR, SMALL, STR}, STR}, {"rpad", {STR, SMALL, STR}, STR}, {"substr", {STR, SMALL, SMALL}, STR}, {"replace", {STR, STR, STR}, STR}, {"split", {STR, STR}, LIST},
    {"reverse", {STR}, STR}, {"reverse", {LIST}, LIST}, {"toString", {INT}, STR}, {"toBoolean", {STR}, BOOL}, {"toInteger", {STR}, INT}, {"toFloat", {STR}, NUM}, {"strcasecmp", {STR, STR}, INT}, {"id", {VERTEX}, STR},
    {"tags", {VERTEX}, LIST}, {"properties", {VERTEX}, MAP}, {"properties", {EDGE}, MAP}, {"keys", {MAP}, LIST}, {"head", {LIST}, ANY}, {"last", {LIST}, ANY}, {"tail", {LIST}, LIST}, {"coalesce", {LIST}, ANY},
    {"startNode", {PATH}, VERTEX}, {"endNode", {PATH}, VERTEX}, {"nodes", {PATH}, LIST}, {"relationships", {PATH}, LIST}, {"type", {EDGE}, STR}, {"src", {EDGE}, STR}, {"dst", {EDGE}, STR}, {"rank", {EDGE}, INT},
    {"date", {STR}, TEMP}, {"time", {STR}, TEMP}, {"datetime", {STR}, TEMP}};
struct Gen {
    bool shipped = true; int fresh = 0; std::vector<std::string> inner;
    Spec mk(int k, std::vector<Spec> ch = {}) { Spec s; s.k = k; s.ch = std::move(ch); return s; }
    Spec str(const char* p) { Spec s; s.k = kConst; s.v = Value(std::string(p)); return s; }
    Spec source(int h) {                                                        // something that differs from row to row
        Spec s;
        switch (pick(14)) {
        case 0: case 1: case 2: s.k = kTagP; s.a = ""; break;
        case 3: s.k = kEdgeP; break;
        case 4: s.k = kSrcP; s.a = "$^"; break;
        case 5: s.k = kDstP; s.a = "$$"; break;
        case 6: s.k = kVertexK; return s;
        case 7: s.k = kEdgeK; return s;
        case 8: s.k = kESrc + pick(4); s.b = "e"; s.c = s.k == kESrc ? "_src" : s.k == kEType ? "_type" : s.k == kERank ? "_rank" : "_dst"; return s;
        case 9: case 10: s.k = kCol; s.n = pick(6); if (pick(12) == 0) s.n = 70000; return s;
        case 11: if (!shipped) { s.k = pick(2) ? kInP : kVarP; s.a = s.k == kInP ? "$-" : "$"; s.b = s.k == kInP ? "" : "x"; s.c = s.k == kInP ? kProps[pick(3)] : "p"; return s; }
        // fall through
        case 12: if (!shipped) { s.k = kVersioned; s.b = "x"; if (pick(3)) { const int64_t v[] = {0, 1, -1}; s.ch.push_back(konst(Value(v[pick(3)]))); } return s; }
        // fall through
        default: s.k = kTagP; break;
        }
        s.b = s.k == kEdgeP ? "e" : "t"; s.c = kProps[h == STR ? 0 : h == INT || h == NUM ? 1 : h == LIST ? 2 : pick(4)];
        return s;
    }
    Spec konst(Value v) { Spec s; s.k = kConst; s.v = std::move(v); return s; }
    Spec make(int h, int d) {
        if (h == SMALL) return konst(Value((int64_t)pick(8) - 1));
        if (d <= 0 || chance(W, 1, 6)) {
            if (!inner.empty() && pick(2)) { Spec s; s.k = kVarK; s.a = inner[pick(inner.size())]; return s; }
            if (pick(3) == 0) return konst(leaf(h));
            if (pick(24) == 0) { Spec s; s.k = pick(2) ? kLabelK : kUUIDK; s.a = kStrs[1 + pick(15)]; return s; }
            return source(h);
        }
        if (h == ANY || chance(W, 1, 10)) h = 1 + pick(HINTS - 1);
        int g = pick(10);
        if (g == 0) {                                                           // CASE of whatever is asked for
            Spec s = mk(kCaseK); s.f = pick(4) > 0; int n = s.f ? 1 + pick(3) : 1; bool cond = s.f && pick(2), def = !s.f || pick(2); s.n = n; s.g = cond; s.a = def ? "d" : "";
            if (cond) s.ch.push_back(make(INT, d - 1));
            if (def) s.ch.push_back(make(h, d - 1));
            for (int i = 0; i < n; i++) { s.ch.push_back(make(cond ? INT : BOOL, d - 1)); s.ch.push_back(make(h, d - 1)); }
            return s;
        }
        if (g == 1) return mk(kSub, {make(pick(3) ? LIST : MAP, d - 1), pick(2) ? konst(pick(2) ? Value((int64_t)pick(3) - 1) : Value(std::string(kProps[pick(10)]))) : make(INT, d - 1)});
        if (g == 2) return mk(kAttr, {make(pick(2) ? EDGE : pick(2) ? VERTEX : pick(2) ? MAP : TEMP, d - 1), str(kProps[pick(13)])});
        if (g == 3) { auto c = reduce(h, d); return c; }
        if (g <= 5) { std::vector<const Fun*> fs; for (auto& f : kFuns) if (f.ret == h || (h == NUM && f.ret == INT)) fs.push_back(&f); if (!fs.empty()) { auto f = fs[pick(fs.size())]; Spec s = mk(kCall); s.a = f->name; for (int a : f->args) s.ch.push_back(make(a, d - 1)); return s; } }
        switch (h) {
        case BOOL:
            switch (pick(7)) {
            case 0: { Spec s = mk(kAnd + pick(3)); int n = 2 + pick(3); for (int i = 0; i < n; i++) s.ch.push_back(make(BOOL, d - 1)); return s; }
            case 1: return mk(kNot, {make(BOOL, d - 1)});
            case 2: return mk(kIsNull + pick(4), {make(ANY, d - 1)});
            case 3: { int x = pick(3) ? INT : ANY; return mk(kEQ + pick(6), {make(x, d - 1), make(x, d - 1)}); }
            case 4: return mk(kIn + pick(2), {make(INT, d - 1), make(pick(3) ? LIST : pick(2) ? SET : MAP, d - 1)});
            case 5: return mk(pick(5) == 0 ? kREG : kContains + pick(6), {make(STR, d - 1), make(STR, d - 1)});
            default: {
                Spec s = mk(kPred); static const char* nm[] = {"all", "any", "single", "none", "exists"}; s.a = nm[pick(5)];
                if (s.a == "exists") { s.ch.push_back(mk(pick(2) ? kAttr : kSub, {make(pick(2) ? MAP : EDGE, d - 1), str(kProps[pick(6)])})); return s; }
                scoped(s, d, BOOL, true); if (pick(2)) s.c = "origin";
                return s;
            }
            }
        case INT: if (pick(12) == 0 && !inner.empty()) { Spec v; v.k = kVarK; v.a = inner.back(); return mk(kIncr + pick(2), {v}); }
        // fall through
        case NUM: switch (pick(4)) { case 0: return mk(pick(2) ? kNeg : kPlus, {make(h, d - 1)}); case 1: { Spec s = mk(kCast, {make(pick(2) ? STR : NUM, d - 1)}); s.n = h == INT ? 1 : 2; return s; } default: return mk(kAdd + pick(5), {make(h, d - 1), make(h, d - 1)}); }
        case STR: if (pick(3) == 0) { Spec s = mk(kCast, {make(pick(2) ? INT : STR, d - 1)}); s.n = 3; return s; } return mk(kAdd, {make(STR, d - 1), make(pick(2) ? STR : INT, d - 1)});
        case LIST:
            switch (pick(5)) {
            case 0: { Spec s = mk(kRange, {make(LIST, d - 1)}); int x = 1 + pick(3); s.f = x & 1; s.g = x & 2; if (s.f) s.ch.push_back(make(pick(2) ? INT : SMALL, d - 1)); if (s.g) s.ch.push_back(make(pick(2) ? INT : SMALL, d - 1)); return s; }
            case 1: case 2: { Spec s = mk(kLC); scoped(s, d, pick(2) ? INT : ANY, false); if (pick(2)) s.c = "[origin]"; return s; }
            default: { Spec s = mk(kListK); int n = 1 + pick(3); for (int i = 0; i < n; i++) s.ch.push_back(make(INT, d - 1)); return s; }
            }
        case SET: { Spec s = mk(kSetK); int n = 1 + pick(3); for (int i = 0; i < n; i++) s.ch.push_back(make(INT, d - 1)); return s; }
        case MAP: { Spec s = mk(kMapK); int n = 1 + pick(3); for (int i = 0; i < n; i++) { s.keys.push_back(kProps[pick(6)]); s.ch.push_back(make(ANY, d - 1)); } return s; }
        case PATH: { Spec s = mk(kPath); int n = 1 + 2 * pick(3); for (int i = 0; i < n; i++) s.ch.push_back(i & 1 ? make(EDGE, d - 1) : make(VERTEX, d - 1)); return s; }
        default: return source(h);
        }
    }
    Spec corner() {                                                             // values at the edge of what an operation takes
        switch (pick(6)) {
        case 0: { Spec s = mk(kCall); s.a = pick(2) ? "lpad" : "rpad"; s.ch = {make(STR, 1), make(SMALL, 0), pick(2) ? str("") : make(STR, 0)}; return s; }
        case 1: return mk(kAdd + pick(5), {pick(2) ? konst(Value(INT64_MIN)) : make(INT, 1), pick(2) ? konst(Value((int64_t)-1)) : mk(kNeg, {make(INT, 0)})});
        case 2: return mk(kAdd + pick(2), {konst(leaf(TEMP)), pick(2) ? konst(intV()) : make(INT, 1)});
        case 3: return mk(pick(2) ? kAttr : kSub, {make(EDGE, 1), pick(2) ? str("") : str(kProps[pick(13)])});
        case 4: { Spec s = mk(kSetK); int n = 1 + pick(4); for (int i = 0; i < n; i++) s.ch.push_back(make(pick(3) ? VERTEX : pick(2) ? EDGE : PATH, 1)); return s; }
        default: {                                                              // [x IN lists | [x IN x | ...]]
            Spec s = mk(kLC), l = mk(kListK), in = mk(pick(2) ? kLC : kPred), x; int n = 1 + pick(3); for (int i = 0; i < n; i++) l.ch.push_back(make(LIST, 1));
            s.b = in.b = name(); x.k = kVarK; x.a = s.b; inner.push_back(s.b);
            in.ch = {x, make(BOOL, 1)}; in.f = true; if (in.k == kPred) in.a = pick(2) ? "all" : "any"; else if ((in.g = pick(2))) in.ch.push_back(make(INT, 1));
            inner.pop_back(); s.g = true; s.ch = {l, in}; return s;
        }
        }
    }
    std::string name() { return !inner.empty() && pick(5) == 0 ? inner.back() : "n" + std::to_string(fresh++); }   // sometimes one that hides another
    void scoped(Spec& s, int d, int h, bool pred) {
        s.ch.push_back(make(LIST, d - 1));
        s.b = name(); inner.push_back(s.b);
        bool shadow = std::count(inner.begin(), inner.end(), s.b) > 1;
        s.f = pred || pick(2); s.g = !pred && pick(2);
        if (s.f) s.ch.push_back(make(BOOL, d - 1));
        if (s.g) s.ch.push_back(make(h, d - 1));
        inner.pop_back();
        (void)shadow;
    }
    Spec reduce(int h, int d) {
        Spec s = mk(kReduceK); s.ch.push_back(make(h, d - 1)); s.ch.push_back(make(LIST, d - 1));
        s.a = "acc" + std::to_string(fresh++); s.b = "n" + std::to_string(fresh++); inner.push_back(s.a); inner.push_back(s.b);
        s.ch.push_back(pick(2) ? mk(kAdd, {make(h, 0), make(h, d - 1)}) : make(h, d - 1)); inner.pop_back(); inner.pop_back();
        if (pick(2)) s.c = "reduce origin";
        return s;
    }
};
Value::Type castType(int n) { return n == 1 ? Value::Type::INT : n == 2 ? Value::Type::FLOAT : Value::Type::STRING; }

Expression* build(ObjectPool* p, const Spec& s) {
    auto c = [&](size_t i) { return build(p, s.ch[i]); };
    using EK = Expression::Kind;
    switch (s.k) {
    case kConst: return ConstantExpression::make(p, s.v);
    case kAdd: return ArithmeticExpression::makeAdd(p, c(0), c(1));
    case kMinus: return ArithmeticExpression::makeMinus(p, c(0), c(1));
    case kMul: return ArithmeticExpression::makeMultiply(p, c(0), c(1));
    case kDiv: return ArithmeticExpression::makeDivision(p, c(0), c(1));
    case kMod: return ArithmeticExpression::makeMod(p, c(0), c(1));
    case kPlus: return UnaryExpression::makePlus(p, c(0));
    case kNeg: return UnaryExpression::makeNegate(p, c(0));
    case kNot: return UnaryExpression::makeNot(p, c(0));
    case kIncr: return UnaryExpression::makeIncr(p, c(0));
    case kDecr: return UnaryExpression::makeDecr(p, c(0));
    case kIsNull: return UnaryExpression::makeIsNull(p, c(0));
    case kIsNotNull: return UnaryExpression::makeIsNotNull(p, c(0));
    case kIsEmpty: return UnaryExpression::makeIsEmpty(p, c(0));
    case kIsNotEmpty: return UnaryExpression::makeIsNotEmpty(p, c(0));
    case kEQ: return RelationalExpression::makeEQ(p, c(0), c(1));
    case kNE: return RelationalExpression::makeNE(p, c(0), c(1));
    case kLT: return RelationalExpression::makeLT(p, c(0), c(1));
    case kLE: return RelationalExpression::makeLE(p, c(0), c(1));
    case kGT: return RelationalExpression::makeGT(p, c(0), c(1));
    case kGE: return RelationalExpression::makeGE(p, c(0), c(1));
    case kREG: return RelationalExpression::makeREG(p, c(0), c(1));
    case kIn: return RelationalExpression::makeIn(p, c(0), c(1));
    case kNotIn: return RelationalExpression::makeNotIn(p, c(0), c(1));
    case kContains: return RelationalExpression::makeContains(p, c(0), c(1));
    case kNotContains: return RelationalExpression::makeNotContains(p, c(0), c(1));
    case kStarts: return RelationalExpression::makeStartsWith(p, c(0), c(1));
    case kNotStarts: return RelationalExpression::makeNotStartsWith(p, c(0), c(1));
    case kEnds: return RelationalExpression::makeEndsWith(p, c(0), c(1));
    case kNotEnds: return RelationalExpression::makeNotEndsWith(p, c(0), c(1));
    case kSub: return SubscriptExpression::make(p, c(0), c(1));
    case kAttr: return AttributeExpression::make(p, c(0), c(1));
    case kCol: return ColumnExpression::make(p, s.n);
    case kAnd: case kOr: case kXor: { auto e = s.k == kAnd ? LogicalExpression::makeAnd(p) : s.k == kOr ? LogicalExpression::makeOr(p) : LogicalExpression::makeXor(p); for (size_t i = 0; i < s.ch.size(); i++) e->addOperand(c(i)); return e; }
    case kCast: return TypeCastingExpression::make(p, castType(s.n), c(0));
    case kCall: { auto a = ArgumentList::make(p); for (size_t i = 0; i < s.ch.size(); i++) a->addArgument(c(i)); return FunctionCallExpression::make(p, s.a, a); }
    case kTagP: return TagPropertyExpression::make(p, s.b, s.c);
    case kEdgeP: return EdgePropertyExpression::make(p, s.b, s.c);
    case kInP: return InputPropertyExpression::make(p, s.c);
    case kVarP: return VariablePropertyExpression::make(p, s.b, s.c);
    case kDstP: return DestPropertyExpression::make(p, s.b, s.c);
    case kSrcP: return SourcePropertyExpression::make(p, s.b, s.c);
    case kESrc: return EdgeSrcIdExpression::make(p, s.b);
    case kEType: return EdgeTypeExpression::make(p, s.b);
    case kERank: return EdgeRankExpression::make(p, s.b);
    case kEDst: return EdgeDstIdExpression::make(p, s.b);
    case kVertexK: return VertexExpression::make(p);
    case kEdgeK: return EdgeExpression::make(p);
    case kUUIDK: return UUIDExpression::make(p, s.a);
    case kVarK: return VariableExpression::make(p, s.a, true);
    case kVersioned: return VersionedVariableExpression::make(p, s.b, s.ch.empty() ? nullptr : c(0));
    case kListK: { auto l = ExpressionList::make(p); for (size_t i = 0; i < s.ch.size(); i++) l->add(c(i)); return ListExpression::make(p, l); }
    case kSetK: { auto l = ExpressionList::make(p); for (size_t i = 0; i < s.ch.size(); i++) l->add(c(i)); return SetExpression::make(p, l); }
    case kMapK: { auto l = MapItemList::make(p); for (size_t i = 0; i < s.ch.size(); i++) l->add(s.keys[i], c(i)); return MapExpression::make(p, l); }
    case kLabelK: return LabelExpression::make(p, s.a);
    case kCaseK: {
        auto l = CaseList::make(p); size_t i = 0; Expression *cond = nullptr, *def = nullptr;
        if (s.g) cond = c(i++);
        if (!s.a.empty()) def = c(i++);
        for (; i < s.ch.size(); i += 2) l->add(c(i), c(i + 1));
        auto e = CaseExpression::make(p, l, s.f); if (cond) e->setCondition(cond); if (def) e->setDefault(def); return e;
    }
    case kPred: { auto e = PredicateExpression::make(p, s.a, s.b, c(0), s.ch.size() > 1 ? c(1) : nullptr); if (!s.c.empty()) e->setOriginString(s.c); return e; }
    case kLC: { size_t i = 1; Expression* f = s.f ? c(i++) : nullptr; Expression* m = s.g ? c(i++) : nullptr; auto e = ListComprehensionExpression::make(p, s.b, c(0), f, m); if (!s.c.empty()) e->setOriginString(s.c); return e; }
    case kReduceK: { auto e = ReduceExpression::make(p, s.a, c(0), s.b, c(1), c(2)); if (!s.c.empty()) e->setOriginString(s.c); return e; }
    case kPath: { auto e = PathBuildExpression::make(p); for (size_t i = 0; i < s.ch.size(); i++) e->add(c(i)); return e; }
    case kRange: { size_t i = 1; Expression* lo = s.f ? c(i++) : nullptr; Expression* hi = s.g ? c(i++) : nullptr; return SubscriptRangeExpression::make(p, c(0), lo, hi); }
    case kAgg: return AggregateExpression::make(p, s.a, c(0), s.f);
    default: harnessError("no such kind"); return nullptr;
    }
    (void)EK::kConstant;
}

// The stored form, by its description alone.
void word(std::string& o, uint64_t n) { o.append((const char*)&n, 8); }
void text(std::string& o, const std::string& s) { word(o, s.size()); o += s; }
void val(std::string& o, const Value& v) { std::string b; apache::thrift::CompactSerializer::serialize(v, &b); o += b; }
void form(std::string& o, const Spec& s) {
    o += (char)s.k;
    auto all = [&] { for (auto& x : s.ch) form(o, x); };
    switch (s.k) {
    case kConst: val(o, s.v); break;
    case kCol: val(o, Value(s.n)); break;
    case kAnd: case kOr: case kXor: case kListK: case kSetK: case kPath: word(o, s.ch.size()); all(); break;
    case kCast: word(o, (uint64_t)castType(s.n)); all(); break;
    case kCall: text(o, s.a); word(o, s.ch.size()); all(); break;
    case kTagP: case kEdgeP: case kDstP: case kSrcP: case kESrc: case kEType: case kERank: case kEDst: text(o, s.a); text(o, s.b); text(o, s.c); break;
    case kVertexK: case kEdgeK: break;
    case kUUIDK: case kVarK: case kLabelK: text(o, s.a); break;
    case kMapK: word(o, s.ch.size()); for (size_t i = 0; i < s.ch.size(); i++) { text(o, s.keys[i]); form(o, s.ch[i]); } break;
    case kCaseK: val(o, Value(s.f)); val(o, Value(s.g)); val(o, Value(!s.a.empty())); word(o, s.n); all(); break;
    case kPred: val(o, Value(!s.b.empty())); val(o, Value(s.ch.size() > 1)); val(o, Value(!s.c.empty())); text(o, s.a); if (!s.b.empty()) text(o, s.b); all(); if (!s.c.empty()) text(o, s.c); break;
    case kLC: val(o, Value(s.f)); val(o, Value(s.g)); val(o, Value(!s.c.empty())); text(o, s.b); all(); if (!s.c.empty()) text(o, s.c); break;
    case kReduceK: val(o, Value(!s.c.empty())); text(o, s.a); form(o, s.ch[0]); text(o, s.b); form(o, s.ch[1]); form(o, s.ch[2]); if (!s.c.empty()) text(o, s.c); break;
    case kRange: { form(o, s.ch[0]); word(o, s.f && s.g ? 2 : 1); size_t i = 1; if (s.f) { word(o, 0); form(o, s.ch[i++]); } if (s.g) { word(o, 1); form(o, s.ch[i]); } break; }
    case kAgg: text(o, s.a); val(o, Value(s.f)); all(); break;
    default: all();
    }
}
size_t count1(const Spec& s) { size_t n = 1; for (auto& x : s.ch) n += count1(x); return n; }
Spec* at(Spec& s, size_t& i) { if (i-- == 0) return &s; for (auto& x : s.ch) if (auto r = at(x, i)) return r; return nullptr; }
// Another expression, that is this one but for one place; false if that place has nothing to change.
bool alter(Spec& s) {
    switch (s.k) {
    case kConst: { auto k0 = key(s.v); for (int i = 0; i < 8; i++) { s.v = leaf(ANY); if (s.v.type() == Value::Type::STRING || s.v.type() == Value::Type::BOOL || s.v.type() == Value::Type::DATE) if (key(s.v) != k0) return true; } return false; }
    case kAdd: s.k = kMinus; return true;
    case kEQ: s.k = kNE; return true;
    case kLT: s.k = kLE; return true;
    case kIn: s.k = kNotIn; return true;
    case kAnd: s.k = kOr; return true;
    case kOr: s.ch.push_back(s.ch[0]); return true;
    case kIsNull: s.k = kIsEmpty; return true;
    case kCol: s.n++; return true;
    case kCast: s.n = s.n % 3 + 1; return true;
    case kCall: if (s.a == "lower") s.a = "upper"; else if (s.a == "head") s.a = "last"; else if (s.a == "floor") s.a = "ceil"; else return false; return true;
    case kTagP: case kEdgeP: case kSrcP: case kDstP: if (pick(2)) s.b += "x"; else s.c += "x"; return true;
    case kESrc: case kEType: case kERank: case kEDst: s.b += "x"; return true;
    case kLabelK: case kUUIDK: s.a += "x"; return true;
    case kListK: case kPath: s.ch.push_back(s.ch[0]); return true;
    case kMapK: s.keys[pick(s.keys.size())] += "x"; return true;
    case kCaseK: if (pick(2) && s.ch.size() > 2) { s.ch.push_back(s.ch[s.ch.size() - 2]); s.ch.push_back(s.ch.back()); s.n++; } else if (s.a.empty()) { s.a = "d"; s.ch.insert(s.ch.begin() + s.g, Spec()); s.ch[s.g].v = Value("new"); } else return false; return true;
    case kPred: if (s.a == "all") s.a = "none"; else if (s.a == "any") s.a = "single"; else return false; return true;
    case kLC: if (s.f) { s.ch.erase(s.ch.begin() + 1); s.f = false; } else if (s.g) { s.ch.erase(s.ch.begin() + 1); s.g = false; } else { s.g = true; Spec v; v.k = kVarK; v.a = s.b; s.ch.push_back(v); } return true;
    case kReduceK: std::swap(s.ch[0], s.ch[1]); return s.ch[0].k != s.ch[1].k;
    case kRange: if (s.f && !s.g) { s.f = false; s.g = true; } else if (s.g && !s.f) { s.g = false; s.f = true; } else { s.g = false; s.ch.pop_back(); } return true;
    case kAgg: s.f = !s.f; return true;
    default: return false;
    }
}
bool setsIn(const Spec& s) { if (s.k == kSetK || s.v.isSet()) return true; for (auto& x : s.ch) if (setsIn(x)) return true; return false; }

struct World {
    std::vector<Row> rows; std::vector<std::string> want; Spec spec; std::string bytes; bool shipped;
    std::string text, raw;
};
std::string evalFresh(const Spec& s, const Row& r) { ObjectPool p; Ctx c; c.row = &r; return key(build(&p, s)->eval(c)); }

void same(const Expression* a, const Expression* b, const char* how, World& w) {
    SIM_CHECK(*a == *b && *b == *a && !(*a != *b), "%s %s is not equal to the original", how, brief(w.text).c_str());
    SIM_CHECK(b->kind() == a->kind(), "%s has another kind", how);
    SIM_CHECK(b->toString() == w.text, "%s prints as %s instead of %s", how, brief(b->toString()).c_str(), brief(w.text).c_str());
    SIM_CHECK(b->rawString() == w.raw, "%s has the source text %s instead of %s", how, brief(b->rawString()).c_str(), brief(w.raw).c_str());
}

// A node that holds copies and reads rows in an order of its own.
void node(World& w, int id, const Expression* origin, Expression* copy) {
    auto pool = std::make_unique<ObjectPool>();
    Expression* e = w.shipped ? Expression::decode(pool.get(), w.bytes) : build(pool.get(), w.spec);
    SIM_CHECK(e != nullptr, "the expression was not decoded");
    if (w.shipped) { same(origin, e, "the decoded copy of", w); SIM_CHECK(e->encode() == w.bytes, "the decoded copy of %s encodes differently", brief(w.text).c_str()); }
    if (copy) { same(origin, copy, "a clone for another thread of", w); e = copy; }   // one of several in the same pool, each used by one thread
    Ctx ctx, other; int steps = 4 + pick(8);
    for (int i = 0; i < steps; i++) {
        yieldPoint();
        if (fault("node_restart", 1, 12)) { pool = std::make_unique<ObjectPool>(); e = w.shipped ? Expression::decode(pool.get(), w.bytes) : build(pool.get(), w.spec); ctx.vars.clear(); }
        else if (w.shipped && fault("delivered_again", 1, 10)) { auto d = Expression::decode(pool.get(), w.bytes); SIM_CHECK(*d == *e, "two deliveries of %s differ", brief(w.text).c_str()); e = d; }
        else if (choose(S, 6) == 0) { auto c = e->clone(); same(e, c, "the clone of", w); if (choose(S, 2)) e = c; }
        size_t r = choose(S, w.rows.size());
        ctx.row = &w.rows[r];
        if (fault("alloc_fail", 1, 8)) {
            memArm(true, 1 + choose(F, 4), 10);
            bool threw = false;
            try { e->eval(ctx); } catch (const std::bad_alloc&) { threw = true; }
            memDisarm();
            if (threw) count("eval_failed");
            yieldPoint();
        }
        const Value& got = e->eval(ctx);
        auto k = key(got); auto type = got.type();
        SIM_CHECK(k == w.want[r], "node %d: %s is %s for a row where a fresh copy gives %s", id, brief(w.text).c_str(), brief(k).c_str(), brief(w.want[r]).c_str());
        SIM_CHECK(Expression::eval(e, ctx).type() == type, "a second evaluation of %s has another type", brief(w.text).c_str());
        if (choose(S, 4) == 0) {                                                // the answer is not touched by what a clone does
            auto c = e->clone(); size_t q = choose(S, w.rows.size()); other.row = &w.rows[q];
            const Value& mine = e->eval(ctx);
            auto k2 = key(c->eval(other));
            SIM_CHECK(k2 == w.want[q], "the clone of %s gives %s instead of %s", brief(w.text).c_str(), brief(k2).c_str(), brief(w.want[q]).c_str());
            SIM_CHECK(key(mine) == w.want[r], "evaluating a clone changed the answer of %s to %s", brief(w.text).c_str(), brief(key(mine)).c_str());
        }
    }
    if (w.shipped) SIM_CHECK(e->encode() == w.bytes, "evaluating %s changed what it encodes to", brief(w.text).c_str());
}

void shipScenario() {
    FLAGS_timezone_name = "UTC+08:00"; SIM_CHECK(time::Timezone::initializeGlobalTimezone().ok(), "no time zone");
    for (auto& f : kFuns) if (!FunctionManager::get(f.name, f.args.size()).ok()) harnessError(f.name);
    gLongIds = pick(4) == 0;
    World w; Gen g; w.shipped = g.shipped = chance(W, 4, 5);
    w.spec = pick(5) ? g.make(ANY, 1 + pick(4)) : g.corner();
    int n = 2 + pick(4); for (int i = 0; i < n; i++) w.rows.push_back(rowV());
    for (auto& r : w.rows) w.want.push_back(evalFresh(w.spec, r));
    ObjectPool pool; auto e = build(&pool, w.spec);
    w.text = e->toString(); w.raw = e->rawString();
    note("expression %s", brief(w.text).c_str());
    if (w.shipped) {
        w.bytes = Expression::encode(*e);
        std::string f; form(f, w.spec);
        SIM_CHECK(f == w.bytes, "the stored form of %s is not the one described: %zu and %zu bytes", brief(w.text).c_str(), w.bytes.size(), f.size());
    }
    // An expression that differs in one place is another expression.
    for (int i = 0; i < 3; i++) {
        Spec o = w.spec; size_t j = pick(count1(o)); auto p = at(o, j);
        if (!alter(*p)) continue;
        ObjectPool q; auto x = build(&q, o);
        SIM_CHECK(*x != *e && *e != *x, "%s and %s count as equal", brief(w.text).c_str(), brief(x->toString()).c_str());
        count("altered");
    }
    std::vector<std::thread> ts; int nodes = 1 + pick(3);
    std::vector<Expression*> copies; for (int i = 0; i < nodes; i++) copies.push_back(pick(3) == 0 ? nullptr : (i && copies.back() && pick(2) ? copies.back() : e)->clone());
    for (int i = 0; i < nodes; i++) ts.emplace_back([&w, i, e, c = copies[i]] { node(w, i, e, c); });
    for (auto& t : ts) t.join();
    SIM_CHECK(e->toString() == w.text, "the original changed to %s", brief(e->toString()).c_str());
    count("ok");
}

// Groups whose rows come mixed.
struct Group { AggData data; std::vector<Value> rows; std::vector<Value> seen; };
std::string model(const std::string& f, bool distinct, const std::vector<Value>& rows) {
    std::vector<Value> v; std::vector<std::string> ks;
    for (auto& x : rows) { if (distinct) { auto k = key(x); if (std::count(ks.begin(), ks.end(), k)) continue; ks.push_back(k); } v.push_back(x); }
    bool some = false, bad = false; int64_t cnt = 0; for (auto& x : v) if (!x.isNull() && !x.empty()) { some = true; cnt++; }
    (void)bad;
    if (f == "count") return std::to_string(cnt);
    if (f == "collect") { std::string r = "["; for (auto& x : v) if (!x.isNull() && !x.empty()) r += key(x) + ","; return r + "]"; }
    if (f == "collect_set") { std::vector<std::string> k; for (auto& x : v) if (!x.isNull() && !x.empty()) k.push_back(key(x)); std::sort(k.begin(), k.end()); k.erase(std::unique(k.begin(), k.end()), k.end()); std::string r = "S{"; for (auto& x : k) r += x + ","; return r + "}"; }
    if (f == "sum") { int64_t s = 0; for (auto& x : v) if (x.isInt()) s += x.getInt(); return std::to_string(s); }
    if (!some) return f == "" ? key(rows.back()) : "NULL0";
    std::vector<int64_t> n; for (auto& x : v) if (x.isInt()) n.push_back(x.getInt());
    if (f == "max") return std::to_string(*std::max_element(n.begin(), n.end()));
    if (f == "min") return std::to_string(*std::min_element(n.begin(), n.end()));
    if (f == "bit_and") { int64_t r = -1; for (auto x : n) r &= x; return std::to_string(r); }
    if (f == "bit_or") { int64_t r = 0; for (auto x : n) r |= x; return std::to_string(r); }
    if (f == "bit_xor") { int64_t r = 0; for (auto x : n) r ^= x; return std::to_string(r); }
    return "?";
}
void groupScenario() {
    static const char* fs[] = {"count", "sum", "max", "min", "collect", "collect_set", "bit_and", "bit_or", "bit_xor", "avg", "std"};
    Spec s; s.k = kAgg; s.a = fs[pick(11)]; s.f = pick(2); bool wild = pick(4) == 0;
    std::string f = s.a; if (pick(3) == 0) std::transform(s.a.begin(), s.a.end(), s.a.begin(), ::toupper);
    Spec a; a.k = kCol; a.n = 0; s.ch.push_back(a);
    ObjectPool pool; auto e = static_cast<AggregateExpression*>(build(&pool, s));
    auto bytes = e->encode(); std::string fm; form(fm, s);
    SIM_CHECK(bytes == fm, "the stored form of %s is not the one described", e->toString().c_str());
    { Spec o = s; o.f = !o.f; ObjectPool q; auto x = build(&q, o); SIM_CHECK(*x != *e && *e != *x, "%s and %s count as equal", e->toString().c_str(), x->toString().c_str()); }
    { Spec o = s; o.ch[0].n++; ObjectPool q; auto x = build(&q, o); SIM_CHECK(*x != *e, "%s and %s count as equal", e->toString().c_str(), x->toString().c_str()); }
    int nodes = 1 + pick(3); std::vector<std::thread> ts;
    for (int t = 0; t < nodes; t++) ts.emplace_back([&, t] {
        ObjectPool mine; auto x = static_cast<AggregateExpression*>(Expression::decode(&mine, bytes));
        SIM_CHECK(*x == *e && x->toString() == e->toString() && x->encode() == bytes, "the decoded copy of %s differs", e->toString().c_str());
        int groups = 1 + pick(3); std::vector<Group> gs(groups); Ctx ctx; int steps = 3 + pick(14);
        for (int i = 0; i < steps; i++) {
            yieldPoint();
            if (choose(S, 8) == 0) { x = static_cast<AggregateExpression*>(x->clone()); SIM_CHECK(*x == *e && x->toString() == e->toString(), "the clone of %s differs", e->toString().c_str()); }
            auto& g = gs[choose(S, groups)];
            Row r; r.cols.push_back(wild ? leaf(pick(2) ? NUM : ANY) : pick(6) == 0 ? Value(NullType::__NULL__) : pick(12) == 0 ? Value() : Value((int64_t)pick(9) - 3));
            if (f == "collect_set" && (r.cols[0].isVertex() || r.cols[0].isEdge())) r.cols[0] = Value(1);
            g.rows.push_back(r.cols[0]); ctx.row = &r;
            x->setAggData(&g.data);
            auto got = key(x->eval(ctx));
            SIM_CHECK(got == key(g.data.result()), "the answer of %s is not its group's", e->toString().c_str());
            std::string want;
            if (!wild && f != "avg" && f != "std") want = model(f, s.f, g.rows);
            else {                                                              // the group alone, from its beginning
                ObjectPool q; auto y = static_cast<AggregateExpression*>(build(&q, s)); AggData d; y->setAggData(&d); Ctx c; Row rr; rr.cols.resize(1); c.row = &rr;
                for (auto& v : g.rows) { rr.cols[0] = v; want = key(y->eval(c)); }
            }
            SIM_CHECK(got == want, "node %d: %s of a group is %s instead of %s after %zu rows", t, e->toString().c_str(), brief(got).c_str(), brief(want).c_str(), g.rows.size());
        }
    });
    for (auto& t : ts) t.join();
    count("ok");
}
}

SIM_SCENARIO(ship) { shipScenario(); finishPass(); }
SIM_SCENARIO(groups) { groupScenario(); finishPass(); }
