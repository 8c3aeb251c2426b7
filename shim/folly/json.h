#pragma once
#include <folly/dynamic.h>
#include <folly/String.h>
#include <cmath>
namespace folly {
namespace json {
struct parse_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct Parser {
    StringPiece s; size_t p = 0;
    [[noreturn]] void fail(const char* m) { throw parse_error(stringPrintf("json parse error at %zu: %s", p, m)); }
    void ws() { while (p < s.size() && isspace((unsigned char)s[p])) ++p; }
    bool eat(char c) { ws(); if (p < s.size() && s[p] == c) { ++p; return true; } return false; }
    bool word(const char* w) { size_t n = strlen(w); if (s.size() - p >= n && !memcmp(s.data() + p, w, n)) { p += n; return true; } return false; }
    static void utf8(std::string& o, uint32_t c) {
        if (c < 0x80) o += (char)c;
        else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
        else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    }
    uint32_t hex4() { if (p + 4 > s.size()) fail("bad \\u"); uint32_t v = 0; for (int i = 0; i < 4; ++i) { char c = s[p++]; v = v * 16 + (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : (fail("bad hex"), 0)); } return v; }
    std::string str() {
        if (!eat('"')) fail("expected '\"'");
        std::string o;
        for (;;) {
            if (p >= s.size()) fail("unterminated string");
            char c = s[p++];
            if (c == '"') return o;
            if ((unsigned char)c < 0x20) fail("control character in string");
            if (c != '\\') { o += c; continue; }
            if (p >= s.size()) fail("bad escape");
            c = s[p++];
            switch (c) {
                case '"': case '\\': case '/': o += c; break;
                case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
                case 'u': { uint32_t v = hex4(); if (v >= 0xd800 && v < 0xdc00 && word("\\u")) { uint32_t w = hex4(); v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); } utf8(o, v); break; }
                default: fail("unknown escape");
            }
        }
    }
    dynamic val() {
        ws();
        if (p >= s.size()) fail("expected json value");
        char c = s[p];
        if (c == '{') {
            ++p; dynamic d = dynamic::object();
            if (eat('}')) return d;
            for (;;) { ws(); std::string k = str(); if (!eat(':')) fail("expected ':'"); d.insert(k, val()); if (eat(',')) { if (eat('}')) fail("trailing comma"); continue; } if (eat('}')) return d; fail("expected '}'"); }
        }
        if (c == '[') {
            ++p; dynamic d = dynamic::array();
            if (eat(']')) return d;
            for (;;) { d.push_back(val()); if (eat(',')) continue; if (eat(']')) return d; fail("expected ']'"); }
        }
        if (c == '"') return str();
        if (word("true")) return true;
        if (word("false")) return false;
        if (word("null")) return nullptr;
        size_t b = p; bool dbl = false;
        if (s[p] == '-') ++p;
        while (p < s.size() && (isdigit((unsigned char)s[p]) || strchr(".eE+-", s[p]))) { if (strchr(".eE", s[p])) dbl = true; ++p; }
        if (b == p) fail("expected json value");
        if (dbl) return to<double>(s.subpiece(b, p - b));
        return to<int64_t>(s.subpiece(b, p - b));
    }
};
inline void dump(const dynamic& d, std::string& o, bool pretty, int ind) {
    auto nl = [&](int n) { if (pretty) { o += '\n'; o.append(n * 2, ' '); } };
    auto qs = [&](const std::string& s) {
        o += '"';
        for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r"; else if (c < 0x20) o += stringPrintf("\\u%04x", c); else o += c; }
        o += '"';
    };
    switch (d.type()) {
        case dynamic::NULLT: o += "null"; break;
        case dynamic::BOOL: o += d.getBool() ? "true" : "false"; break;
        case dynamic::INT64: o += to<std::string>(d.getInt()); break;
        case dynamic::DOUBLE: if (!std::isfinite(d.getDouble())) throw std::runtime_error("folly::toJson: JSON object value was a NaN or INF"); o += to<std::string>(d.getDouble()); break;
        case dynamic::STRING: qs(d.getString()); break;
        case dynamic::ARRAY: { o += '['; bool f = true; for (auto& x : d) { if (!f) o += ','; f = false; nl(ind + 1); dump(x, o, pretty, ind + 1); } if (!f) nl(ind); o += ']'; break; }
        case dynamic::OBJECT: { o += '{'; bool f = true; for (auto& x : d.items()) { if (!f) o += ','; f = false; nl(ind + 1); qs(x.first.asString()); o += pretty ? ": " : ":"; dump(x.second, o, pretty, ind + 1); } if (!f) nl(ind); o += '}'; break; }
    }
}
}
inline dynamic parseJson(StringPiece s) { json::Parser p{s}; dynamic d = p.val(); p.ws(); if (p.p != s.size()) p.fail("trailing characters"); return d; }
inline std::string toJson(const dynamic& d) { std::string o; json::dump(d, o, false, 0); return o; }
inline std::string toPrettyJson(const dynamic& d) { std::string o; json::dump(d, o, true, 0); return o; }
inline std::ostream& operator<<(std::ostream& o, const dynamic& d) { return o << toJson(d); }
}
