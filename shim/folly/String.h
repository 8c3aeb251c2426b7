#pragma once
#include <cstdarg>
#include <cstdio>
#include <sstream>
#include <folly/Range.h>
#include <folly/Conv.h>
namespace folly {
using fbstring = std::string;
inline std::string stringVPrintf(const char* f, va_list ap) {
    va_list c; va_copy(c, ap);
    int n = vsnprintf(nullptr, 0, f, c); va_end(c);
    if (n < 0) throw std::runtime_error("Invalid format string");
    std::string s(n + 1, 0);
    vsnprintf(&s[0], n + 1, f, ap);
    s.resize(n);
    return s;
}
inline std::string stringPrintf(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string stringPrintf(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = stringVPrintf(f, ap); va_end(ap); return s; }
inline void stringAppendf(std::string* o, const char* f, ...) { va_list ap; va_start(ap, f); *o += stringVPrintf(f, ap); va_end(ap); }
inline void toLowerAscii(char* s, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] >= 'A' && s[i] <= 'Z') s[i] += 32; }
inline void toLowerAscii(std::string& s) { toLowerAscii(&s[0], s.size()); }
inline bool isSpaceAscii(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
inline StringPiece ltrimWhitespace(StringPiece s) { while (!s.empty() && isSpaceAscii(s.front())) s.pop_front(); return s; }
inline StringPiece rtrimWhitespace(StringPiece s) { while (!s.empty() && isSpaceAscii(s.back())) s.pop_back(); return s; }
inline StringPiece trimWhitespace(StringPiece s) { return ltrimWhitespace(rtrimWhitespace(s)); }
inline StringPiece skipWhitespace(StringPiece s) { return ltrimWhitespace(s); }
namespace detail {
template <class T> void putPiece(T& v, StringPiece p);
template <> inline void putPiece<std::string>(std::string& v, StringPiece p) { v = p.toString(); }
template <> inline void putPiece<StringPiece>(StringPiece& v, StringPiece p) { v = p; }
}
template <class D, class S, class C>
void split(const D& d0, const S& s0, C& out, bool ignoreEmpty = false) {
    std::string d(1, 0);
    if constexpr (std::is_same<D, char>::value) d[0] = d0; else d = StringPiece(d0).toString();
    StringPiece s(s0);
    auto add = [&](StringPiece p) {
        if (ignoreEmpty && p.empty()) return;
        typename C::value_type v;
        detail::putPiece(v, p);
        out.insert(out.end(), v);
    };
    if (d.empty()) { add(s); return; }
    size_t pos = 0;
    for (;;) {
        size_t q = s.find(StringPiece(d), pos);
        if (q == StringPiece::npos) { add(s.subpiece(pos)); return; }
        add(s.subpiece(pos, q - pos));
        pos = q + d.size();
    }
}
template <class D, class It>
std::string join(const D& d, It b, It e) {
    std::string r; bool first = true;
    for (; b != e; ++b) { if (!first) r += to<std::string>(d); first = false; r += to<std::string>(*b); }
    return r;
}
template <class D, class C>
std::string join(const D& d, const C& c) { return join(d, c.begin(), c.end()); }
inline std::string hexlify(StringPiece s) { static const char* h = "0123456789abcdef"; std::string o; for (unsigned char c : s) { o += h[c >> 4]; o += h[c & 15]; } return o; }
inline std::string errnoStr(int e) { return strerror(e); }
}
