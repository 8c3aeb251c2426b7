#pragma once
#include <cassert>
#include <cctype>
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <stdexcept>
#include <string>
#include <folly/Range.h>
namespace folly {
struct ConversionError : std::range_error { using std::range_error::range_error; };
namespace detail {
inline std::string trim(StringPiece s) { while (!s.empty() && isspace((unsigned char)s.front())) s.pop_front(); while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); return s.toString(); }
template <class T> T parse(StringPiece p) {
    std::string s = trim(p);
    if constexpr (std::is_same<T, bool>::value) {
        std::string l = s; for (auto& c : l) c = tolower(c);
        if (l == "1" || l == "y" || l == "yes" || l == "t" || l == "true" || l == "on") return true;
        if (l == "0" || l == "n" || l == "no" || l == "f" || l == "false" || l == "off") return false;
        throw ConversionError("Invalid bool: " + s);
    } else if constexpr (std::is_floating_point<T>::value) {
        if (s.empty()) throw ConversionError("Empty input string");
        char* e; double v = strtod(s.c_str(), &e);
        if (*e) throw ConversionError("Non-digit character found: \"" + s + "\"");
        return (T)v;
    } else {
        if (s.empty()) throw ConversionError("Empty input string");
        size_t i = 0; bool neg = false;
        if (std::is_signed<T>::value && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; i = 1; }
        if (i == s.size()) throw ConversionError("No digits found in input string: \"" + s + "\"");
        unsigned __int128 v = 0;
        for (; i < s.size(); ++i) {
            if (s[i] < '0' || s[i] > '9') throw ConversionError("Non-digit character found: \"" + s + "\"");
            v = v * 10 + (s[i] - '0');
            if (v > (unsigned __int128)std::numeric_limits<T>::max() + (neg ? 1 : 0)) throw ConversionError("Overflow during conversion: \"" + s + "\"");
        }
        return neg ? (T)(-(__int128)v) : (T)v;
    }
}
template <class T> std::string show(const T& v) {
    if constexpr (std::is_same<T, bool>::value) return v ? "1" : "0";
    else if constexpr (std::is_same<T, char>::value) return std::string(1, v);
    else if constexpr (std::is_floating_point<T>::value) {
        // shortest representation that reads back
        char b[64];
        if (std::isnan(v)) return "NaN";
        if (std::isinf(v)) return v > 0 ? "Infinity" : "-Infinity";
        for (int p = 1; p <= 17; ++p) { snprintf(b, sizeof b, "%.*g", p, (double)v); if (strtod(b, nullptr) == (double)v) break; }
        return b;
    } else if constexpr (std::is_enum<T>::value) return std::to_string((typename std::underlying_type<T>::type)v);
    else if constexpr (std::is_integral<T>::value) return std::to_string(v);
    else return StringPiece(v).toString();
}
}
template <class Tgt, class Src, typename = std::enable_if_t<!std::is_same<Tgt, std::string>::value>>
Tgt to(const Src& s) {
    if constexpr (std::is_arithmetic<Src>::value && std::is_arithmetic<Tgt>::value) {
        Tgt r = static_cast<Tgt>(s);
        if ((Src)r != s) throw ConversionError("Overflow during arithmetic conversion");
        return r;
    } else {
        return detail::parse<Tgt>(StringPiece(s));
    }
}
template <class Tgt, typename = std::enable_if_t<std::is_same<Tgt, std::string>::value>, class... A>
std::string to(const A&... a) { std::string r; ((r += detail::show(a)), ...); return r; }
}
