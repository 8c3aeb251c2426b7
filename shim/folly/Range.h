#pragma once
#include <algorithm>
#include <cstring>
#include <functional>
#include <iosfwd>
#include <iterator>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
#include <folly/Portability.h>
#include <folly/Likely.h>
namespace folly {
template <class Iter>
class Range {
public:
    using value_type = typename std::remove_const<typename std::remove_reference<typename std::iterator_traits<Iter>::reference>::type>::type;
    using iterator = Iter;
    using const_iterator = Iter;
    using size_type = size_t;
    using reference = typename std::iterator_traits<Iter>::reference;
    using string_type = std::basic_string<char>;
    static const size_t npos = std::string::npos;
    constexpr Range() : b_(), e_() {}
    constexpr Range(Iter b, Iter e) : b_(b), e_(e) {}
    constexpr Range(Iter b, size_t n) : b_(b), e_(b + n) {}
    Range(std::nullptr_t) = delete;
    template <class T = Iter, typename = std::enable_if_t<std::is_same<T, const char*>::value>>
    Range(Iter s) : b_(s), e_(s + std::strlen(s)) {}  // NOLINT
    template <class T = Iter, typename = std::enable_if_t<std::is_same<T, const char*>::value>>
    Range(const std::string& s) : b_(s.data()), e_(s.data() + s.size()) {}  // NOLINT
    template <class T = Iter, typename = std::enable_if_t<std::is_same<T, const char*>::value>>
    Range(std::string_view s) : b_(s.data()), e_(s.data() + s.size()) {}  // NOLINT
    template <class T = Iter, typename = std::enable_if_t<std::is_same<T, const char*>::value>>
    Range(const std::string& s, size_t from) : b_(s.data() + from), e_(s.data() + s.size()) { if (from > s.size()) throw std::out_of_range("index out of range"); }
    template <class T = Iter, typename = std::enable_if_t<std::is_same<T, const char*>::value>>
    Range(const std::string& s, size_t from, size_t n) : b_(s.data() + from), e_(s.data() + from + std::min(n, s.size() - from)) {}
    template <class U, typename = std::enable_if_t<!std::is_same<U, Iter>::value && std::is_convertible<U, Iter>::value>>
    Range(const Range<U>& o) : b_(o.begin()), e_(o.end()) {}  // NOLINT
    template <class U, class T = Iter, typename = std::enable_if_t<std::is_same<T, const unsigned char*>::value && std::is_same<U, const char*>::value>, int = 0>
    explicit Range(const Range<U>& o) : b_(reinterpret_cast<Iter>(o.begin())), e_(reinterpret_cast<Iter>(o.end())) {}
    constexpr size_t size() const { return e_ - b_; }
    constexpr size_t walk_size() const { return e_ - b_; }
    constexpr bool empty() const { return b_ == e_; }
    constexpr Iter data() const { return b_; }
    constexpr Iter begin() const { return b_; }
    constexpr Iter end() const { return e_; }
    constexpr Iter start() const { return b_; }
    reference front() const { return *b_; }
    reference back() const { return *(e_ - 1); }
    reference operator[](size_t i) const { return b_[i]; }
    reference at(size_t i) const { if (i >= size()) throw std::out_of_range("index out of range"); return b_[i]; }
    std::string str() const { return std::string(reinterpret_cast<const char*>(&*b_), size()); }
    std::string toString() const { return std::string(b_, e_); }
    operator std::string_view() const { return std::string_view(b_, size()); }
    void assign(Iter b, Iter e) { b_ = b; e_ = e; }
    void reset(Iter b, size_t n) { b_ = b; e_ = b + n; }
    void clear() { b_ = Iter(); e_ = Iter(); }
    void advance(size_t n) { if (n > size()) throw std::out_of_range("index out of range"); b_ += n; }
    void subtract(size_t n) { if (n > size()) throw std::out_of_range("index out of range"); e_ -= n; }
    void pop_front() { ++b_; }
    void pop_back() { --e_; }
    Range subpiece(size_t first, size_t n = npos) const {
        if (first > size()) throw std::out_of_range("index out of range");
        return Range(b_ + first, std::min(n, size() - first));
    }
    int compare(const Range& o) const {
        size_t n = std::min(size(), o.size());
        int r = n ? std::memcmp(&*b_, &*o.b_, n) : 0;
        if (r == 0) r = size() < o.size() ? -1 : size() > o.size() ? 1 : 0;
        return r;
    }
    size_t find(const Range& o, size_t pos = 0) const { return std::string_view(*this).find(std::string_view(o), pos); }
    size_t find(value_type c, size_t pos = 0) const { return std::string_view(*this).find(c, pos); }
    size_t rfind(value_type c) const { return std::string_view(*this).rfind(c); }
    size_t find_first_of(const Range& o, size_t pos = 0) const { return std::string_view(*this).find_first_of(std::string_view(o), pos); }
    bool contains(const Range& o) const { return find(o) != npos; }
    bool contains(value_type c) const { return find(c) != npos; }
    bool startsWith(const Range& o) const { return size() >= o.size() && std::equal(o.begin(), o.end(), b_); }
    bool startsWith(value_type c) const { return !empty() && front() == c; }
    bool endsWith(const Range& o) const { return size() >= o.size() && std::equal(o.begin(), o.end(), e_ - o.size()); }
    bool endsWith(value_type c) const { return !empty() && back() == c; }
    bool removePrefix(const Range& p) { return startsWith(p) && (b_ += p.size(), true); }
    bool removeSuffix(const Range& p) { return endsWith(p) && (e_ -= p.size(), true); }
private:
    Iter b_, e_;
};
using StringPiece = Range<const char*>;
using ByteRange = Range<const unsigned char*>;
using MutableStringPiece = Range<char*>;
inline bool operator==(const StringPiece& a, const StringPiece& b) { return a.size() == b.size() && a.compare(b) == 0; }
inline bool operator!=(const StringPiece& a, const StringPiece& b) { return !(a == b); }
inline bool operator<(const StringPiece& a, const StringPiece& b) { return a.compare(b) < 0; }
inline bool operator>(const StringPiece& a, const StringPiece& b) { return a.compare(b) > 0; }
inline bool operator<=(const StringPiece& a, const StringPiece& b) { return a.compare(b) <= 0; }
inline bool operator>=(const StringPiece& a, const StringPiece& b) { return a.compare(b) >= 0; }
inline std::ostream& operator<<(std::ostream& o, const StringPiece& s) { return o.write(s.data(), s.size()); }
}
namespace std {
template <> struct hash<folly::StringPiece> { size_t operator()(const folly::StringPiece& s) const { return std::hash<std::string_view>()(s); } };
}
