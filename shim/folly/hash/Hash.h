#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <tuple>
#include <utility>
#include <folly/Range.h>
namespace folly {
namespace hash {
constexpr uint32_t FNV_32_HASH_START = 2166136261UL;
constexpr uint64_t FNV_64_HASH_START = 14695981039346656037ULL;
inline uint32_t fnv32_buf(const void* b, size_t n, uint32_t h = FNV_32_HASH_START) {
    const signed char* p = (const signed char*)b;
    for (size_t i = 0; i < n; ++i) { h += (h << 1) + (h << 4) + (h << 7) + (h << 8) + (h << 24); h ^= p[i]; }
    return h;
}
inline uint64_t fnv64_buf(const void* b, size_t n, uint64_t h = FNV_64_HASH_START) {
    const signed char* p = (const signed char*)b;
    for (size_t i = 0; i < n; ++i) { h += (h << 1) + (h << 4) + (h << 5) + (h << 7) + (h << 8) + (h << 40); h ^= p[i]; }
    return h;
}
inline uint64_t fnv64(const std::string& s, uint64_t h = FNV_64_HASH_START) { return fnv64_buf(s.data(), s.size(), h); }
inline uint32_t fnv32(const std::string& s, uint32_t h = FNV_32_HASH_START) { return fnv32_buf(s.data(), s.size(), h); }
inline uint64_t hash_128_to_64(uint64_t u, uint64_t l) {
    const uint64_t k = 0x9ddfea08eb382d69ULL;
    uint64_t a = (l ^ u) * k; a ^= (a >> 47);
    uint64_t b = (u ^ a) * k; b ^= (b >> 47);
    return b * k;
}
template <class T> size_t hash_combine(const T& t) { return std::hash<T>()(t); }
template <class T, class... A> size_t hash_combine(const T& t, const A&... a) { return hash_128_to_64(std::hash<T>()(t), hash_combine(a...)); }
struct SpookyHashV2 {
    static uint64_t Hash64(const void* m, size_t n, uint64_t seed) { return fnv64_buf(m, n, FNV_64_HASH_START ^ seed); }
};
}
using hash::SpookyHashV2;
}
// folly lets pairs and tuples be hashed out of the box
namespace std {
template <class A, class B> struct hash<std::pair<A, B>> { size_t operator()(const std::pair<A, B>& p) const { return folly::hash::hash_combine(p.first, p.second); } };
template <class... A> struct hash<std::tuple<A...>> { size_t operator()(const std::tuple<A...>& t) const { return std::apply([](const A&... a) { return folly::hash::hash_combine(a...); }, t); } };
}
