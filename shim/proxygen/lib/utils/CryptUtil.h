#pragma once
#include <folly/Range.h>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace proxygen {
inline std::string base64Encode(folly::ByteRange r) {
    static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    size_t i = 0, n = r.size();
    auto* p = r.data();
    for (; i + 2 < n; i += 3) { uint32_t v = p[i] << 16 | p[i + 1] << 8 | p[i + 2]; o += t[v >> 18]; o += t[v >> 12 & 63]; o += t[v >> 6 & 63]; o += t[v & 63]; }
    if (n - i == 1) { uint32_t v = p[i] << 16; o += t[v >> 18]; o += t[v >> 12 & 63]; o += "=="; }
    if (n - i == 2) { uint32_t v = p[i] << 16 | p[i + 1] << 8; o += t[v >> 18]; o += t[v >> 12 & 63]; o += t[v >> 6 & 63]; o += '='; }
    return o;
}
inline std::string md5Encode(folly::ByteRange r) {
    static const uint8_t S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
    static const uint32_t K[64] = {
        0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501, 0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821,
        0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8, 0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a,
        0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70, 0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665,
        0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1, 0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391};
    std::vector<uint8_t> m(r.data(), r.data() + r.size());
    uint64_t bits = (uint64_t)r.size() * 8;
    m.push_back(0x80);
    while (m.size() % 64 != 56) m.push_back(0);
    for (int i = 0; i < 8; ++i) m.push_back((uint8_t)(bits >> 8 * i));
    uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[16];
        memcpy(w, &m[o], 64);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
        for (int i = 0; i < 64; ++i) {
            uint32_t f; int g;
            if (i < 16) { f = (b & c) | (~b & d); g = i; }
            else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
            else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; }
            else { f = c ^ (b | ~d); g = 7 * i % 16; }
            f += a + K[i] + w[g];
            a = d; d = c; c = b;
            int s = S[i / 16][i % 4];
            b += f << s | f >> (32 - s);
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d;
    }
    std::string o;
    for (int i = 0; i < 16; ++i) { static const char* x = "0123456789abcdef"; uint8_t v = (uint8_t)(h[i / 4] >> 8 * (i % 4)); o += x[v >> 4]; o += x[v & 15]; }
    return o;
}
}  // namespace proxygen
