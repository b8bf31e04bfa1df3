// A plain SHA-256, written from FIPS 180-4, independent of the code under test.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <vector>

namespace ref {
using Digest = std::array<std::uint8_t, 32>;

namespace detail {
inline constexpr std::uint32_t K[64] = {
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be,
    0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa,
    0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85,
    0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3,
    0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f,
    0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
inline std::uint32_t rotr(std::uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
inline void compress(std::uint32_t *h, const std::uint8_t *p) {
    std::uint32_t w[64];
    for (int i = 0; i < 16; ++i)
        w[i] = std::uint32_t(p[4 * i]) << 24 | std::uint32_t(p[4 * i + 1]) << 16 | std::uint32_t(p[4 * i + 2]) << 8 | p[4 * i + 3];
    for (int i = 16; i < 64; ++i) {
        auto s0 = rotr(w[i - 15], 7) ^ rotr(w[i - 15], 18) ^ (w[i - 15] >> 3);
        auto s1 = rotr(w[i - 2], 17) ^ rotr(w[i - 2], 19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    std::uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
    for (int i = 0; i < 64; ++i) {
        auto S1 = rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25);
        auto ch = (e & f) ^ (~e & g);
        auto t1 = hh + S1 + ch + K[i] + w[i];
        auto S0 = rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22);
        auto t2 = S0 + ((a & b) ^ (a & c) ^ (b & c));
        hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
}
}  // namespace detail

inline Digest sha256(const std::uint8_t *p, std::size_t n) {
    std::uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
    std::size_t i = 0;
    for (; i + 64 <= n; i += 64) detail::compress(h, p + i);
    std::uint8_t last[128] = {};
    std::size_t r = n - i;
    if (r) std::memcpy(last, p + i, r);
    last[r] = 0x80;
    std::size_t len = r < 56 ? 64 : 128;
    for (int k = 0; k < 8; ++k) last[len - 1 - k] = std::uint8_t((std::uint64_t(n) * 8) >> (8 * k));
    for (std::size_t k = 0; k < len; k += 64) detail::compress(h, last + k);
    Digest d;
    for (int k = 0; k < 8; ++k) {
        d[4 * k] = std::uint8_t(h[k] >> 24);
        d[4 * k + 1] = std::uint8_t(h[k] >> 16);
        d[4 * k + 2] = std::uint8_t(h[k] >> 8);
        d[4 * k + 3] = std::uint8_t(h[k]);
    }
    return d;
}
inline Digest hash2(const Digest &a, const Digest &b) {
    std::uint8_t buf[64];
    std::memcpy(buf, a.data(), 32);
    std::memcpy(buf + 32, b.data(), 32);
    return sha256(buf, 64);
}
inline const std::vector<Digest> &zero_hashes() {
    static const std::vector<Digest> z = [] {
        std::vector<Digest> v{Digest{}};
        for (int i = 0; i < 64; ++i) v.push_back(hash2(v.back(), v.back()));
        return v;
    }();
    return z;
}
// depth of the smallest binary tree with n leaves
inline unsigned depth_of(unsigned __int128 n) {
    unsigned d = 0;
    while ((static_cast<unsigned __int128>(1) << d) < n) ++d;
    return d;
}
// SSZ merkleize: limit 0 means none (the number of chunks)
inline Digest merkleize(std::vector<Digest> level, std::uint64_t limit = 0) {
    unsigned depth = depth_of(limit ? limit : level.size());
    for (unsigned h = 0; h < depth; ++h) {
        if (level.empty()) level.push_back(zero_hashes()[h]);
        if (level.size() % 2) level.push_back(zero_hashes()[h]);
        std::vector<Digest> up(level.size() / 2);
        for (std::size_t i = 0; i < up.size(); ++i) up[i] = hash2(level[2 * i], level[2 * i + 1]);
        level.swap(up);
    }
    return level.empty() ? Digest{} : level[0];
}
inline Digest mix_in_length(const Digest &root, std::uint64_t length) {
    Digest l{};
    for (int i = 0; i < 8; ++i) l[i] = std::uint8_t(length >> (8 * i));
    return hash2(root, l);
}
inline std::vector<Digest> pack(const std::uint8_t *p, std::size_t n) {
    std::vector<Digest> r((n + 31) / 32, Digest{});
    for (std::size_t i = 0; i < n; ++i) r[i / 32][i % 32] = p[i];
    return r;
}
}  // namespace ref
