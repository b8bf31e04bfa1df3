// What the CPU can run, by its own CPUID, and the engines that go with it
#pragma once
#include <cpuid.h>

#include <string>
#include <vector>

#include "gen.hpp"
#include "sha256_ref.hpp"
#include "ssz/hasher.hpp"

namespace hc {
using ssz::Hasher;
struct Cpu {
    bool sha, avx, avx2;
};
inline Cpu cpu() {
    unsigned a = 0, b = 0, c = 0, d = 0;
    Cpu r{};
    if (__get_cpuid_count(7, 0, &a, &b, &c, &d)) {
        r.sha = b & (1u << 29);
        r.avx2 = b & (1u << 5);
    }
    if (__get_cpuid(1, &a, &b, &c, &d)) r.avx = c & (1u << 28);
    return r;
}
struct Engine {
    std::string name;
    Hasher hasher;
};
inline const std::vector<Engine> &engines() {
    static const std::vector<Engine> e = [] {
        std::vector<Engine> v;
        auto c = cpu();
        if (c.sha) v.push_back({"SHA", Hasher{Hasher::IMPL::SHA}});
        if (c.avx2) v.push_back({"AVX2", Hasher{Hasher::IMPL::AVX2}});
        if (c.avx) v.push_back({"AVX", Hasher{Hasher::IMPL::AVX}});
        if (c.avx) v.push_back({"SSE", Hasher{Hasher::IMPL::SSE}});
        v.push_back({"default", Hasher{}});
        v.push_back({"NONE", Hasher{Hasher::IMPL::NONE}});
        v.push_back({"all reported", Hasher{Hasher::implemented()}});
        return v;
    }();
    return e;
}
// a number of blocks; the engines work by 1, 2, 4 and 8
inline std::size_t gen_blocks(pbt::Ctx &c, std::size_t max) {
    std::size_t n;
    switch (c.upto(7)) {
        case 0: n = c.upto(9); break;
        case 1:
        case 2: n = c.upto(40); break;
        case 3: n = 8 * c.upto(8) + c.upto(7); break;
        case 4: n = (std::size_t(1) << c.upto(8)) + c.upto(2) - 1; break;
        case 5: n = c.upto(130); break;
        case 6:
            if (max > 4096) {  // around multiples of powers of two
                n = ((1 + c.upto(16)) << c.upto(17)) + c.upto(2) - 1;
                if (n <= max) break;
            }
            [[fallthrough]];
        default: n = c.upto(max); break;
    }
    return std::min(n, max);
}
// n blocks; every word of a block may be a special value
inline void gen_input(pbt::Ctx &c, pbt::u8 *p, std::size_t n) {
    if (!n) return;
    auto style = c.upto(4);
    if (style <= 1) {  // all blocks different
        pbt::u64 s = c.seed();
        for (std::size_t i = 0; i < 8 * n; ++i) {
            pbt::u64 v = pbt::splitmix(s);
            std::memcpy(p + 8 * i, &v, 8);
        }
    } else if (style == 2) {
        c.fill(p, 64 * n);
    } else {  // words from a small set of extreme values
        static const pbt::u32 w[] = {0, 0xffffffff, 0x80000000, 0x7fffffff, 1, 0x01000000, 0xfffffffe, 0x5be0cd19};
        pbt::u64 s = c.seed();
        for (std::size_t i = 0; i < 16 * n; ++i) {
            auto r = pbt::splitmix(s);
            auto v = style == 3 || (r >> 40) % 4 ? w[r % 8] : pbt::u32(r >> 8);
            std::memcpy(p + 4 * i, &v, 4);
        }
    }
}
inline void compare(const std::string &engine, const pbt::u8 *out, const pbt::u8 *in, std::size_t n) {
    for (std::size_t i = 0; i < n; ++i) {
        auto d = ref::sha256(in + 64 * i, 64);
        if (std::memcmp(d.data(), out + 32 * i, 32))
            pbt::fail("engine " + engine + ", " + std::to_string(n) + " blocks: digest " + std::to_string(i) + " is " +
                      pbt::hex(out + 32 * i, 32) + ", SHA-256 of the block " + pbt::hex(in + 64 * i, 64) + " is " +
                      pbt::hex(d.data(), 32));
    }
}
}  // namespace hc
