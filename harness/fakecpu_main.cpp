// A program that believes to run on the CPU that FAKE_CPU describes; it prints which engines the library reports and
// which ones are called, by stand-ins that only note the call
#include <cpuid.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>

#include "ssz/hasher.hpp"
#include "ssz/hashtree.hpp"

namespace {
using u64 = std::uint64_t;
// the last leaf, leaf 1, leaf 7, the vendor, and what else: see props_fakecpu.cpp
struct Fake {
    bool on = false, asked1 = false, asked7 = false;
    unsigned max = 0, eax1 = 0, set1 = 0, clear1 = 0, ebx7 = 0, ecx7 = 0, edx7 = 0, vendor = 0;
    u64 noise = 0;
    Fake() {
        if (auto e = std::getenv("FAKE_CPU"))
            on = std::sscanf(e, "%u %x %x %x %x %x %x %u %lx", &max, &eax1, &set1, &clear1, &ebx7, &ecx7, &edx7, &vendor, &noise) == 9;
    }
};
Fake &fake() {
    static Fake f;
    return f;
}
const char *const vendors[] = {"GenuineIntel", "AuthenticAMD", "HygonGenuine", "CentaurHauls", "  Shanghai  "};
int called = 0;
}  // namespace

extern "C" {
void fake_cpuid(unsigned leaf, unsigned sub, unsigned *r);
int fake_cpuid_max(unsigned leaf, unsigned *sig) {
    unsigned r[4];
    fake_cpuid(leaf, 0, r);
    if (sig) *sig = r[1];
    return r[0];
}
void fake_cpuid(unsigned leaf, unsigned sub, unsigned *r) {
    auto &f = fake();
    __cpuid_count(leaf, sub, r[0], r[1], r[2], r[3]);
    if (!f.on) return;
    if (leaf < 0x80000000 && leaf > f.max) {  // beyond the end: zeros, or what the last leaf has
        f.asked7 |= leaf == 7;
        if (f.noise & 1) std::memset(r, 0, 16);
        else if (f.max) fake_cpuid(f.max, sub, r);
        return;
    }
    if (leaf == 0) {
        f.asked7 |= f.max < 7;
        r[0] = f.max;
        std::memcpy(&r[1], vendors[f.vendor % 5], 4);
        std::memcpy(&r[3], vendors[f.vendor % 5] + 4, 4);
        std::memcpy(&r[2], vendors[f.vendor % 5] + 8, 4);
    } else if (leaf == 1) {
        f.asked1 = true;
        r[0] = f.eax1;
        r[2] = (r[2] | f.set1) & ~f.clear1;
    } else if (leaf == 7) {
        f.asked7 |= sub == 0;
        if (sub == 0) r[0] = f.noise >> 8 & 3, r[1] = f.ebx7, r[2] = f.ecx7, r[3] = f.edx7;
        else if (sub <= (f.noise >> 8 & 3)) r[0] = f.noise >> 10, r[1] = f.noise >> 20, r[2] = f.noise >> 30, r[3] = f.noise >> 4;
        else std::memset(r, 0, 16);
    }
}
int fake_cpu_supports(const char *name) {
    auto has = [](unsigned leaf, int reg, unsigned bit) {
        unsigned r[4];
        if (leaf > fake().max) {
            fake().asked7 = true;
            return 0;
        }
        fake_cpuid(leaf, 0, r);
        return int(r[reg] >> bit & 1);
    };
    std::string n = name;
    static const std::map<std::string, unsigned> seven{{"avx2", 5}, {"bmi", 3}, {"bmi2", 8}, {"sha", 29}, {"avx512f", 16}, {"avx512dq", 17},
                                                       {"avx512bw", 30}, {"avx512vl", 31}, {"avx512cd", 28}, {"adx", 19}};
    static const std::map<std::string, unsigned> one{{"avx", 28}, {"fma", 12}, {"sse4.1", 19}, {"sse4.2", 20}, {"ssse3", 9}, {"sse3", 0},
                                                     {"popcnt", 23}, {"aes", 25}, {"movbe", 22}, {"f16c", 29}};
    if (auto k = seven.find(n); k != seven.end()) return has(7, 1, k->second);
    if (auto k = one.find(n); k != one.end()) return has(1, 2, k->second);
    std::puts("unknown");  // a question this does not understand
    std::exit(0);
}
void __wrap_sha256_shani(unsigned char *, const unsigned char *, std::size_t) { called |= 8; }
void __wrap_sha256_8_avx2(unsigned char *, const unsigned char *, std::size_t) { called |= 4; }
void __wrap_sha256_4_avx(unsigned char *, const unsigned char *, std::size_t) { called |= 2; }
void __wrap_sha256_1_avx(unsigned char *, const unsigned char *) { called |= 1; }
}

int main() {
    using I = ssz::Hasher::IMPL;
    if (!fake().on) return 1;
    const int before = called;
    called = 0;
    const int reported = int(ssz::Hasher::implemented());
    static unsigned char in[64 * 40], out[32 * 40];
    ssz::Hasher{}.hash_64b_blocks(out, in, 40);
    const int by_default = called;
    called = 0;
    ssz::Hasher{I::NONE}.hash_64b_blocks(out, in, 40);
    ssz::Hasher{ssz::Hasher::implemented()}.hash_64b_blocks(out, in, 40);
    const int by_none = called;
    called = 0;
    ssz::HashTree{std::vector<ssz::Chunk>(40)}.hash_tree_root();
    const int by_tree = called;
    std::printf("reported %d start %d default %d none %d tree %d asked %d %d\n", reported, before, by_default, by_none, by_tree, fake().asked1, fake().asked7);
}
