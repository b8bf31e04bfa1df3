// Included before everything in the library's sources of the "fakecpu" programs: CPUID is asked of a CPU that was made up
#pragma once
#include <cpuid.h>
extern "C" {
int fake_cpuid_max(unsigned leaf, unsigned *sig);
void fake_cpuid(unsigned leaf, unsigned sub, unsigned *r);
int fake_cpu_supports(const char *name);
}
static inline int fake_get_cpuid(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
    unsigned max = fake_cpuid_max(leaf & 0x80000000, nullptr), r[4];
    if (!max || max < leaf) return 0;
    fake_cpuid(leaf, sub, r);
    *a = r[0], *b = r[1], *c = r[2], *d = r[3];
    return 1;
}
#undef __cpuid
#undef __cpuid_count
#define __cpuid(leaf, a, b, c, d) __cpuid_count(leaf, 0, a, b, c, d)
#define __cpuid_count(leaf, sub, a, b, c, d) \
    do { \
        unsigned fake_r[4]; \
        fake_cpuid(leaf, sub, fake_r); \
        (a) = fake_r[0], (b) = fake_r[1], (c) = fake_r[2], (d) = fake_r[3]; \
    } while (0)
#define __get_cpuid_max fake_cpuid_max
#define __get_cpuid(leaf, a, b, c, d) fake_get_cpuid(leaf, 0, a, b, c, d)
#define __get_cpuid_count fake_get_cpuid
#define __builtin_cpu_supports(name) fake_cpu_supports(name)
