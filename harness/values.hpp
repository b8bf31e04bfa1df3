// What the checks of plain values share
#pragma once
#include <sstream>

#include "access.hpp"
#include "core.hpp"

namespace core {
template <class F>
void must_throw(F f, const std::string &what) {
    try {
        f();
    } catch (const std::exception &) {
        return;
    }
    fail(what);
}
inline std::string num(u64 x) { return std::to_string(x); }

// numbers close to each other or to the ends
inline u64 near_by(Ctx &c, const std::vector<u64> &known) {
    if (!known.empty() && c.chance(3, 4)) {
        auto k = c.pick(known);
        switch (c.upto(5)) {
            case 0: return k;
            case 1: return k + 1;
            case 2: return k - 1;
            case 3: return k ^ (u64(1) << c.upto(63));
            case 4: return k + (u64(c.upto(3)) << 32);
            default: return k + c.upto(4) - 2;
        }
    }
    return c.word();
}
inline std::string spelled(Ctx &c, const Bytes &b) {
    auto s = hex0x(b);
    auto how = c.upto(3);
    u64 r = c.seed();
    for (std::size_t i = 2; i < s.size(); ++i)
        if (how == 1 || (how >= 2 && pbt::splitmix(r) & 1)) s[i] = char(std::toupper(s[i]));
    return s;
}
template <std::size_t N>
Bytes content(const eth::Bytes<N> &x) {
    auto &a = x.to_array();
    return Bytes(a.begin(), a.end());
}
template <std::size_t N>
eth::Bytes<N> of_bytes(const Bytes &b) {
    std::array<u8, N> a;
    std::copy(b.begin(), b.end(), a.begin());
    return eth::Bytes<N>(a);
}
template <std::size_t N>
void is(const eth::Bytes<N> &x, const Bytes &want, const std::string &what) {
    auto got = content(x);
    if (got != want) fail(what + " is " + hex(got) + " instead of " + hex(want));
}
using Body = void (*)(Ctx &);
#define EACH_LENGTH(f) f<1>, f<3>, f<4>, f<8>, f<20>, f<31>, f<32>, f<33>, f<48>, f<96>, f<300>
#define MORE_LENGTHS(f) EACH_LENGTH(f), f<2>, f<5>, f<7>, f<9>, f<16>, f<64>, f<121>, f<1000>
}  // namespace core
