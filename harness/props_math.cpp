// Integer helpers: C17. Compiled with the flags of the library, whose floating point arithmetic they depend on.
#include <cstdint>
#include <cstring>
#include <limits>
#include <string_view>

#include "gen.hpp"
#include "helpers/bytes_to_int.hpp"
#include "helpers/math.hpp"

namespace {
using pbt::check;
using pbt::Ctx;
using pbt::fail;
using pbt::u32;
using pbt::u64;
using pbt::u8;
using u16 = std::uint16_t;
using u128 = unsigned __int128;

std::string num(u64 x) { return std::to_string(x); }

template <class T>
void is_root(T x, T r, const char *what) {
    u128 y = u128(r) * r, z = (u128(r) + 1) * (u128(r) + 1);
    if (!(y <= x && x < z)) fail(std::string(what) + " of the " + num(8 * sizeof(T)) + "-bit integer " + num(x) + " is " + num(r));
}
template <class T>
void roots(T x) {
    is_root<T>(x, helpers::integer_squareroot<T>(x), "integer_squareroot");
    is_root<T>(x, helpers::ct_sqrt<T>(x), "ct_sqrt");
}
// the least k with 2^k >= n
template <class T>
void logarithm(T n) {
    int want = 0;
    if (n)
        while ((u128(1) << want) < n) ++want;
    int got = helpers::log2ceil(n);
    if (got != want) fail("log2ceil of the " + num(8 * sizeof(T)) + "-bit integer " + num(n) + " is " + std::to_string(got));
}

PROPERTY("C17", "all 8- and 16-bit integers", 1) {
    auto from = c.upto(65535);  // (only where to begin)
    c.say("all 8-bit and 16-bit integers from " + num(from));
    c.nontrivial();
    for (u32 i = 0; i < 65536; ++i) {
        auto x = u16(from + i);
        roots<u16>(x);
        if (x < 256) roots<u8>(u8(x));
        logarithm<u32>(x);
        logarithm<u64>(x);
    }
}

// an integer of T likely to be a boundary
template <class T>
T boundary(Ctx &c) {
    constexpr T max = std::numeric_limits<T>::max();
    constexpr int bits = 8 * sizeof(T);
    T small = T(c.upto(4)) - T(2);
    switch (c.upto(7)) {
        case 0: return T(c.upto(1000));
        case 1: return T(max - T(c.upto(1000)));
        case 2: return T((T(1) << c.below(bits)) + small);
        case 3: {  // next to a square
            T r = T(c.upto((u64(1) << (bits / 2)) - 1)) >> c.below(bits / 2);
            return T(r * r + small);
        }
        case 4: {  // next to a large square
            T r = T((u64(1) << (bits / 2)) - 1 - c.upto(1000));
            return T(r * r + small);
        }
        case 5: {  // between squares
            T r = T(c.upto((u64(1) << (bits / 2)) - 1));
            return T(r * r + c.upto(2 * u64(r)));
        }
        case 6: {  // where rounding to floating point goes up
            if (bits < 64) return T(c.upto(max));
            u64 x = (u64(1) << 53 | c.upto((u64(1) << 53) - 1)) << c.upto(10);
            return T(x + small);
        }
        default: return T(c.upto(max) >> c.below(bits));
    }
}
template <class T>
void square_roots(Ctx &c) {
    for (int i = 0; i < 40; ++i) roots<T>(boundary<T>(c));
    c.nontrivial();
}
PROPERTY("C17", "square roots of 32-bit integers", 30) { square_roots<u32>(c); }
PROPERTY("C17", "square roots of 64-bit integers", 60) {
    auto x = boundary<u64>(c);
    c.say(num(x));
    roots<u64>(x);
    roots<unsigned long long>(x);
    square_roots<u64>(c);
}
PROPERTY("C17", "logarithms", 30) {
    for (int i = 0; i < 20; ++i) {
        logarithm<u32>(boundary<u32>(c));
        logarithm<u64>(boundary<u64>(c));
    }
    auto k = c.upto(63);
    for (u64 d = 0; d < 3; ++d) logarithm<u64>((u64(1) << k) + d - 1);
    if (k < 32)
        for (u32 d = 0; d < 3; ++d) logarithm<u32>((u32(1) << k) + d - 1);
    logarithm<u32>(0);
    logarithm<u64>(0);
    logarithm<u64>(~u64(0));
    c.say("2^" + num(k));
    c.nontrivial();
}

// the values known to the compiler are those computed when run
template <class T, std::size_t N>
struct Table_ {
    T in[N], out[N];
};
constexpr auto at_compile_time = [] {
    Table_<u64, 130> t{};
    std::size_t k = 0;
    for (int i = 0; i < 64; ++i) t.in[k++] = u64(1) << i;
    for (int i = 0; i < 64; ++i) t.in[k++] = (u64(1) << i) - 1;
    t.in[k++] = ~u64(0);
    t.in[k++] = 0xfffffffe00000000ull;
    for (std::size_t i = 0; i < k; ++i) t.out[i] = helpers::ct_sqrt<u64>(t.in[i]);
    return t;
}();
PROPERTY("C17", "square roots at compile time", 1) {
    auto i = c.below(130);
    c.say(num(at_compile_time.in[i]));
    c.nontrivial();
    for (i = 0; i < 130; ++i) {
        is_root<u64>(at_compile_time.in[i], at_compile_time.out[i], "ct_sqrt, at compile time,");
        check(at_compile_time.out[i] == helpers::integer_squareroot<u64>(at_compile_time.in[i]), "the square root at compile time and when run differ");
    }
}

PROPERTY("C17", "hexadecimal", 30) {
    static const char digits[] = "0123456789abcdef", upper[] = "0123456789ABCDEF";
    for (int i = 0; i < 16; ++i)
        check(helpers::hextoint(digits[i]) == i && helpers::hextoint(upper[i]) == i, std::string("the value of the digit ") + digits[i] + " or " + upper[i]);
    // any value that an int has, in as many digits as it takes, or more
    auto want = c.upto(c.coin() ? 0x7fffffff : c.upto(0x7fffffff));
    std::string s;
    for (auto v = want; v; v /= 16) s.insert(s.begin(), (c.coin() ? digits : upper)[v % 16]);
    s.insert(0, c.chance(1, 4) ? c.upto(40) : c.upto(1), '0');
    c.say(s);
    c.nontrivial();
    const std::string_view view = s;
    auto got = helpers::strhex2int(view);
    check(u64(got) == want, "strhex2int of \"" + s + "\" is " + std::to_string(got));
    auto longer = s + "1f";
    check(u64(helpers::strhex2int(std::string_view(longer.data(), s.size()))) == want, "strhex2int of \"" + s + "\" in the middle of a text");
}
template <class T>
void little_endian(const u8 *p, const std::string &what) {
    T want = 0;
    for (std::size_t i = 0; i < sizeof(T); ++i) want = T(want | T(p[i]) << (8 * i));
    auto got = helpers::to_integer_little_endian<T>(p);
    if (got != want) fail("the little-endian " + num(8 * sizeof(T)) + "-bit integer at " + what + " is " + num(got));
}
PROPERTY("C17", "little-endian integers", 20) {
    auto at = c.upto(15);
    auto b = c.bytes(at + 8 + c.upto(8));
    auto what = "byte " + num(at) + " of " + pbt::hex(b);
    c.say(what);
    c.nontrivial();
    auto p = b.data() + at;
    little_endian<u8>(p, what);
    little_endian<u16>(p, what);
    little_endian<u32>(p, what);
    little_endian<u64>(p, what);
    little_endian<unsigned long long>(p, what);
}
}  // namespace
