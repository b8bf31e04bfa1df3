// Byte strings: conversions and concatenation (C16)
#include "values.hpp"

namespace {
using namespace core;

// --------------------------------------------------------------------------------------------------- C16: byte strings
template <std::size_t N, class I>
void from_integer(Ctx &c) {
    if constexpr (sizeof(I) <= N) {
        I i = static_cast<I>(c.word());
        Bytes want(N, 0);
        std::memcpy(want.data(), &i, sizeof(I));  // (little-endian hardware)
        auto what = "Bytes<" + num(N) + "> of the " + num(sizeof(I)) + "-byte integer " + std::to_string(+i);
        is(eth::Bytes<N>(i), want, what);
        eth::Bytes<N> x = of_bytes<N>(Bytes(N, 0xff));
        x = eth::Bytes<N>(i);
        is(x, want, what + ", assigned");
        if constexpr (sizeof(I) == N && std::unsigned_integral<I> && !std::same_as<I, bool>) {
            check(x.template to_integer_little_endian<I>() == i, what + " converts back to " + std::to_string(+x.template to_integer_little_endian<I>()));
            check(helpers::to_integer_little_endian<I>(x.to_array().data()) == i, what + " converts back to another integer by its address");
        }
    }
}
template <std::size_t N>
void integers(Ctx &c) {
    switch (c.upto(16)) {
        case 9: return from_integer<N, char>(c);
        case 10: return from_integer<N, char8_t>(c);
        case 11: return from_integer<N, char16_t>(c);
        case 12: return from_integer<N, char32_t>(c);
        case 13: return from_integer<N, wchar_t>(c);
        case 14: return from_integer<N, long long>(c);
        case 15: return from_integer<N, const int>(c);
        case 0: return from_integer<N, std::uint8_t>(c);
        case 1: return from_integer<N, std::int8_t>(c);
        case 2: return from_integer<N, std::uint16_t>(c);
        case 3: return from_integer<N, std::int16_t>(c);
        case 4: return from_integer<N, std::uint32_t>(c);
        case 5: return from_integer<N, std::int32_t>(c);
        case 6: return from_integer<N, std::uint64_t>(c);
        case 7: return from_integer<N, std::int64_t>(c);
        case 8: return from_integer<N, bool>(c);
        default: return from_integer<N, unsigned long long>(c);
    }
}
template <std::size_t N>
void hex_strings(Ctx &c) {
    using B = eth::Bytes<N>;
    auto len = c.pick({N, N, std::size_t(0), std::size_t(c.upto(N)), std::size_t(c.upto(N))});
    auto b = c.bytes(len);
    auto s = spelled(c, b);
    auto want = b;
    want.resize(N, 0);
    auto what = "Bytes<" + num(N) + "> of \"" + s.substr(0, 200) + "\"";
    c.say(what);
    const std::string_view view = s;
    is(B(view), want, what);
    is(B(std::string_view(s)), want, what + " (temporary)");
    auto x = of_bytes<N>(c.bytes(N));
    x.from_string(s);
    is(x, want, what + " by from_string");
    auto longer = s;  // inside a longer text
    longer += "00ff";
    is(B(std::string_view(longer.data(), s.size())), want, what + " inside a longer text");
    // refused
    auto bad = spelled(c, c.bytes(N + 1 + c.upto(c.coin() ? 1 : 40)));
    if (c.chance(1, 3)) bad.resize(2 * N + 3);
    must_throw([&] { B y{std::string_view(bad)}; }, "a string of " + num(bad.size()) + " characters is taken for " + num(N) + " bytes");
    must_throw([&] { x.from_string(bad); }, "from_string takes a string of " + num(bad.size()) + " characters for " + num(N) + " bytes");
    must_throw([&] { x.decode(YAML::Node(bad)); }, "YAML decoding takes a string of " + num(bad.size()) + " characters for " + num(N) + " bytes");
    auto plain = s.substr(c.pick({2, 2, 1}));
    if (c.chance(1, 3)) plain = "1x" + plain;
    if (!plain.starts_with("0x")) {
        must_throw([&] { B y{std::string_view(plain)}; }, "the string \"" + plain.substr(0, 100) + "\" without 0x is taken");
        must_throw([&] { x.from_string(plain); }, "from_string takes \"" + plain.substr(0, 100) + "\" without 0x");
    }
    x.from_string(s);
    is(x, want, what + " after refusals");
}
template <std::size_t N, std::size_t M>
void sum(Ctx &c) {
    auto a = c.bytes(N), b = c.bytes(M);
    auto want = a;
    want.insert(want.end(), b.begin(), b.end());
    const auto x = of_bytes<N>(a);
    const auto y = of_bytes<M>(b);
    const eth::Bytes<N + M> z = x + y;
    c.say(hex(a) + " + " + hex(b));
    is(z, want, hex(a) + " + " + hex(b));
    const eth::Bytes<N + M + N> w = x + y + x;
    want.insert(want.end(), a.begin(), a.end());
    is(w, want, hex(a) + " + " + hex(b) + " + " + hex(a));
    is(x, a, "the left hand side of +");
    is(y, b, "the right hand side of +");
}
PROPERTY("C16", "integers", 30) {
    static const std::vector<Body> all = {MORE_LENGTHS(integers)};
    c.nontrivial();
    for (int i = 0; i < 4; ++i) c.pick(all)(c);
}
PROPERTY("C16", "hexadecimal strings", 30) {
    static const std::vector<Body> all = {EACH_LENGTH(hex_strings)};
    c.nontrivial();
    c.pick(all)(c);
}
PROPERTY("C16", "concatenation", 20) {
    static const std::vector<Body> all = {sum<1, 1>,  sum<1, 8>,   sum<4, 4>,   sum<4, 28>,  sum<28, 4>, sum<8, 24>, sum<32, 32>, sum<20, 12>,
                                          sum<48, 32>, sum<32, 48>, sum<96, 1>, sum<1, 96>, sum<3, 5>,  sum<33, 31>, sum<7, 64>, sum<96, 96>, sum<48, 96>, sum<144, 48>, sum<255, 1>, sum<256, 300>};
    c.nontrivial();
    c.pick(all)(c);
}

}  // namespace
