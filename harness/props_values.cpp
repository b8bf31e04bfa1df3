// Bitfields (C18) and basic values (C25)
#include "values.hpp"

namespace {
using namespace core;
using eth::Bitlist;
using eth::Boolean;
using eth::Slot;

// ------------------------------------------------------------------------------------------------------ C18: bitfields
std::string digits(const Bytes &bits) {
    std::string s;
    for (auto b : bits) s += char('0' + b);
    return s;
}
template <class T>
std::string printed(const T &t) {
    std::ostringstream o;
    o << t;
    return o.str();
}
PROPERTY("C18", "bitlists: hexadecimal", 40) {
    u64 limit = c.pick({u64(0), u64(2048), u64(1) << 40, c.upto(3000)});
    auto v = gen(c, bitlist(limit));
    auto e = pack_bits(v.b, true);
    Bitlist x(limit);
    if (c.coin()) x.from_hexstring(hex0x(pack_bits(gen(c, bitlist(limit)).b, true)));
    auto what = "bitlist of limit " + num(limit) + " from " + hex0x(e).substr(0, 160);
    c.say(what);
    c.nontrivial();
    x.from_hexstring(spelled(c, e));
    check(x.size() == v.b.size(), what + " has size " + num(x.size()) + " instead of " + num(v.b.size()));
    check(printed(x) == digits(v.b), what + " prints " + printed(x).substr(0, 200) + " instead of " + digits(v.b).substr(0, 200));
    check(x.to_string() == hex0x(e), what + " converts to " + x.to_string().substr(0, 200));
    check(x.serialize() == e, what + " serializes to " + hex(x.serialize()));
    Bitlist y(limit);
    check(y.deserialize(e.begin(), e.end()) && y.size() == v.b.size() && x == y, what + " and from SSZ differ");
    // what is no bitlist
    auto bad = c.coin() ? Bytes{} : e;
    if (!bad.empty()) bad.back() = 0;
    must_throw([&] { y.from_hexstring(hex0x(bad)); }, "a bitlist without delimiter is taken: " + hex0x(bad).substr(0, 100));
    must_throw([&] { y.from_hexstring(hex0x(e).substr(2)); }, "a bitlist without 0x is taken: " + hex0x(e).substr(2, 100));
}
template <unsigned N>
void vector_of_bits(Ctx &c) {
    auto v = gen(c, bitvector(N));
    auto e = pack_bits(v.b, false);
    eth::Bitvector<N> x;
    if (c.coin()) acc::put(x, bitvector(N), gen(c, bitvector(N)));
    auto what = "Bitvector<" + num(N) + "> from " + hex0x(e).substr(0, 160);
    c.say(what);
    x.from_hexstring(spelled(c, e));
    check(printed(x) == digits(v.b), what + " prints " + printed(x).substr(0, 200) + " instead of " + digits(v.b).substr(0, 200));
    check(x.to_string() == hex0x(e), what + " converts to " + x.to_string().substr(0, 200));
    check(x.serialize() == e, what + " serializes to " + hex(x.serialize()));
    eth::Bitvector<N> y, z;
    acc::put(z, bitvector(N), v);
    check(y.deserialize(e.begin(), e.end()) && x == y && y == z, what + ", from SSZ and from its bits differ");
    must_throw([&] { y.from_hexstring(hex0x(e).substr(2)); }, "a bitvector without 0x is taken: " + hex0x(e).substr(2, 100));
    auto bad = c.coin() ? e : Bytes(e.size(), 0);
    if (N % 8 && c.coin())
        bad.back() |= u8(1u << (N % 8 + c.upto(7 - N % 8)));
    else
        bad.resize(bad.size() + 1 + c.upto(c.coin() ? 0 : 40), c.coin() ? 0 : u8(c.upto(255)));
    must_throw([&] { y.from_hexstring(hex0x(bad)); }, "more bits than it has are taken for a " + what + ": " + hex0x(bad).substr(0, 100));
}
// bitlists whose numbers of bits and bytes do not fit in 32 bits, or 31
void huge_bitlist(Ctx &c, u64 around) {
    u64 n = around + 1 + c.upto(3000);
    Bytes e(n / 8 + 1, 0);
    // bits at the ends and in between
    u64 r = c.seed();
    for (int w = 0; w < 40; ++w) {
        u64 at = w < 8 ? u64(w) * 37 : w < 24 ? e.size() - 1 - u64(w - 8) * 29 : pbt::splitmix(r) % e.size();
        for (u64 i = at; i < e.size() && i < at + 24; ++i) e[i] = u8(pbt::splitmix(r));
    }
    e.back() = u8((e.back() & ((1u << n % 8) - 1)) | 1u << n % 8);
    u64 limit = c.pick({u64(0), n, u64(1) << 40, ~u64(0)});
    c.say("bitlist of " + num(n) + " bits, limit " + num(limit));
    c.nontrivial();
    Bitlist x(limit);
    check(x.deserialize(e.begin(), e.end()), "a bitlist of " + num(n) + " bits is refused by the limit " + num(limit));
    check(x.size() == n, "a bitlist of " + num(n) + " bits has size " + num(x.size()));
    check(x.serialize() == e, "a bitlist of " + num(n) + " bits serializes to something else");
    Bitlist low(n - 1);
    check(!low.deserialize(e.begin(), e.end()), "a bitlist of " + num(n) + " bits is accepted by a smaller limit");
    auto got = x.hash_tree_root();
    auto bits = e;
    bits.back() &= u8(~(1u << n % 8));
    if (n % 8 == 0) bits.pop_back();
    e = Bytes();
    auto want = ref::mix_in_length(ref::merkleize(ref::pack(bits.data(), bits.size()), chunks_for(limit, 1, 256)), n);
    check(Bytes(got.begin(), got.end()) == Bytes(want.begin(), want.end()), "the root of a bitlist of " + num(n) + " bits, limit " + num(limit) + ", is " + hex(got) + " instead of " + hex(want));
}
PROPERTY("C18huge31", "2^31 bits", 1) { huge_bitlist(c, u64(1) << 31); }
PROPERTY("C18huge32", "2^32 bits", 1) { huge_bitlist(c, u64(1) << 32); }
// bitfields of up to millions of bits, for what is done for such only: everything but printing each bit
Bytes long_bits(Ctx &c, u64 n) {
    Bytes e((n + 7) / 8, 0);
    u64 r = c.seed(), rare = u64(1) << c.upto(16);
    switch (c.upto(3)) {
        case 0: break;
        case 1:
            for (auto &b : e) b = u8(pbt::splitmix(r));
            break;
        case 2: {
            auto pattern = c.bytes(1 + c.upto(40));
            for (std::size_t i = 0; i < e.size(); ++i) e[i] = pattern[i % pattern.size()];
            break;
        }
        default:  // long runs
            for (std::size_t i = 0, run = 0; i < e.size(); ++i) {
                if (pbt::splitmix(r) % rare == 0) run = pbt::splitmix(r);
                e[i] = run & 1 ? (run & 2 ? 0xff : u8(run >> 8)) : 0;
            }
    }
    if (c.coin())  // its ends
        for (u64 i = 0, k = 1 + c.upto(9); i < k && i < e.size(); ++i) e[c.coin() ? i : e.size() - 1 - i] = c.coin() ? 0 : u8(c.upto(255));
    if (n % 8) e.back() &= u8((1u << n % 8) - 1);
    return e;
}
template <class T, class F>
void long_bits_are(Ctx &c, F make, const Bytes &e, const Bytes &root, const std::string &what, u64 n) {
    auto text = hex0x(e, c.coin());
    T x = make(), y = make();
    if (c.coin()) y.from_hexstring(hex0x(c.coin() ? Bytes(e.size(), 1) : e));
    check(x.deserialize(e.begin(), e.end()), what + " is refused");
    y.from_hexstring(text);
    check(x == y && !(x != y), what + " from SSZ and from its text differ");
    for (auto z : {&x, &y}) {
        check(z->serialize() == e, what + " serializes to something else");
        check(z->to_string() == hex0x(e), what + " converts to something else");
        auto got = z->hash_tree_root();
        check(Bytes(got.begin(), got.end()) == root, "the root of " + what + " is " + hex(got) + " instead of " + hex(root));
    }
    T w = make();
    check(w.decode(YAML::Load(YAML::Dump(x.encode()))) && w == x && w.serialize() == e, what + " differs after a round trip through YAML");
    if (!n) return;
    auto other = e;
    auto at = c.coin() ? c.below(n) : n - 1 - std::min<u64>(n - 1, c.upto(100));
    other[at / 8] ^= u8(1u << at % 8);
    check(w.deserialize(other.begin(), other.end()), what + " with another bit is refused");
    check(!(w == x) && w != x && w.serialize() == other && w.to_string() == hex0x(other), what + " is not told from the same with bit " + num(at) + " changed");
}
void long_bitlist(Ctx &c) {
    u64 n = (u64(1) << (10 + c.upto(c.chance(1, 6) ? 13 : 10)));
    n = c.coin() ? n + c.upto(20) - 10 : n + c.upto(n);
    if (c.chance(1, 3)) n = n / 8 * 8 + c.upto(2) * 4;
    auto bits = long_bits(c, n);
    auto e = bits;
    if (n % 8 == 0) e.push_back(0);
    e.back() |= u8(1u << n % 8);
    u64 limit = c.pick({u64(0), n, n + 1 + c.upto(3000), u64(1) << 40, ~u64(0)});
    auto what = "a bitlist of " + num(n) + " bits, limit " + num(limit);
    c.say(what + ": " + hex(e.data(), e.size(), 60));
    c.label("long bitlist");
    c.nontrivial();
    auto want = ref::mix_in_length(ref::merkleize(ref::pack(bits.data(), bits.size()), chunks_for(limit, 1, 256)), n);
    long_bits_are<Bitlist>(c, [&] { return Bitlist(limit); }, e, Bytes(want.begin(), want.end()), what, n);
    Bitlist low(n - 1);
    check(!low.deserialize(e.begin(), e.end()), what + " is accepted by a smaller limit");
}
template <unsigned N>
void long_bitvector(Ctx &c) {
    auto e = long_bits(c, N);
    auto what = "a bitvector of " + num(N) + " bits";
    c.say(what + ": " + hex(e.data(), e.size(), 60));
    c.label("long bitvector");
    c.nontrivial();
    auto want = ref::merkleize(ref::pack(e.data(), e.size()));
    long_bits_are<eth::Bitvector<N>>(c, [] { return eth::Bitvector<N>(); }, e, Bytes(want.begin(), want.end()), what, N);
    eth::Bitvector<N> x;
    if (N % 8) {
        e.back() |= u8(1u << (N % 8 + c.upto(7 - N % 8)));
        check(!x.deserialize(e.begin(), e.end()), what + " is accepted with a bit after its last");
    }
    e.push_back(0);
    check(!x.deserialize(e.begin(), e.end()), what + " is accepted with a byte after its last");
}
PROPERTY("C18long", "long bitlists", 3) { long_bitlist(c); }
PROPERTY("C18long", "long bitvectors", 1) {
    switch (c.upto(5)) {
        case 0: long_bitvector<32769>(c); break;
        case 1: long_bitvector<65536>(c); break;
        case 2: long_bitvector<65539>(c); break;
        case 3: long_bitvector<131068>(c); break;
        case 4: long_bitvector<262151>(c); break;
        default: long_bitvector<1048576 + 20>(c);
    }
}
PROPERTY("C18", "bitvectors: hexadecimal", 40) {
    static const std::vector<Body> all = {vector_of_bits<1>,  vector_of_bits<2>,   vector_of_bits<4>,   vector_of_bits<7>,   vector_of_bits<8>,
                                          vector_of_bits<9>,  vector_of_bits<16>,  vector_of_bits<31>,  vector_of_bits<33>,  vector_of_bits<64>,
                                          vector_of_bits<65>, vector_of_bits<255>, vector_of_bits<256>, vector_of_bits<257>, vector_of_bits<513>, vector_of_bits<2048>, vector_of_bits<2049>, vector_of_bits<5000>};
    c.nontrivial();
    c.pick(all)(c);
}

// --------------------------------------------------------------------------------------------------- C25: basic values
u64 value_of(const Slot &s) { return static_cast<u64>(s); }
// what an operator gives, be it an integer or a slot
template <class T> u64 plain(const T &v) { return static_cast<u64>(v); }
PROPERTY("C25", "arithmetic", 50) {
    u64 m = c.word();
    Slot x{m};
    std::string log = num(m);
    auto steps = 1 + c.upto(9);
    for (u64 k = 0; k < steps; ++k) {
        u64 b = near_by(c, {m, 0});
        Slot y{b};
        const Slot cy{b};
        auto op = c.upto(17);
        static const char *names[] = {"=", "+=", "-=", "*=", "/=", "%=", "++x", "x++", "--x", "x--", "= integer", "|=", "&=", "<<=", "^=", ">>=", "+= and back", "swap"};
        log += std::string(", ") + names[op] + " " + num(b);
        c.label(names[op]);
        switch (op) {
            case 0: x = y; m = b; break;
            case 1: x += cy; m += b; break;
            case 2: x -= y; m -= b; break;
            case 3: x *= b; m *= b; break;
            case 4:
                if (b) x /= cy, m /= b;
                break;
            case 5:
                if (b) x %= y, m %= b;
                break;
            case 6: {
                const u64 r = plain(++x);
                check(r == ++m, "++ gives " + num(r) + " after " + log);
                break;
            }
            case 7: {
                const u64 r = plain(x++);
                check(r == m++, "x++ gives " + num(r) + " after " + log);
                break;
            }
            case 8: {
                const u64 r = plain(--x);
                check(r == --m, "-- gives " + num(r) + " after " + log);
                break;
            }
            case 9: {
                const u64 r = plain(x--);
                check(r == m--, "x-- gives " + num(r) + " after " + log);
                break;
            }
            case 10: x = b; m = b; break;
            case 11: x |= b; m |= b; break;
            case 12: x &= b; m &= b; break;
            case 13: x <<= b & 63; m <<= b & 63; break;
            case 14: x ^= b; m ^= b; break;
            case 15: x >>= b & 63; m >>= b & 63; break;
            case 16: {
                u64 r = plain(x += b);
                check(r == m + b, "+= gives " + num(r) + " after " + log);
                r = plain(x -= b);
                check(r == m, "-= gives " + num(r) + " after " + log);
                break;
            }
            default: {
                std::swap(x, y);
                check(value_of(y) == m, "swap leaves " + num(value_of(y)) + " after " + log);
                m = b;
            }
        }
        check(value_of(x) == m, "the value is " + num(value_of(x)) + " instead of " + num(m) + " after " + log);
    }
    c.say(log);
    c.nontrivial();
    u64 b = near_by(c, {m, 0});
    const Slot cx = x, cy{b};
    check(value_of(cx) == m, "a copy is " + num(value_of(cx)) + " instead of " + num(m));
    auto what = num(m) + " and " + num(b);
    check((cx < cy) == (m < b) && (cx <= cy) == (m <= b) && (cx > cy) == (m > b) && (cx >= cy) == (m >= b), "order of " + what);
    check((x < cy) == (m < b) && (cx == cy) == (m == b) && (cx != cy) == (m != b), "comparison of " + what);
    check(plain(cx + cy) == m + b && plain(cx - cy) == m - b && plain(cx * cy) == m * b, "sum, difference or product of " + what);
    // with plain integers (what of it compiles)
    [&](const auto &x, const auto &i) {
        if constexpr (requires { x < i, x <= i, i > x, i >= x; })
            check((x < i) == (m < i) && (x <= i) == (m <= i) && (i > x) == (i > m) && (i >= x) == (i >= m), "order of a slot and an integer, " + what);
        if constexpr (requires { u64(x + i), u64(i + x), u64(x - i), u64(i - x), u64(x * i); })
            check(u64(x + i) == m + i && u64(i + x) == m + i && u64(x - i) == m - i && u64(i - x) == i - m && u64(x * i) == m * i, "sum, difference or product of a slot and an integer, " + what);
        if constexpr (requires { u64(x / i), u64(x % i); })
            if (i) check(u64(x / i) == m / i && u64(x % i) == m % i, "quotient or remainder of a slot and an integer, " + what);
    }(cx, b);
    [&](const auto &x, const auto &y) {
        if constexpr (requires { u64(x ^ y), u64(x & y), u64(x | y), u64(~x), u64(-x), u64(x >> 1); })
            check(u64(x ^ y) == (m ^ b) && u64(x & y) == (m & b) && u64(x | y) == (m | b) && u64(~x) == ~m && u64(-x) == -m && u64(x >> (b & 63)) == m >> (b & 63), "bits of " + what);
    }(cx, cy);
    check(!cx == !m && (cx && cy) == (m && b) && (cx || cy) == (m || b), "truth values of " + what);
    check(value_of(std::max(cx, cy)) == std::max(m, b) && value_of(std::min(cx, cy)) == std::min(m, b), "maximum or minimum of " + what);
    if (b) check(plain(cx / cy) == m / b && plain(cx % cy) == m % b, "quotient or remainder of " + what);
    check((cx ? true : false) == (m != 0), "truth value of " + what);
}
PROPERTY("C25", "conversions", 30) {
    u64 m = c.word();
    const Slot x{m};
    auto e = encode(uint64(), Val{m, {}, {}});
    c.say(num(m));
    c.nontrivial();
    is(static_cast<eth::Bytes8>(x), e, num(m) + " as bytes");
    check(x.serialize() == e, num(m) + " serializes to " + hex(x.serialize()));
    check(Slot::ssz_size == 8 && x.get_ssz_size() == 8, "size of a slot");
    Slot y{c.word()};
    check(y.deserialize(e.begin(), e.end()) && value_of(y) == m, num(m) + " deserialized");
    auto n = x.encode();
    check(n.IsScalar() && n.Scalar() == num(m), "YAML form of " + num(m) + " is " + n.Scalar());
    y = Slot{c.word()};
    check(y.decode(n) && value_of(y) == m, "YAML form of " + num(m) + " decoded");
    check(YAML::Load(num(m)).as<Slot>() == x, num(m) + " as a slot from text");
    std::string other;  // a number that is none of these
    switch (c.upto(4)) {
        case 0: other = num(m) + "." + num(1 + c.upto(8)); break;
        case 1: other = "-" + num(m ? m : 1); break;
        case 2: other = num(m ? m : 1) + std::string(20, '0'); break;
        case 3: {  // 2^64 and more
            other = "18446744073709" + std::to_string(551616 + c.upto(99999));
            break;
        }
        default: other = num(m) + c.pick({"z", " 1", "_0", ",5", ".", "g"}) + "1"; break;
    }
    bool read = false;
    y = Slot{c.word()};
    try {
        read = y.decode(YAML::Load(other));
    } catch (const std::exception &) {
    }
    check(!read, other + " is read from YAML as " + num(value_of(y)));
    auto r = x.hash_tree_root();
    auto want = e;
    want.resize(32, 0);
    check(Bytes(r.begin(), r.end()) == want, "root of " + num(m) + " is " + hex(r));
    std::ostringstream o;
    o << x;
    check(o.str() == num(m), num(m) + " prints as " + o.str());
    Slot z;
    check(value_of(z) == 0, "a default slot is " + num(value_of(z)));
    u64 &ref = y;
    ref = ~m;
    check(value_of(y) == ~m && value_of(x) == m, "changing a slot through a reference");
}
PROPERTY("C25", "booleans", 20) {
    bool m = c.coin(), n = c.coin();
    const Boolean x{m};
    Boolean y{n};
    c.say(std::string(m ? "true" : "false") + (n ? " true" : " false"));
    c.nontrivial();
    check(bool(x) == m && (!x) == !m && (x ? true : false) == m, "a boolean's value");
    check((x == y) == (m == n) && (x != y) == (m != n), "comparison of booleans");
    is(static_cast<eth::Bytes1>(x), Bytes{u8(m)}, "a boolean as a byte");
    Bytes e{u8(m)};
    check(x.serialize() == e && Boolean::ssz_size == 1 && x.get_ssz_size() == 1, "a boolean's encoding");
    check(y.deserialize(e.begin(), e.end()) && bool(y) == m, "a boolean deserialized");
    Bytes bad{u8(2 + c.upto(253))};
    check(!y.deserialize(bad.begin(), bad.end()), "a boolean deserialized from " + num(bad[0]));
    auto node = x.encode();
    check(node.IsScalar() && node.Scalar() == (m ? "true" : "false"), "a boolean's YAML form is " + node.Scalar());
    y = Boolean(!m);
    check(bool(y) == !m, "a boolean assigned");
    check(y.decode(node) && bool(y) == m, "a boolean decoded");
    bool &r = y;
    r = !m;
    check(bool(y) == !m && bool(x) == m, "changing a boolean through a reference");
    auto root = x.hash_tree_root();
    auto want = e;
    want.resize(32, 0);
    check(Bytes(root.begin(), root.end()) == want, "a boolean's root");
    Boolean d;
    check(!bool(d), "a default boolean is true");
}
}  // namespace
