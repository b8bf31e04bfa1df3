// Byte strings as byte strings (C16)
#include "values.hpp"

namespace {
using namespace core;

template <std::size_t N>
void as_bytes(Ctx &c) {
    using B = eth::Bytes<N>;
    auto b = c.bytes(N), other = c.coin() ? b : c.bytes(N);
    if (c.chance(1, 2)) other[c.below(N)] ^= u8(1u << c.upto(7));
    auto x = of_bytes<N>(b);
    const auto &cx = x;
    auto y = of_bytes<N>(other);
    auto what = "Bytes<" + num(N) + "> " + hex(b);
    c.say(what + ", " + hex(other));
    c.label(b == other ? "equal" : "different");
    is(x, b, what);
    check(B::size() == N && B::ssz_size == N && x.get_ssz_size() == N, "size of " + what);
    // printing
    auto s = x.to_string();
    check(s == hex0x(b), what + " prints " + s);
    B z;
    is(z, Bytes(N, 0), "a default Bytes<" + num(N) + ">");
    z.from_string(s);
    is(z, b, what + " read from " + s);
    check(helpers::bytes_to_string(b) == s, "bytes_to_string of a vector");
    check(helpers::bytes_to_string(x.to_array()) == s, "bytes_to_string of an array");
    // comparison
    check((x == y) == (b == other), what + " compared with " + hex(other));
    check((x != y) == (b != other), what + " != " + hex(other));
    check((x == other) == (b == other) && (x != other) == (b != other), what + " compared with the vector " + hex(other));
    check(x == b && x == x && !(x != x), what + " equals itself");
    auto shorter = b, longer = b;
    shorter.pop_back();
    longer.push_back(u8(c.upto(1)));
    check(!(x == shorter) && x != shorter, what + " equals a shorter vector");
    check(!(x == longer) && x != longer, what + " equals a longer vector");
    check(!(x == Bytes{}), what + " equals an empty vector");
    auto w = of_bytes<N + 1>(longer);
    check(!(x == w) && x != w && !(w == x), what + " equals one of another length");
    // element access
    for (std::size_t i = 0; i < N; ++i) check(cx[i] == b[i] && x[i] == b[i] && x.data()[i] == b[i], what + " at " + num(i));
    check(Bytes(x.begin(), x.end()) == b && Bytes(cx.cbegin(), cx.cend()) == b, "iteration over " + what);
    {
        Bytes got;
        for (auto q : x) got.push_back(q);
        check(got == b, "iteration over " + what);
    }
    check(static_cast<std::vector<u8>>(x) == b, what + " as a vector");
    // changes
    auto i = c.below(N);
    auto v = u8(c.upto(255));
    auto m = b;
    m[i] = v;
    auto x1 = x, x2 = x, x3 = x;
    x1[i] = v;
    x2.data()[i] = v;
    *(x3.begin() + i) = v;
    is(x1, m, what + " with byte " + num(i) + " set to " + num(v));
    is(x2, m, what + " with byte " + num(i) + " set to " + num(v) + " by data()");
    is(x3, m, what + " with byte " + num(i) + " set to " + num(v) + " by begin()");
    is(x, b, "a copy changed with the original: it");
    // exclusive or
    auto e = b;
    for (std::size_t k = 0; k < N; ++k) e[k] ^= other[k];
    z = x;
    z ^= y;
    is(z, e, what + " exclusive or " + hex(other));
    is(y, other, "the right hand side of exclusive or");
    z ^= y;
    is(z, b, what + " exclusive or " + hex(other) + " twice");
    z ^= z;
    is(z, Bytes(N, 0), what + " exclusive or itself");
    // encodings
    check(x.serialize() == b, what + " serializes to " + hex(x.serialize()));
    check(z.deserialize(b.begin(), b.end()), "the encoding of " + what + " is refused");
    is(z, b, what + " deserialized");
    z = y;
    check(!z.deserialize(longer.begin(), longer.end()) && !z.deserialize(shorter.begin(), shorter.end()), "bytes of another length deserialized");
    auto node = x.encode();
    check(node.IsScalar() && node.Scalar() == hex0x(b), "YAML form of " + what);
    z = y;
    check(z.decode(node), "the YAML form of " + what + " is refused");
    is(z, b, what + " decoded from YAML");
    auto root = x.hash_tree_root();
    check(to_bytes(model::root(bytes(N), Val{0, b, {}})) == Bytes(root.begin(), root.end()), "root of " + what);
}
PROPERTY("C16", "bytes", 40) {
    static const std::vector<Body> all = {EACH_LENGTH(as_bytes)};
    c.nontrivial();
    c.pick(all)(c);
}
}  // namespace
