// The library's building blocks, alone and composed in containers of random schemas: C10, C13, C14, C18, C19, C22, C23
#include <map>

#include "core_checks.hpp"
#include "common/bitlist.hpp"
#include "common/boolean.hpp"
#include "common/bytes.hpp"
#include "common/containers.hpp"
#include "common/slot.hpp"
#include "dynamic.hpp"

namespace {
using Check = void (*)(Ctx &, const Type &);
const Type &building(Ctx &c) { return pick_type(c, building_types()); }
const Type &bitfield(Ctx &c) {
    static const std::vector<Type> r = [] {
        std::vector<Type> r;
        for (auto &t : building_types())
            if (t.schema->k == K::Bitlist || t.schema->k == K::Bitvector) r.push_back(t);
        return r;
    }();
    return pick_type(c, r);
}
const Type &limited_block(Ctx &c) {
    static const std::vector<Type> r = [] {
        std::vector<Type> r;
        for (auto &t : building_types()) {
            std::vector<std::vector<int>> p;
            limited(t.schema, 4200, {}, p);
            if (!p.empty()) r.push_back(t);
        }
        return r;
    }();
    return pick_type(c, r);
}
// lists that may have more than 65536 elements, of basic values
const Type &endless(Ctx &c) {
    static const std::vector<Type> r = [] {
        std::vector<Type> r;
        for (auto &t : building_types()) {
            auto &s = *t.schema;
            bool list = s.k == K::Bitlist || (s.k == K::List && (is_scalar(s.elem) || s.elem->k == K::Container));
            if (list && (!s.n || s.n > 70000)) r.push_back(t);
        }
        return r;
    }();
    return pick_type(c, r);
}
void add(const char *id, const char *name, double weight, const Type &(*type)(Ctx &), Check f) {
    pbt::registry().push_back({id, name, weight, [f, type](Ctx &c) { f(c, type(c)); }});
}
void composed(Ctx &c, Check f) { f(c, dynamic::any_container(c)); }
const bool registered = [] {
    add("C10", "building blocks", 60, building, strictness);
    add("C11long", "long lists", 1, endless, [](Ctx &c, const Type &t) {
        AlwaysLong l;
        yaml_round_trip(c, t);
    });
    add("C13", "building blocks", 40, building, equality);
    add("C14", "building blocks", 40, building, histories);
    add("C19", "building blocks", 60, limited_block, limits);
    add("C19far", "building blocks, far over the limit", 60, limited_block, far_over);
    add("C23", "building blocks", 60, building, defaults);
    add("C18", "bitfields: serialization", 60, bitfield, serialization);
    add("C18", "bitfields: roots", 30, bitfield, roots);
    add("C18", "bitfields: YAML", 20, bitfield, yaml_round_trip);
    add("C18", "bitfields: strictness", 40, bitfield, strictness);
    add("C22", "building blocks: serialization", 40, building, serialization);
    add("C22", "building blocks: roots", 40, building, roots);
    add("C22", "building blocks: strictness", 40, building, strictness);
    add("C22", "building blocks: YAML", 20, building, yaml_round_trip);
    using Named = std::pair<const char *, Check>;
    for (auto [name, f] : {Named{"containers: serialization", serialization}, Named{"containers: roots", roots}, Named{"containers: strictness", strictness},
                           Named{"containers: YAML", yaml_round_trip}, Named{"containers: histories", histories}})
        pbt::registry().push_back({"C22", name, 40, [f](Ctx &c) { composed(c, f); }});
    return true;
}();
}  // namespace

// ------------------------------------------------------------------------------- containers of more than 2^31 bytes
namespace {
using ref::Digest;
using Wide = eth::Bytes<256>;
struct Huge : public ssz::Container {
    eth::Slot first;
    eth::ListVariableSizedParts<eth::ListFixedSizedParts<Wide>> lists{1 << 20};
    eth::Boolean flag;
    eth::Bitlist bits{2048};
    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&first, &lists, &flag, &bits}); }
    std::vector<u8> serialize() const override { return serialize_({&first, &lists, &flag, &bits}); }
    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override { return deserialize_(it, end, {&first, &lists, &flag, &bits}); }
    YAML::Node encode() const override { return {}; }
    bool decode(const YAML::Node &) override { return false; }
};
void put32(Bytes &b, std::size_t at, u64 x) {
    for (int i = 0; i < 4; ++i) b[at + i] = u8(x >> (8 * i));
}
u64 get32(const Bytes &b, std::size_t at) { return b[at] | b[at + 1] << 8 | b[at + 2] << 16 | u64(b[at + 3]) << 24; }
void huge_container(Ctx &c) {
    // the elements of the inner lists
    std::vector<u64> count{(u64(1) << 22) + c.upto(300), (u64(1) << 22) + c.upto(300), 1 + c.upto(4)};
    auto bits = gen(c, bitlist(2048));
    auto tail = pack_bits(bits.b, true);
    u64 first = c.word(), flag = c.coin(), r = c.seed();
    u64 all = count[0] + count[1] + count[2], fixed = 8 + 4 + 1 + 4, body = 12 + 256 * all;
    Bytes e(fixed + body + tail.size(), 0);
    for (int i = 0; i < 8; ++i) e[i] = u8(first >> (8 * i));
    put32(e, 8, fixed);
    e[12] = u8(flag);
    put32(e, 13, fixed + body);
    u64 at = 12;
    for (int i = 0; i < 3; ++i) {
        put32(e, fixed + 4 * i, at);
        at += 256 * count[i];
    }
    std::copy(tail.begin(), tail.end(), e.end() - tail.size());
    // most elements are zero
    std::map<u64, Digest> roots;
    for (int k = 0; k < 40; ++k) {
        u64 i = k < 20 ? all - 1 - k : k < 30 ? count[0] + k - 25 : pbt::splitmix(r) % all;
        auto p = &e[fixed + 12 + 256 * i];
        for (int j = 0; j < 256; ++j) p[j] = u8(pbt::splitmix(r));
        roots[i] = ref::merkleize(ref::pack(p, 256));
    }
    auto what = "a container of " + std::to_string(e.size()) + " bytes";
    c.say(what);
    c.nontrivial();
    auto o = std::make_unique<Huge>();
    check(o->deserialize(e.cbegin(), e.cend()), what + " is refused");
    check(static_cast<u64>(o->first) == first && bool(o->flag) == bool(flag) && o->lists.size() == 3 && o->bits.size() == bits.b.size(), what + " is decoded to something else");
    for (int i = 0; i < 3; ++i) check(o->lists.cbegin()[i].size() == count[i], "list " + std::to_string(i) + " of " + what + " has " + std::to_string(o->lists.cbegin()[i].size()) + " elements");
    check(o->serialize() == e, what + " is encoded to something else");
    std::vector<Digest> inner;
    u64 base = 0;
    for (auto n : count) {
        std::vector<Digest> l(n, ref::zero_hashes()[3]);
        for (auto k = roots.lower_bound(base); k != roots.end() && k->first < base + n; ++k) l[k->first - base] = k->second;
        inner.push_back(ref::mix_in_length(ref::merkleize(std::move(l)), n));
        base += n;
    }
    Digest a{}, b{};
    std::copy(e.begin(), e.begin() + 8, a.begin());
    b[0] = u8(flag);
    auto want = ref::merkleize({a, ref::mix_in_length(ref::merkleize(inner, 1 << 20), 3), b, root(bitlist(2048), bits)});
    auto got = o->hash_tree_root();
    check(Bytes(got.begin(), got.end()) == Bytes(want.begin(), want.end()), "the root of " + what + " is " + hex(got) + " instead of " + hex(want));
    o.reset();
    // offsets past the end, or before the one before
    auto where = c.pick({std::size_t(13), std::size_t(fixed + 4), std::size_t(fixed + 8)});
    auto was = get32(e, where);
    auto bad = where == 13 ? c.pick({e.size() + 1, u64(fixed - 1), u64(0xffffffff)}) : c.pick({body + 1, u64(11), u64(0xffffffff)});
    put32(e, where, bad);
    o = std::make_unique<Huge>();
    check(!o->deserialize(e.cbegin(), e.cend()), what + " is accepted with the offset " + std::to_string(bad) + " instead of " + std::to_string(was));
}
PROPERTY("C22huge", "2^31 bytes", 1) { huge_container(c); }
}  // namespace
