// Hash trees: C05, C06, C19 (chunks over the limit), C04 (what runs on the CPU at hand)
#include <cstdlib>
#include <cstring>
#include <map>
#include <stdexcept>

#include "hash_common.hpp"
#include "ssz/hashtree.hpp"

using pbt::Bytes;
using pbt::check;
using pbt::Ctx;
using pbt::fail;
using pbt::hex;
using pbt::u64;
using pbt::u8;
using ref::Digest;

namespace {
ssz::Hasher::IMPL chosen(std::string *name = nullptr) {
    const char *e = std::getenv("MAMMON_ENGINE");
    auto c = hc::cpu();
    using I = ssz::Hasher::IMPL;
    auto give = [&](const char *n, I i) {
        if (name) *name = n;
        return i;
    };
    if (e && !std::strcmp(e, "SHA") && c.sha) return give("SHA", I::SHA);
    if (e && !std::strcmp(e, "AVX2") && c.avx2) return give("AVX2", I::AVX2);
    if (e && !std::strcmp(e, "AVX") && c.avx) return give("AVX", I::AVX);
    if (e && !std::strcmp(e, "SSE") && c.avx) return give("SSE", I::SSE);
    return give("default", I::NONE);
}
}  // namespace
#ifdef CUSTOM_HASHER
const auto ssz::HashTree::hasher = ssz::Hasher{chosen()};
#endif

namespace {
const std::string &engine_name() {
    static const std::string n = [] {
        std::string n;
        chosen(&n);
        return n;
    }();
    return n;
}
constexpr u64 MAX_LIMIT = ~u64(0);

struct Input {
    std::vector<ssz::Chunk> chunks;
    Bytes bytes;       // when the tree is made from a byte string
    bool from_bytes = false;
    u64 limit = 0;
    int how = 0;  // from what is kept, or from a temporary; without the limit if there is none
    std::vector<Digest> leaves() const {
        std::vector<Digest> r(chunks.size());
        for (std::size_t i = 0; i < r.size(); ++i) std::memcpy(r[i].data(), chunks[i].data(), 32);
        return r;
    }
    ssz::HashTree tree() const {
        if (how == 1) return from_bytes ? ssz::HashTree(Bytes(bytes), limit) : ssz::HashTree(std::vector<ssz::Chunk>(chunks), limit);
        if (how == 2 && !limit) return from_bytes ? ssz::HashTree(bytes) : ssz::HashTree(chunks);
        return from_bytes ? ssz::HashTree(bytes, limit) : ssz::HashTree(chunks, limit);
    }
    std::string text() const {
        return (from_bytes ? "byte string of " + std::to_string(bytes.size()) + " bytes" : std::to_string(chunks.size()) + " chunks") + ", limit " +
               std::to_string(limit);
    }
};
u64 gen_count(Ctx &c, bool large) {
    if (large) {
        if (c.coin()) return std::max<u64>(1, std::min<u64>(((1 + c.upto(16)) << (8 + c.upto(10))) + c.upto(2) - 1, c.chance(1, 5) ? 1600000 : 140000));
        return 5000 + c.upto(c.chance(1, 6) ? 1500000 : 120000);
    }
    switch (c.upto(6)) {
        case 0: return 1 + c.upto(4);
        case 1: return 1 + c.upto(20);
        case 2: return std::max<u64>(1, (u64(1) << c.upto(10)) + c.upto(2) - 1);
        case 3: return 1 + c.upto(130);
        case 4: return 1 + c.upto(c.chance(1, 10) ? 6000 : 700);
        default: return 1 + c.upto(60);
    }
}
u64 gen_limit(Ctx &c, u64 n) {
    u64 l;
    switch (c.upto(8)) {
        case 0: return 0;
        case 1: l = n; break;
        case 2: l = n + 1 + c.upto(3); break;
        case 3: l = n + c.upto(2 * n); break;
        case 4: l = u64(1) << c.upto(c.coin() ? 40 : 63); break;
        case 5: l = (u64(1) << c.upto(c.coin() ? 40 : 63)) + c.upto(2) - 1; break;
        case 6: l = c.upto(u64(1) << 40); break;
        case 7: l = c.seed() >> c.upto(63); break;
        default: l = MAX_LIMIT - c.upto(2); break;
    }
    return std::min(std::max(l, n), MAX_LIMIT);
}
void gen_chunks(Ctx &c, u8 *p, u64 n) {
    auto style = c.upto(6);
    u64 s = c.seed();
    if (style == 0 && n < 400) {
        c.fill(p, 32 * n);
        return;
    }
    for (u64 i = 0; i < n; ++i) {
        u64 v = pbt::splitmix(s);
        if (style == 1 && v % 3 == 0) std::memset(p + 32 * i, 0, 32);  // zero chunks, like the padding
        else if (style == 2 && i && v % 3 == 0) std::memcpy(p + 32 * i, p + 32 * (v / 3 % i), 32);
        else {
            u64 last = 0;
            for (int k = 0; k < 4; ++k) {
                u64 w = pbt::splitmix(s);
                if (style > 4 && k) {  // words that cancel out when they are added or compared in some way
                    const u64 how = w % 6;
                    w = how == 0 ? last : how == 1 ? 0 - last : how == 2 ? ~last : how == 3 ? 0 : how == 4 ? w : last << 32 | last >> 32;
                } else if (style > 4 && v % 3)
                    w = v % 3 == 1 ? 1 : u64(1) << (v % 64);
                std::memcpy(p + 32 * i + 8 * k, &w, 8);
                last = w;
            }
        }
    }
    if (style == 6)  // few that are not zero
        for (u64 i = 0; i < n; ++i)
            if (pbt::splitmix(s) % 4) std::memset(p + 32 * i, 0, 32);
    if (style == 3) std::memset(p + 32 * (n - 1), 0, 32);
}
Input gen_input(Ctx &c, bool large = false) {
    Input r;
    auto n = gen_count(c, large);
    r.from_bytes = c.coin();
    r.how = int(c.upto(2));
    r.chunks.resize(n);
    gen_chunks(c, r.chunks[0].data(), n);
    if (r.from_bytes) {
        auto len = c.coin() ? 32 * n : 32 * n - c.upto(31);
        if (c.chance(1, 12)) len = 0;
        r.bytes.assign(32 * n, 0);
        std::memcpy(r.bytes.data(), r.chunks[0].data(), 32 * n);
        r.bytes.resize(len);
        n = std::max<u64>(1, (len + 31) / 32);
        r.chunks.assign(n, ssz::Chunk{});
        if (len) std::memcpy(r.chunks[0].data(), r.bytes.data(), len);
    }
    r.limit = gen_limit(c, n);
    c.label(n == 1 ? "1 chunk" : n < 9 ? "2-8 chunks" : n < 100 ? "9-99 chunks" : n < 10000 ? "100+ chunks" : "10000+ chunks");
    c.label(!r.limit ? "no limit" : r.limit <= n ? "limit = chunks" : r.limit < (1u << 20) ? "limit < 2^20" : r.limit <= u64(1) << 40 ? "limit 2^20 to 2^40" : "limit > 2^40");
    if (r.from_bytes) c.label("byte string");
    return r;
}
// an input that differs a little
Input neighbour(Ctx &c, const Input &in) {
    Input r = in;
    auto n = r.chunks.size();
    switch (c.upto(6)) {
        case 0: r.chunks[c.below(n)][c.upto(31)] ^= u8(1u << c.upto(7)); break;
        case 1: std::swap(r.chunks[c.below(n)], r.chunks[c.below(n)]); break;
        case 2: r.limit = gen_limit(c, n); break;
        case 3: r.chunks.push_back(c.coin() ? ssz::Chunk{} : r.chunks[c.below(n)]); break;
        case 4: if (n > 1) r.chunks.pop_back(); break;
        case 5: r.chunks[c.below(n)] = r.chunks[c.below(n)]; break;
        default: r.chunks[n - 1][c.upto(31)] ^= u8(1u << c.upto(7)); break;
    }
    n = r.chunks.size();
    if (r.limit && r.limit < n) r.limit = n;
    r.from_bytes = c.coin();
    if (r.from_bytes) r.bytes.assign(r.chunks[0].data(), r.chunks[0].data() + 32 * n);
    c.label("like the one before");
    return r;
}
u64 gen_mixed(Ctx &c, u64 n) { return c.coin() ? n : c.word(); }

void roots_of(Ctx &c, const Input &in) {
    auto n = in.chunks.size();
    c.label("engine " + engine_name());
    c.nontrivial();
    auto keep = in.chunks;
    auto want = ref::merkleize(in.leaves(), in.limit);
    auto what = in.text() + ", engine " + engine_name();
    c.say(what);
    auto t = in.tree();
    auto compare = [&](const ssz::HashTree &t, const std::string &when) {
        auto r = t.hash_tree_root();
        if (std::memcmp(r.data(), want.data(), 32))
            fail("root of " + what + when + " is " + hex(r.data(), 32) + " instead of " + hex(want.data(), 32));
    };
    compare(t, "");
    check(keep == in.chunks, "the chunks were changed");
    auto mixes = c.upto(c.chance(1, 8) ? 7 : 3);
    std::string when;
    for (u64 i = 0; i < mixes; ++i) {
        auto len = gen_mixed(c, n);
        want = ref::mix_in_length(want, len);
        when += ", length " + std::to_string(len) + " mixed in";
        switch (c.upto(7)) {
            case 0: {  // on a copy
                auto u = t;
                u.mix_in(len);
                compare(u, when);
                t = u;
                break;
            }
            case 1: {  // moved away, and back
                auto u = std::move(t);
                u.mix_in(len);
                compare(u, when);
                t = std::move(u);
                break;
            }
            case 2: {  // assigned over another tree
                auto u = ssz::HashTree(std::vector<ssz::Chunk>(1 + c.upto(20)));
                u.mix_in(7);
                u = t;
                std::swap(t, u);
                t.mix_in(len);
                break;
            }
            default: t.mix_in(len);
        }
        compare(t, when);
        compare(t, when + ", asked again");
    }
}

void layout_of(Ctx &c, const Input &in) {
    c.label("engine " + engine_name());
    c.nontrivial();
    auto what = in.text() + ", engine " + engine_name();
    c.say(what);
    std::vector<Digest> want, level = in.leaves();
    Digest zero{};
    unsigned depth = 0;
    {
        u64 top = in.limit ? in.limit : level.size();
        while (depth < 64 && (u64(1) << depth) < top) ++depth;
    }
    if (depth == 0) want = level;
    for (unsigned h = 0; h < depth; ++h) {
        std::vector<Digest> up;
        if (level.size() % 2) level.push_back(zero);
        for (std::size_t i = 0; i < level.size(); i += 2) up.push_back(ref::hash2(level[i], level[i + 1]));
        want.insert(want.end(), up.begin(), up.end());
        level = up;
        zero = ref::hash2(zero, zero);
    }
    auto t = in.tree();
    auto first = t.hash_tree();
    auto compare = [&](const ssz::HashTree &t, const std::string &when) {
        auto got = t.hash_tree();
        if (got.size() != want.size())
            fail("tree of " + what + when + " has " + std::to_string(got.size()) + " nodes instead of " + std::to_string(want.size()));
        for (std::size_t i = 0; i < got.size(); ++i)
            if (std::memcmp(got[i].data(), want[i].data(), 32))
                fail("tree of " + what + when + ": node " + std::to_string(i) + " of " + std::to_string(got.size()) + " is " + hex(got[i].data(), 32) +
                     " instead of " + hex(want[i].data(), 32));
        auto r = t.hash_tree_root();
        check(!std::memcmp(r.data(), got.back().data(), 32), "the root of " + what + when + " is not the last node");
    };
    compare(t, "");
    std::string when;
    for (u64 i = 0, mixes = c.upto(c.chance(1, 8) ? 7 : 3); i < mixes; ++i) {
        auto len = gen_mixed(c, in.chunks.size());
        auto before = t;
        if (c.chance(1, 4)) {  // on another one
            auto u = c.coin() ? std::move(t) : t;
            u.mix_in(len);
            t = c.coin() ? std::move(u) : u;
        } else
            t.mix_in(len);
        check(before.hash_tree().size() == want.size(), "mixing in a length changed a copy of the tree");
        want.push_back(ref::mix_in_length(want.back(), len));
        when += ", length " + std::to_string(len) + " mixed in";
        compare(t, when);
    }
    check(first == in.tree().hash_tree(), "the tree of " + what + " built again differs");
}
void some(Ctx &c, bool large, void (*f)(Ctx &, const Input &)) {
    auto in = gen_input(c, large);
    f(c, in);
    if (in.chunks.size() > 140000 || !c.chance(1, 3)) return;
    for (u64 i = 0, n = large ? 1 : 1 + c.upto(2); i < n; ++i) {
        in = neighbour(c, in);
        f(c, in);
    }
}
void roots(Ctx &c, bool large) { some(c, large, roots_of); }
void layout(Ctx &c, bool large) { some(c, large, layout_of); }
}  // namespace

PROPERTY("C05", "roots", 200) { roots(c, false); }
PROPERTY("C05", "roots of many chunks", 1) { roots(c, true); }
PROPERTY("C06", "layout", 200) { layout(c, false); }
PROPERTY("C06", "layout of many chunks", 1) { layout(c, true); }

// Sequences whose numbers of chunks and bytes do not fit in 26 and 31 bits (27 and 32). Few of the chunks are not zero, so
// that most nodes are roots of empty subtrees.
namespace {
void huge(Ctx &c, unsigned bits, bool nodes, bool bytes) {
    u64 n = (u64(1) << bits) + 1 + c.upto(3000);
    u64 limit = c.pick({u64(0), n, n + c.upto(1000), u64(1) << 40, MAX_LIMIT});
    u64 len = bytes ? 32 * n - c.upto(31) : 32 * n;
    std::map<u64, Digest> level;
    u64 r = c.seed();
    for (int k = 0; k < 60; ++k) {
        u64 at = k < 10 ? u64(k) : k < 30 ? n - 1 - (k - 10) * (k - 10) : k < 40 ? (n >> 1) + k - 35 : pbt::splitmix(r) % n;
        for (auto &x : level[at]) x = u8(pbt::splitmix(r));
    }
    auto &end = level[n - 1];
    for (u64 i = 32 - (32 * n - len); i < 32; ++i) end[i] = 0;
    auto what = std::to_string(n) + " chunks" + (bytes ? " of " + std::to_string(len) + " bytes" : "") + ", limit " + std::to_string(limit) + ", engine " + engine_name();
    c.say(what);
    c.nontrivial();
    auto build = [&] {
        if (bytes) {
            Bytes b(len, 0);
            for (auto &[at, d] : level) std::memcpy(&b[32 * at], d.data(), std::min<u64>(32, len - 32 * at));
            return ssz::HashTree(b, limit);
        }
        std::vector<ssz::Chunk> chunks(n);
        for (auto &[at, d] : level) std::memcpy(chunks[at].data(), d.data(), 32);
        return ssz::HashTree(chunks, limit);
    };
    auto t = build();
    std::vector<ssz::Chunk> got;
    if (nodes) got = t.hash_tree();
    unsigned depth = 0;
    while (depth < 64 && (u64(1) << depth) < (limit ? limit : n)) ++depth;
    Digest zero{};
    u64 size = n, at = 0;
    for (unsigned h = 0; h < depth; ++h) {
        std::map<u64, Digest> up;
        for (auto &[i, d] : level) {
            auto l = level.find(i & ~u64(1)), r = level.find(i | 1);
            up[i / 2] = ref::hash2(l == level.end() ? zero : l->second, r == level.end() ? zero : r->second);
        }
        level = up;
        zero = ref::hash2(zero, zero);
        size = (size + 1) / 2;
        if (nodes) {
            check(at + size <= got.size(), "the tree of " + what + " has " + std::to_string(got.size()) + " nodes only");
            auto next = level.begin();
            for (u64 i = 0; i < size; ++i) {
                bool some = next != level.end() && next->first == i;
                auto &want = some ? next->second : zero;
                if (std::memcmp(got[at + i].data(), want.data(), 32))
                    fail("node " + std::to_string(i) + " of height " + std::to_string(h + 1) + " of " + what + " is " + hex(got[at + i].data(), 32) + " instead of " + hex(want.data(), 32));
                if (some) ++next;
            }
            at += size;
        }
    }
    if (nodes) check(at == got.size(), "the tree of " + what + " has " + std::to_string(got.size()) + " nodes instead of " + std::to_string(at));
    auto want = level[0];
    auto root = t.hash_tree_root();
    if (std::memcmp(root.data(), want.data(), 32)) fail("root of " + what + " is " + hex(root.data(), 32) + " instead of " + hex(want.data(), 32));
    t.mix_in(n);
    want = ref::mix_in_length(want, n);
    root = t.hash_tree_root();
    if (std::memcmp(root.data(), want.data(), 32)) fail("root with the length of " + what + " is " + hex(root.data(), 32) + " instead of " + hex(want.data(), 32));
}
}  // namespace
PROPERTY("C05huge", "2^26 chunks", 1) { huge(c, 26, false, false); }
PROPERTY("C06huge", "2^26 chunks", 1) { huge(c, 26, true, false); }
PROPERTY("C05bytes", "2^31 bytes", 1) { huge(c, 26, false, true); }
PROPERTY("C06bytes", "2^31 bytes", 1) { huge(c, 26, true, true); }
PROPERTY("C05giant", "2^27 chunks", 1) { huge(c, 27, false, c.coin()); }
PROPERTY("C06giant", "2^27 chunks", 1) { huge(c, 27, true, c.coin()); }

// more chunks than the limit: an exception, and nothing written out of bounds
PROPERTY("C19tree", "chunks", 1) {
    auto n = 1 + gen_count(c, false);
    bool bytes = c.coin();
    u64 limit;
    switch (c.upto(3)) {
        case 0: limit = n - 1; break;
        case 1: limit = 1 + c.upto(n - 2); break;
        case 2: limit = 1 + c.upto(std::min<u64>(n - 2, 3)); break;
        default: limit = n + c.upto(3); break;
    }
    std::vector<ssz::Chunk> chunks(n);
    gen_chunks(c, chunks[0].data(), n);
    auto len = 32 * n - c.upto(31);
    if (bytes) std::memset(chunks[0].data() + len, 0, 32 * n - len);
    Bytes b(chunks[0].data(), chunks[0].data() + len);
    bool over = n > limit;
    auto what = std::to_string(n) + (bytes ? " chunks of bytes" : " chunks") + ", limit " + std::to_string(limit);
    c.label(over ? (n == limit + 1 ? "one over" : "over") : n == limit ? "at the limit" : "below");
    c.say(what);
    c.nontrivial();
    bool refused = false;
    try {
        auto t = bytes ? ssz::HashTree(b, limit) : ssz::HashTree(chunks, limit);
        std::vector<Digest> leaves(n);
        for (std::size_t i = 0; i < n; ++i) std::memcpy(leaves[i].data(), chunks[i].data(), 32);
        if (!over) {
            auto want = ref::merkleize(leaves, limit);
            check(!std::memcmp(t.hash_tree_root().data(), want.data(), 32), "root of " + what);
        }
    } catch (const std::exception &e) {
        if (dynamic_cast<const pbt::Fail *>(&e)) throw;
        refused = true;
    }
    check(refused == over, what + (refused ? " refused" : " accepted"));
}

// ---------------------------------------------------------------------------------------------------------------- C04
// Run on the CPU at hand and on emulated ones
namespace {
std::string cpu_text() {
    auto p = hc::cpu();
    return std::string("CPU ") + (p.sha ? "with" : "without") + " SHA, " + (p.avx ? "with" : "without") + " AVX, " + (p.avx2 ? "with" : "without") + " AVX2";
}
// "SHA=1 AVX=0 AVX2=1": what the emulated CPU was asked to have
void as_asked() {
    const char *e = std::getenv("MAMMON_CPU");
    if (!e) return;
    auto p = hc::cpu();
    std::string got = std::string("SHA=") + (p.sha ? "1" : "0") + " AVX=" + (p.avx ? "1" : "0") + " AVX2=" + (p.avx2 ? "1" : "0");
    if (got != e) throw std::logic_error("the emulator gives " + got + " instead of " + e);
}
// leaves something on the stack where the next call has its variables
[[gnu::noinline]] void dirty_stack(u8 with) {
    volatile u8 a[2048];
    for (auto &x : a) x = with;
}
}  // namespace
PROPERTY("C04", "reported engines", 1) {
    as_asked();
    dirty_stack(c.coin() ? 0xff : u8(c.upto(255)));
    using I = ssz::Hasher::IMPL;
    auto got = ssz::Hasher::implemented();
    auto p = hc::cpu();
    c.label(cpu_text());
    c.nontrivial();
    auto has = [&](I i) { return !!(got & i); };
    check(has(I::SHA) == p.sha, cpu_text() + ": SHA engine " + (has(I::SHA) ? "reported" : "not reported"));
    check(has(I::AVX2) == p.avx2, cpu_text() + ": AVX2 engine " + (has(I::AVX2) ? "reported" : "not reported"));
    check(has(I::AVX) == p.avx, cpu_text() + ": AVX engine " + (has(I::AVX) ? "reported" : "not reported"));
    // the single block engine consists of AVX instructions
    check(has(I::SSE) == p.avx, cpu_text() + ": single block engine " + (has(I::SSE) ? "reported" : "not reported"));
    check(!(int(got) & ~15), "engines unknown to the library are reported");
    auto i = c.pick({I::SHA, I::AVX2, I::AVX, I::SSE, I::NONE});
    auto n = 1 + hc::gen_blocks(c, 60);
    bool def = c.coin();
    c.say(cpu_text() + ", engine " + std::to_string(int(i)) + (has(i) ? "" : " not reported") + ", " + std::to_string(n) + " blocks");
    if (i != I::NONE && !has(i)) return;
    Bytes in(64 * n), out(32 * n);
    hc::gen_input(c, in.data(), n);
    if (i == I::NONE && def) ssz::Hasher{}.hash_64b_blocks(out.data(), in.data(), n);
    else ssz::Hasher{i}.hash_64b_blocks(out.data(), in.data(), n);
    hc::compare("number " + std::to_string(int(i)) + " on a " + cpu_text(), out.data(), in.data(), n);
}
PROPERTY("C04", "default hash trees", 1) {
    as_asked();
    roots(c, false);
    c.label(cpu_text());
}
