// A model of SSZ written from the specification: schemas, values, encoding, strict decoding, hash tree roots.
// Nothing of the library under test is used here.
#pragma once
#include <algorithm>
#include <functional>
#include <memory>
#include <numeric>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "gen.hpp"
#include "sha256_ref.hpp"

namespace model {
using pbt::Bytes;
using pbt::Ctx;
using pbt::u32;
using pbt::u64;
using pbt::u8;

enum class K { Uint64, Bool, Bytes, Bitvector, Bitlist, Vector, List, Container };
struct Schema;
using S = std::shared_ptr<const Schema>;
struct Schema {
    K k;
    u64 n = 0;  // length in bytes, bits or elements; for lists the limit, 0 being none
    S elem;
    std::vector<std::pair<std::string, S>> fields;
    std::string name;
};
// A value: u for numbers and booleans, b for byte strings and bits (one 0 or 1 per bit), kids for the rest
struct Val {
    u64 u = 0;
    Bytes b;
    std::vector<Val> kids;
    bool operator==(const Val &) const = default;
};

inline S uint64() {
    static const S s = std::make_shared<Schema>(Schema{K::Uint64, 8, nullptr, {}, "uint64"});
    return s;
}
inline S boolean() {
    static const S s = std::make_shared<Schema>(Schema{K::Bool, 1, nullptr, {}, "boolean"});
    return s;
}
inline S bytes(u64 n) { return std::make_shared<Schema>(Schema{K::Bytes, n, nullptr, {}, "Bytes" + std::to_string(n)}); }
inline S bitvector(u64 n) { return std::make_shared<Schema>(Schema{K::Bitvector, n, nullptr, {}, "Bitvector[" + std::to_string(n) + "]"}); }
inline S bitlist(u64 n) { return std::make_shared<Schema>(Schema{K::Bitlist, n, nullptr, {}, "Bitlist[" + std::to_string(n) + "]"}); }
inline S vector(S e, u64 n) { return std::make_shared<Schema>(Schema{K::Vector, n, e, {}, "Vector[" + e->name + ", " + std::to_string(n) + "]"}); }
inline S list(S e, u64 n) { return std::make_shared<Schema>(Schema{K::List, n, e, {}, "List[" + e->name + ", " + std::to_string(n) + "]"}); }
inline S container(std::string name, std::vector<std::pair<std::string, S>> fields) {
    return std::make_shared<Schema>(Schema{K::Container, 0, nullptr, std::move(fields), std::move(name)});
}

inline bool basic(const S &s) { return s->k == K::Uint64 || s->k == K::Bool; }
// the size of the encoding, 0 for variable size types
inline u64 fixed_size(const S &s) {
    switch (s->k) {
        case K::Uint64: return 8;
        case K::Bool: return 1;
        case K::Bytes: return s->n;
        case K::Bitvector: return (s->n + 7) / 8;
        case K::Bitlist:
        case K::List: return 0;
        case K::Vector: return fixed_size(s->elem) * s->n;
        case K::Container: {
            u64 t = 0;
            for (auto &f : s->fields) {
                auto z = fixed_size(f.second);
                if (!z) return 0;
                t += z;
            }
            return t;
        }
    }
    return 0;
}
inline Val default_value(const S &s) {
    Val v;
    switch (s->k) {
        case K::Bytes:
        case K::Bitvector: v.b.assign(s->n, 0); break;
        case K::Vector: v.kids.assign(s->n, default_value(s->elem)); break;
        case K::Container:
            for (auto &f : s->fields) v.kids.push_back(default_value(f.second));
            break;
        default: break;
    }
    return v;
}

// the chunks that n parts of a size fill
inline u64 chunks_for(u64 n, u64 size, u64 chunk) { return u64((static_cast<unsigned __int128>(n) * size + chunk - 1) / chunk); }
inline Bytes pack_bits(const Bytes &bits, bool delimiter) {
    Bytes r((bits.size() + (delimiter ? 1 : 0) + 7) / 8, 0);
    for (std::size_t i = 0; i < bits.size(); ++i)
        if (bits[i]) r[i / 8] |= u8(1u << (i % 8));
    if (delimiter) r[bits.size() / 8] |= u8(1u << (bits.size() % 8));
    return r;
}
inline void put32(Bytes &o, std::size_t at, u32 v) {
    for (int i = 0; i < 4; ++i) o[at + i] = u8(v >> (8 * i));
}
inline u32 get32(const u8 *p) { return u32(p[0]) | u32(p[1]) << 8 | u32(p[2]) << 16 | u32(p[3]) << 24; }

// Places of an encoding where a small change is likely to matter
struct Marks {
    std::vector<std::pair<std::size_t, std::size_t>> offsets;  // position of an offset, start of what it is relative to
    std::vector<std::size_t> bools, last_bits;                 // boolean bytes, last bytes of bitfields
    std::vector<std::size_t> cuts;                             // boundaries between parts
};
// A deviation from the encoding, made at the chosen sequence of parts: bytes between the fixed and the variable
// parts, or between variable parts, with the offsets adjusted to them
struct Quirk {
    int at = -1;  // which sequence with variable parts, in order; -1 none
    int kind = 0;
    u64 amount = 0;
    int seen = 0;
    bool applied = false;
};

inline void encode_to(const S &s, const Val &v, Bytes &o, Marks *m, Quirk *q = nullptr);

inline void encode_parts(const std::vector<std::pair<S, const Val *>> &parts, Bytes &o, Marks *m, Quirk *q) {
    auto base = o.size();
    std::vector<std::size_t> at;
    bool variable = false;
    for (auto &[s, v] : parts) {
        if (m) m->cuts.push_back(o.size());
        if (fixed_size(s)) {
            encode_to(s, *v, o, m, q);
            at.push_back(~std::size_t(0));
        } else {
            at.push_back(o.size());
            if (m) m->offsets.push_back({o.size(), base});
            o.resize(o.size() + 4);
            variable = true;
        }
    }
    bool mine = variable && q && q->at == q->seen++;
    if (mine) q->applied = true;
    if (mine && q->kind == 0) o.resize(o.size() + q->amount, 0);  // a gap before the first variable part
    u64 k = 0;
    for (std::size_t i = 0; i < parts.size(); ++i)
        if (~at[i]) {
            if (m) m->cuts.push_back(o.size());
            auto off = u32(o.size() - base);
            if (mine && q->kind == 1 && k == q->amount % 4) off += u32(q->amount / 4 + 1);  // one offset too large
            if (mine && q->kind == 2 && k == q->amount % 4) off -= u32(q->amount / 4 + 1);  // one too small
            put32(o, at[i], off);
            encode_to(parts[i].first, *parts[i].second, o, m, q);
            ++k;
        }
    if (mine && q->kind == 3) o.resize(o.size() + 1 + q->amount, 0);  // bytes after the last part
}
inline void encode_to(const S &s, const Val &v, Bytes &o, Marks *m, Quirk *q) {
    switch (s->k) {
        case K::Uint64:
            for (int i = 0; i < 8; ++i) o.push_back(u8(v.u >> (8 * i)));
            break;
        case K::Bool:
            if (m) m->bools.push_back(o.size());
            o.push_back(u8(v.u));
            break;
        case K::Bytes: o.insert(o.end(), v.b.begin(), v.b.end()); break;
        case K::Bitvector:
        case K::Bitlist: {
            auto p = pack_bits(v.b, s->k == K::Bitlist);
            o.insert(o.end(), p.begin(), p.end());
            if (m) m->last_bits.push_back(o.size() - 1);
            break;
        }
        case K::Vector:
        case K::List: {
            std::vector<std::pair<S, const Val *>> parts;
            parts.reserve(v.kids.size());
            for (auto &k : v.kids) parts.push_back({s->elem, &k});
            encode_parts(parts, o, m, q);
            break;
        }
        case K::Container: {
            std::vector<std::pair<S, const Val *>> parts;
            for (std::size_t i = 0; i < v.kids.size(); ++i) parts.push_back({s->fields[i].second, &v.kids[i]});
            encode_parts(parts, o, m, q);
            break;
        }
    }
}
inline Bytes encode(const S &s, const Val &v, Marks *m = nullptr, Quirk *q = nullptr) {
    Bytes o;
    encode_to(s, v, o, m, q);
    return o;
}

// The value whose encoding is exactly these bytes, if there is one
inline std::optional<Val> decode(const S &s, const u8 *p, std::size_t n);

inline bool decode_parts(const std::vector<S> &parts, const u8 *p, std::size_t n, std::vector<Val> &out) {
    std::vector<std::size_t> offsets;
    std::size_t pos = 0, fixed = 0;
    for (auto &s : parts) fixed += fixed_size(s) ? fixed_size(s) : 4;
    if (n < fixed) return false;
    std::vector<std::size_t> which;
    out.assign(parts.size(), Val{});
    for (std::size_t i = 0; i < parts.size(); ++i) {
        auto z = fixed_size(parts[i]);
        if (z) {
            auto v = decode(parts[i], p + pos, z);
            if (!v) return false;
            out[i] = std::move(*v);
            pos += z;
        } else {
            offsets.push_back(get32(p + pos));
            which.push_back(i);
            pos += 4;
        }
    }
    if (offsets.empty()) return n == fixed;
    if (offsets[0] != fixed) return false;
    offsets.push_back(n);
    for (std::size_t k = 0; k < which.size(); ++k) {
        if (offsets[k] > offsets[k + 1] || offsets[k + 1] > n) return false;
        auto v = decode(parts[which[k]], p + offsets[k], offsets[k + 1] - offsets[k]);
        if (!v) return false;
        out[which[k]] = std::move(*v);
    }
    return true;
}
inline std::optional<Val> decode(const S &s, const u8 *p, std::size_t n) {
    Val v;
    switch (s->k) {
        case K::Uint64:
            if (n != 8) return {};
            for (int i = 0; i < 8; ++i) v.u |= u64(p[i]) << (8 * i);
            return v;
        case K::Bool:
            if (n != 1 || p[0] > 1) return {};
            v.u = p[0];
            return v;
        case K::Bytes:
            if (n != s->n) return {};
            v.b.assign(p, p + n);
            return v;
        case K::Bitvector: {
            if (n != (s->n + 7) / 8) return {};
            for (std::size_t i = 0; i < 8 * n; ++i) {
                bool bit = p[i / 8] >> (i % 8) & 1;
                if (i < s->n) v.b.push_back(bit);
                else if (bit) return {};
            }
            return v;
        }
        case K::Bitlist: {
            if (n == 0 || p[n - 1] == 0) return {};
            std::size_t len = 8 * n - 1;
            while (!(p[len / 8] >> (len % 8) & 1)) --len;
            if (s->n && len > s->n) return {};
            for (std::size_t i = 0; i < len; ++i) v.b.push_back(p[i / 8] >> (i % 8) & 1);
            return v;
        }
        case K::Vector: {
            std::vector<S> parts(s->n, s->elem);
            if (!decode_parts(parts, p, n, v.kids)) return {};
            return v;
        }
        case K::List: {
            std::size_t count;
            if (n == 0) return v;
            if (auto z = fixed_size(s->elem)) {
                if (n % z) return {};
                count = n / z;
            } else {
                if (n < 4) return {};
                auto first = get32(p);
                if (first % 4 || first == 0 || first > n) return {};
                count = first / 4;
            }
            if (s->n && count > s->n) return {};
            std::vector<S> parts(count, s->elem);
            if (!decode_parts(parts, p, n, v.kids)) return {};
            return v;
        }
        case K::Container: {
            std::vector<S> parts;
            for (auto &f : s->fields) parts.push_back(f.second);
            if (!decode_parts(parts, p, n, v.kids)) return {};
            return v;
        }
    }
    return {};
}
inline std::optional<Val> decode(const S &s, const Bytes &b) {
    static const u8 none = 0;
    return decode(s, b.empty() ? &none : b.data(), b.size());
}

inline ref::Digest root(const S &s, const Val &v) {
    switch (s->k) {
        case K::Uint64:
        case K::Bool:
        case K::Bytes:
        case K::Bitvector: {
            auto e = encode(s, v);
            return ref::merkleize(ref::pack(e.data(), e.size()));
        }
        case K::Bitlist: {
            auto e = pack_bits(v.b, false);
            return ref::mix_in_length(ref::merkleize(ref::pack(e.data(), e.size()), chunks_for(s->n, 1, 256)), v.b.size());
        }
        case K::Vector:
        case K::List: {
            std::vector<ref::Digest> chunks;
            u64 limit = s->n;
            if (basic(s->elem)) {
                Bytes e;
                for (auto &k : v.kids) encode_to(s->elem, k, e, nullptr);
                chunks = ref::pack(e.data(), e.size());
                limit = chunks_for(s->n, fixed_size(s->elem), 32);
            } else
                for (auto &k : v.kids) chunks.push_back(root(s->elem, k));
            if (s->k == K::Vector) return ref::merkleize(chunks);
            return ref::mix_in_length(ref::merkleize(chunks, limit), v.kids.size());
        }
        case K::Container: {
            std::vector<ref::Digest> chunks;
            for (std::size_t i = 0; i < v.kids.size(); ++i) chunks.push_back(root(s->fields[i].second, v.kids[i]));
            return ref::merkleize(chunks);
        }
    }
    return {};
}

inline std::string hex0x(const Bytes &b, bool upper = false) {
    auto d = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    std::string s = "0x";
    for (auto x : b) {
        s += d[x >> 4];
        s += d[x & 15];
    }
    return s;
}
// The text of a scalar in the consensus test vectors
inline std::string scalar_text(const S &s, const Val &v) {
    switch (s->k) {
        case K::Uint64: return std::to_string(v.u);
        case K::Bool: return v.u ? "true" : "false";
        case K::Bytes: return hex0x(v.b);
        case K::Bitvector: return hex0x(pack_bits(v.b, false));
        case K::Bitlist: return hex0x(pack_bits(v.b, true));
        default: return "";
    }
}
inline bool is_scalar(const S &s) { return s->k != K::Vector && s->k != K::List && s->k != K::Container; }

// A short rendering of a value for messages
inline std::string show(const S &s, const Val &v, std::size_t max = 300) {
    if (is_scalar(s)) {
        auto t = scalar_text(s, v);
        return t.size() > max ? t.substr(0, max) + "..." : t;
    }
    std::string o = s->k == K::Container ? "{" : "[";
    for (std::size_t i = 0; i < v.kids.size(); ++i) {
        if (o.size() > max) {
            o += "...";
            break;
        }
        if (i) o += ", ";
        if (s->k == K::Container) o += s->fields[i].first + ": ";
        o += show(s->k == K::Container ? s->fields[i].second : s->elem, v.kids[i], 40);
    }
    return o + (s->k == K::Container ? "}" : "]");
}

// ------------------------------------------------------------------------------------------------------- generation
inline u64 gen_length(Ctx &c, u64 limit, u64 &budget, u64 unit) {
    u64 cap = std::max<u64>(1, budget / std::max<u64>(1, unit));
    if (limit) cap = std::min(cap, limit);
    u64 n;
    switch (c.upto(5)) {
        case 0: n = 0; break;
        case 1: n = 1; break;
        case 2: n = c.upto(std::min<u64>(cap, 4)); break;
        case 3: n = limit && limit <= budget / std::max<u64>(1, unit) ? limit : cap; break;
        default: n = c.upto(cap); break;
    }
    n = std::min(n, cap);
    budget -= std::min(budget, n * unit);
    return n;
}
// how much one element of a schema weighs
inline u64 weight(const S &s) {
    switch (s->k) {
        case K::Vector: return 1 + s->n * weight(s->elem) / 4;
        case K::Container: {
            u64 t = 1;
            for (auto &f : s->fields) t += weight(f.second);
            return t;
        }
        case K::List: return 2;
        default: return 1;
    }
}
inline void mutate(Ctx &c, const S &s, Val &v, u64 elements = 20);
// another element of a sequence: now and then one that was there before, or one that differs from it in one place
inline Val gen_in(Ctx &c, const S &s, u64 &budget);
inline Val gen_next(Ctx &c, const S &s, const std::vector<Val> &before, u64 &budget) {
    if (before.empty() || s->k == K::Bool || !c.chance(1, 8)) return gen_in(c, s, budget);
    auto v = before[before.size() - 1 - c.below(std::min<std::size_t>(before.size(), 3))];
    if (c.chance(3, 4)) mutate(c, s, v, std::min<u64>(budget, 5));
    return v;
}
inline Val gen_in(Ctx &c, const S &s, u64 &budget) {
    Val v;
    switch (s->k) {
        case K::Uint64: v.u = c.word(); break;
        case K::Bool: v.u = c.coin(); break;
        case K::Bytes: v.b = c.bytes(s->n); break;
        case K::Bitvector:
        case K::Bitlist: {
            u64 n = s->n;
            if (s->k == K::Bitlist) {
                u64 cap = s->n ? s->n : 3000;
                switch (c.upto(5)) {
                    case 0: n = std::min<u64>(c.upto(9), cap); break;
                    case 1: n = std::min<u64>(8 * c.upto(8) + c.upto(2), cap); break;
                    case 2: n = std::min<u64>(cap, 4096); break;
                    case 3: n = std::min<u64>(256 * (1 + c.upto(3)) + c.upto(2) - 1, cap); break;
                    default: n = c.upto(std::min<u64>(cap, 700)); break;
                }
            }
            v.b.resize(n);
            switch (c.upto(4)) {
                case 0: break;
                case 1: std::fill(v.b.begin(), v.b.end(), 1); break;
                case 2:
                    for (u64 i = 0, k = 1 + c.upto(2); i < k && n; ++i) v.b[c.below(n)] = 1;
                    break;
                default:
                    if (n <= 16)
                        for (auto &x : v.b) x = u8(c.upto(1));
                    else {
                        u64 r = c.seed();
                        for (auto &x : v.b) x = u8(pbt::splitmix(r) & 1);
                    }
            }
            break;
        }
        case K::Vector:
        case K::List: {
            u64 n = s->k == K::Vector ? s->n : gen_length(c, s->n, budget, weight(s->elem));
            v.kids.reserve(n);
            if (n > 12) {  // many elements: from one seed, or mostly default with a few others
                if (c.chance(1, 5)) {
                    v.kids.assign(n, default_value(s->elem));
                    for (u64 i = 0, k = c.upto(3); i < k; ++i) v.kids[c.below(n)] = gen_in(c, s->elem, budget);
                } else {
                    auto q = Ctx::quiet(c.seed());
                    for (u64 i = 0; i < n; ++i) v.kids.push_back(gen_next(q, s->elem, v.kids, budget));
                }
            } else
                for (u64 i = 0; i < n; ++i) v.kids.push_back(gen_next(c, s->elem, v.kids, budget));
            break;
        }
        case K::Container:
            for (std::size_t i = 0; i < s->fields.size(); ++i) {
                auto &f = s->fields[i].second;
                if (i && f == s->fields[i - 1].second && f->k != K::Bool && c.chance(1, 10)) {  // like the field before
                    auto again = v.kids.back();
                    if (c.coin()) mutate(c, f, again, std::min<u64>(budget, 5));
                    v.kids.push_back(std::move(again));
                } else
                    v.kids.push_back(gen_in(c, f, budget));
            }
            break;
    }
    return v;
}
inline Val gen(Ctx &c, const S &s, u64 elements = 60) {
    u64 budget = elements;
    return gen_in(c, s, budget);
}
// a random valid change in one place of the value (which may by chance leave it as it is)
inline void mutate(Ctx &c, const S &s, Val &v, u64 elements) {
    u64 budget = elements;
    switch (s->k) {
        case K::Uint64:
            if (c.coin()) v.u ^= u64(1) << c.upto(63);
            else v.u = c.coin() ? v.u + 1 : c.word();
            break;
        case K::Bool: v.u ^= 1; break;
        case K::Bytes: v.b[c.below(v.b.size())] ^= u8(1u << c.upto(7)); break;
        case K::Bitvector: v.b[c.below(v.b.size())] ^= 1; break;
        case K::Bitlist:
            if (!v.b.empty() && c.coin()) v.b[c.below(v.b.size())] ^= 1;
            else if (!v.b.empty() && c.coin()) v.b.pop_back();
            else if (!s->n || v.b.size() < s->n) v.b.push_back(u8(c.upto(1)));
            break;
        case K::Vector: mutate(c, s->elem, v.kids[c.below(v.kids.size())], budget); break;
        case K::List: {
            auto n = v.kids.size();
            auto what = c.upto(4);
            if (n && what <= 1) mutate(c, s->elem, v.kids[c.below(n)], budget);
            else if (n > 1 && what == 2) std::swap(v.kids[c.below(n)], v.kids[c.below(n)]);
            else if (n && what == 3) v.kids.erase(v.kids.begin() + c.below(n));
            else if (!s->n || n < s->n) v.kids.insert(v.kids.begin() + c.upto(n), gen_in(c, s->elem, budget));
            else if (n) v.kids.pop_back();
            break;
        }
        case K::Container: {
            auto i = c.below(v.kids.size());
            mutate(c, s->fields[i].second, v.kids[i], budget);
            break;
        }
    }
}
// the leaves of a value, up to some number of them
struct Leaf {
    const Schema *s;
    Val *v;
};
inline void leaves(const S &s, Val &v, std::vector<Leaf> &out, std::size_t most = 3000) {
    if (out.size() >= most) return;
    if (s->k == K::Container)
        for (std::size_t i = 0; i < v.kids.size(); ++i) leaves(s->fields[i].second, v.kids[i], out, most);
    else if (s->k == K::List || s->k == K::Vector)
        for (auto &k : v.kids) leaves(s->elem, k, out, most);
    else
        out.push_back({s.get(), &v});
}
// A change of two leaves of the same kind that keeps what a careless summary would be of: they are exchanged, or the sum
// of two numbers or the exclusive or of two byte strings stays. Whether there were two.
inline bool rearrange(Ctx &c, const S &s, Val &v) {
    std::vector<Leaf> all, some;
    leaves(s, v, all);
    if (all.size() < 2) return false;
    auto &a = all[c.below(all.size())];
    for (auto &l : all)
        if (&l != &a && l.s->k == a.s->k && (a.s->k == K::Bitlist || l.s->n == a.s->n)) some.push_back(l);
    if (some.empty()) return false;
    auto &b = some[c.below(some.size())];
    if (a.s->k == K::Bitlist && ((a.s->n && b.v->b.size() > a.s->n) || (b.s->n && a.v->b.size() > b.s->n))) return false;
    auto how = c.upto(2);
    if (a.s->k == K::Uint64 && how) {
        u64 d = c.coin() ? 1 + c.upto(4) : c.word();
        if (how == 1) a.v->u += d, b.v->u -= d;
        else a.v->u ^= d, b.v->u ^= d;
    } else if (a.s->k == K::Bytes && how) {
        auto i = c.below(a.v->b.size());
        auto d = u8(1u << c.upto(7));
        a.v->b[i] ^= d;
        b.v->b[how == 1 ? i : c.below(b.v->b.size())] ^= d;
    } else if (a.s->k == K::Bytes && a.v->b.size() > 1 && c.chance(1, 3))
        std::swap(a.v->b[c.below(a.v->b.size())], a.v->b[c.below(a.v->b.size())]);
    else
        std::swap(a.v->u, b.v->u), std::swap(a.v->b, b.v->b);
    return true;
}
inline void alter(Ctx &c, const S &s, Val &v) {
    if (c.chance(1, 3) && rearrange(c, s, v)) return;
    mutate(c, s, v);
}
// all lists and bitlists of a schema that have a limit of at most max, as paths of field indices (0 for an element)
inline void limited(const S &s, u64 max, std::vector<int> path, std::vector<std::vector<int>> &out) {
    if ((s->k == K::List || s->k == K::Bitlist) && s->n && s->n <= max) out.push_back(path);
    if (s->k == K::Container)
        for (std::size_t i = 0; i < s->fields.size(); ++i) {
            auto p = path;
            p.push_back(int(i));
            limited(s->fields[i].second, max, p, out);
        }
    if (s->k == K::List || s->k == K::Vector) {
        auto p = path;
        p.push_back(0);
        limited(s->elem, max, p, out);
    }
}
// gives the list at the path the given number of elements
inline void set_length(Ctx &c, const S &s, Val &v, const std::vector<int> &path, std::size_t at, u64 length) {
    if (at == path.size()) {
        if (s->k == K::Bitlist) {
            u64 r = c.seed();
            v.b.resize(length);
            for (auto &x : v.b) x = u8(pbt::splitmix(r) & 1);
        } else {
            auto q = Ctx::quiet(c.seed());
            u64 budget = 10;
            v.kids.resize(std::min<std::size_t>(v.kids.size(), length));
            while (v.kids.size() < length) {
                if (v.kids.size() < 4) v.kids.push_back(gen_in(q, s->elem, budget));
                else {
                    auto again = v.kids[v.kids.size() - 4];
                    v.kids.push_back(std::move(again));
                }
            }
        }
        return;
    }
    auto i = path[at];
    if (s->k == K::Container) set_length(c, s->fields[i].second, v.kids[i], path, at + 1, length);
    else {
        u64 budget = 10;
        if (v.kids.empty()) v.kids.push_back(gen_in(c, s->elem, budget));
        set_length(c, s->elem, v.kids[c.below(v.kids.size())], path, at + 1, length);
    }
}
// ------------------------------------------------------------------------------------------------------ long lists
inline void all_lists(const S &s, std::vector<int> path, std::vector<std::vector<int>> &out, int depth = 0) {
    if (depth > 6) return;
    if (s->k == K::List || s->k == K::Bitlist) out.push_back(path);
    if (s->k == K::Container)
        for (std::size_t i = 0; i < s->fields.size(); ++i) {
            auto p = path;
            p.push_back(int(i));
            all_lists(s->fields[i].second, p, out, depth + 1);
        }
    if (s->k == K::List || s->k == K::Vector) {
        auto p = path;
        p.push_back(0);
        all_lists(s->elem, p, out, depth + 1);
    }
}
// A value one of whose lists has thousands of elements, all different, if its limit allows (or the most it allows)
inline void make_long(Ctx &c, const S &s, Val &v, u64 work = 140000) {
    std::vector<std::vector<int>> paths;
    all_lists(s, {}, paths);
    if (c.coin()) {  // among those that may be
        auto ends_long = [&](const std::vector<int> &path) {
            const S *at = &s;
            for (auto i : path) at = (*at)->k == K::Container ? &(*at)->fields[i].second : &(*at)->elem;
            return !(*at)->n || (*at)->n > 4200;
        };
        std::vector<std::vector<int>> some;
        for (auto &p : paths)
            if (ends_long(p)) some.push_back(p);
        if (!some.empty()) paths = some;
    }
    if (paths.empty()) return;
    auto &path = c.pick(paths);
    const S *at = &s;
    Val *w = &v;
    for (auto i : path) {
        if ((*at)->k == K::Container) {
            w = &w->kids[i];
            at = &(*at)->fields[i].second;
        } else {
            u64 budget = 10;
            if (w->kids.empty()) w->kids.push_back(gen_in(c, (*at)->elem, budget));
            w = &w->kids[c.below(w->kids.size())];
            at = &(*at)->elem;
        }
    }
    const S &l = *at;
    u64 unit = l->k == K::Bitlist ? 1 : std::max<u64>(1, weight(l->elem));
    u64 cap = std::max<u64>(300, work / unit / (unit > 1 ? 2 : 1)), n;
    if (l->k == K::Bitlist) cap *= 4;
    if (l->n) cap = std::min(cap, l->n);
    switch (c.upto(4)) {
        case 0: n = 65536 + c.upto(4) - 2; break;
        case 1: n = (u64(1) << c.upto(17)) + c.upto(2) - 1; break;
        case 2: n = (1 + c.upto(12)) << c.upto(13); break;
        case 3: n = cap; break;
        default: n = c.upto(cap); break;
    }
    if (l->k == K::Bitlist && c.coin()) n *= 4;
    n = std::min(n, cap);
    auto q = Ctx::quiet(c.seed());
    if (l->k == K::Bitlist) {
        w->b.resize(n);
        u64 from = c.chance(1, 4) ? c.upto(n) : 0, to = c.chance(1, 4) ? from + c.upto(n - from) : n;
        for (u64 i = from; i < to; ++i) w->b[i] = u8(q.upto(1));
    } else {
        w->kids.resize(std::min<std::size_t>(w->kids.size(), n));
        while (w->kids.size() < n) {
            u64 budget = 6;
            w->kids.push_back(gen_in(q, l->elem, budget));
        }
    }
    c.label(n >= 65536 ? "long list, 65536 or more" : n > 2000 ? "long list, more than 2000" : n > 200 ? "long list, more than 200" : "list at its limit");
}
}  // namespace model
