// What the checks over library objects share: building objects by various routes, damaging encodings
#pragma once
#include <set>

#include "obj.hpp"
#include "yaml_model.hpp"

namespace core {
using namespace obj;
using pbt::check;
using pbt::fail;
using pbt::hex;

inline u64 elements(Ctx &c, const Type &t) {
    if (c.chance(1, 30)) return t.weight <= 2 ? 600 : 3000;
    return elements_for(t);
}
// one value in so many has a long list
inline unsigned long_one_in = 250;
inline bool always_long = false;
inline Val gen_value(Ctx &c, const Type &t) {
    if (always_long) {
        auto v = gen(c, t.schema, 30);
        make_long(c, t.schema, v);
        return v;
    }
    if (c.chance(1, 25)) return default_value(t.schema);
    auto v = gen(c, t.schema, elements(c, t));
    if (long_one_in && c.chance(1, long_one_in)) make_long(c, t.schema, v);
    return v;
}
// Runs a check on values with a long list
struct AlwaysLong {
    bool before = always_long;
    AlwaysLong() { always_long = true; }
    ~AlwaysLong() { always_long = before; }
};
inline Val small_value(Ctx &c, const Type &t) { return gen(c, t.schema, 12); }

inline const Type &any_type(Ctx &c, bool building) { return pick_type(c, building ? building_types() : consensus_types()); }

inline std::string about(const Type &t, const Val &v) { return t.name + " " + show(t.schema, v, 160); }

// Bytes in the middle of a larger buffer
struct Window {
    Bytes all;
    std::size_t from, to;
    Window(Ctx &c, const Bytes &b) {
        auto front = c.upto(9), back = c.upto(9);
        all.assign(front, 0xa5);
        from = front;
        all.insert(all.end(), b.begin(), b.end());
        to = all.size();
        all.insert(all.end(), back, 0x01);
    }
    bool load(Obj &o) const { return o.base().deserialize(all.cbegin() + from, all.cbegin() + to); }
};

enum Routes { SET = 1, SSZ = 2, SSZ_DIRTY = 4, YAML_TEXT = 8, COPY = 16, MOVE = 32, ASSIGN = 64, ASSIGN_MOVE = 128, ALL = 255 };

inline P make(Ctx &c, const Type &t) { return t.make_in(int(c.pick({0xcb, 0x00, 0xff, 0x01})), c.coin()); }

// An object holding a value, obtained by one of several routes. A route that fails to load the value is the concern
// of other checks: the case is abandoned.
inline P build(Ctx &c, const Type &t, const Val &v, int depth = 0, std::string *how = nullptr) {
    auto give_up = [&](const char *what) {
        c.label(std::string("abandoned: ") + what);
        throw pbt::Discard{};
    };
    auto note = [&](const char *s) {
        if (how) *how += (how->empty() ? "" : " of ") + std::string(s);
    };
    try {
        switch (c.upto(depth ? 3 : 7)) {
            case 0: {
                note("set field by field");
                auto o = make(c, t);
                o->put(v);
                return o;
            }
            case 1: {
                note("SSZ");
                auto o = make(c, t);
                if (!o->deserialize(encode(t.schema, v))) give_up("SSZ load");
                return o;
            }
            case 2: {
                note("SSZ over another value");
                auto o = make(c, t);
                o->put(small_value(c, t));
                if (!o->deserialize(encode(t.schema, v))) give_up("SSZ load");
                return o;
            }
            case 3: {
                note("YAML");
                auto o = make(c, t);
                if (c.coin()) o->put(small_value(c, t));
                if (!o->base().decode(YAML::Load(yaml_plain(t.schema, v)))) give_up("YAML load");
                return o;
            }
            case 4: {
                note("copy");
                auto a = build(c, t, v, depth + 1, how);
                auto b = a->copy();
                if (c.coin()) a->put(small_value(c, t));  // the copy is independent of it
                return b;
            }
            case 5: {
                note("move");
                auto a = build(c, t, v, depth + 1, how);
                return a->move();
            }
            case 6: {
                note("assignment");
                auto a = build(c, t, v, depth + 1, how);
                auto b = make(c, t);
                if (c.coin()) b->put(small_value(c, t));
                b->assign(*a);
                if (c.coin()) a->put(small_value(c, t));
                return b;
            }
            default: {
                note("move assignment");
                auto a = build(c, t, v, depth + 1, how);
                auto b = make(c, t);
                if (c.coin()) b->put(small_value(c, t));
                b->assign_move(*a);
                return b;
            }
        }
    } catch (const pbt::Fail &) {
        give_up("put");
    } catch (const YAML::Exception &) {
        give_up("YAML exception");
    } catch (const std::invalid_argument &) {
        give_up("exception");
    }
    return nullptr;
}

// ---------------------------------------------------------------------------------------------- damaged encodings
inline void flip(Ctx &c, Bytes &b) {
    if (!b.empty()) b[c.below(b.size())] ^= u8(1u << c.upto(7));
}
// Bytes derived from an encoding of a value of the type, by one or more changes
inline Bytes damaged(Ctx &c, const Type &t, const Val &v, std::string &how) {
    Marks m;
    Quirk q;
    int parts_at = c.chance(1, 3) ? int(c.upto(5)) : -1;
    if (parts_at >= 0) {
        q.at = parts_at;
        q.kind = int(c.upto(3));
        q.amount = c.chance(1, 4) ? c.upto(70) : c.upto(7);
    }
    Bytes b = encode(t.schema, v, &m, &q);
    if (q.applied) how += "quirk " + std::to_string(q.kind) + "; ";
    auto rounds = q.applied ? c.upto(1) : 1 + (c.chance(1, 4) ? c.upto(3) : 0);
    auto place = [&](std::size_t n) -> std::size_t {  // a position, often one of the boundaries
        if (!m.cuts.empty() && c.coin()) return std::min(c.pick(m.cuts), n);
        return c.upto(n);
    };
    for (u64 r = 0; r < rounds; ++r) {
        auto n = b.size();
        switch (c.upto(17)) {
            case 17:
                if (m.offsets.size() > 1) {  // an offset that is less than the one before it, and not less than the first
                    auto k = 1 + c.below(m.offsets.size() - 1);
                    auto last = [&](std::size_t i) { return i + 1 == m.offsets.size() || m.offsets[i + 1].second != m.offsets[i].second; };
                    if (c.coin())
                        while (k + 1 < m.offsets.size() && !last(k)) ++k;
                    auto [at, base] = m.offsets[k];
                    if (m.offsets[k - 1].second == base && at + 4 <= n && m.offsets[k - 1].first + 4 <= n) {
                        auto before = get32(b.data() + m.offsets[k - 1].first), x = get32(b.data() + at);
                        if (c.coin() && x > before) {
                            put32(b, m.offsets[k - 1].first, x);
                            put32(b, at, before);
                        } else
                            put32(b, at, before - u32(c.coin() ? 1 + c.upto(8) : 8 * (1 + c.upto(3))));
                        how += "offset before the last; ";
                        break;
                    }
                }
                [[fallthrough]];
            case 16:
                if (!m.offsets.empty()) {  // the end comes after an offset, which leads near it
                    auto [at, base] = c.pick(m.offsets);
                    auto end = at + 4 + c.upto(c.coin() ? 3 : 9);
                    if (end <= n) {
                        b.resize(end);
                        put32(b, at, u32(end - base) - u32(c.chance(1, 4) ? c.upto(3) : 0));
                        how += "cut after an offset; ";
                        break;
                    }
                }
                [[fallthrough]];
            case 0:
                b.resize(place(n));
                how += "cut; ";
                break;
            case 1:
                b.resize(n - std::min<std::size_t>(n, 1 + c.upto(8)));
                how += "shortened; ";
                break;
            case 2: {
                auto x = c.bytes(1 + c.upto(c.chance(1, 6) ? 300 : 40));
                b.insert(b.end(), x.begin(), x.end());
                how += "extended; ";
                break;
            }
            case 3:
                b.resize(n + 1 + c.upto(3), c.coin() ? 0 : 1);
                how += "extended a little; ";
                break;
            case 4:
            case 5:
                if (!m.offsets.empty()) {
                    auto [at, base] = c.pick(m.offsets);
                    if (at + 4 <= n) {
                        u32 x = get32(b.data() + at);
                        switch (c.upto(8)) {
                            case 0: x += u32(c.upto(7)) + 1; break;
                            case 1: x -= u32(c.upto(7)) + 1; break;
                            case 2: x = 0; break;
                            case 3: x = u32(c.upto(40)); break;
                            case 4: x = u32(n - std::min(n, base)) + u32(c.upto(4)) - 2; break;
                            case 5: x = ~u32(0) - u32(c.upto(8)); break;
                            case 6: x ^= u32(1) << c.upto(31); break;
                            case 7: x = 4 * u32(c.upto(n / 4 + 2)); break;
                            default: {  // as another offset
                                auto [at2, base2] = c.pick(m.offsets);
                                if (at2 + 4 <= n) x = get32(b.data() + at2);
                            }
                        }
                        put32(b, at, x);
                        how += "offset; ";
                        break;
                    }
                }
                flip(c, b);
                how += "bit; ";
                break;
            case 6:
                if (m.offsets.size() > 1) {  // two offsets moved together
                    auto i = c.below(m.offsets.size() - 1);
                    auto d = u32(c.upto(8)) - 4;
                    for (auto k : {i, i + 1}) {
                        auto at = m.offsets[k].first;
                        if (at + 4 <= n) put32(b, at, get32(b.data() + at) + d);
                    }
                    how += "two offsets; ";
                    break;
                }
                [[fallthrough]];
            case 7:
                if (!m.bools.empty()) {
                    auto at = c.pick(m.bools);
                    if (at < n) b[at] = u8(c.upto(255));
                    how += "boolean; ";
                    break;
                }
                [[fallthrough]];
            case 8:
                if (!m.last_bits.empty()) {
                    auto at = c.pick(m.last_bits);
                    if (at < n) switch (c.upto(3)) {
                            case 0: b[at] = 0; break;
                            case 1: b[at] |= u8(1u << c.upto(7)); break;
                            case 2: b[at] &= u8(~(1u << c.upto(7))); break;
                            default: b[at] = u8(c.upto(255));
                        }
                    how += "last bits; ";
                    break;
                }
                [[fallthrough]];
            case 9: {  // something removed
                auto p = place(n);
                auto k = std::min<std::size_t>(n - p, 1 + c.upto(c.coin() ? 3 : 130));
                b.erase(b.begin() + p, b.begin() + p + k);
                how += "removed; ";
                break;
            }
            case 10: {  // something inserted
                auto p = place(n);
                auto x = c.bytes(1 + c.upto(c.coin() ? 3 : 130));
                b.insert(b.begin() + p, x.begin(), x.end());
                how += "inserted; ";
                break;
            }
            case 11: {  // a part repeated
                auto p = place(n);
                auto k = std::min<std::size_t>(n - p, 1 + c.upto(130));
                Bytes x(b.begin() + p, b.begin() + p + k);
                b.insert(b.begin() + p, x.begin(), x.end());
                how += "repeated; ";
                break;
            }
            case 12:
                for (u64 k = 0, e = 1 + c.upto(5); k < e; ++k) flip(c, b);
                how += "bits; ";
                break;
            case 13:
                if (n) b[c.below(n)] = u8(c.upto(255));
                how += "byte; ";
                break;
            case 14: {
                auto x = c.upto(3);
                if (x == 0) b.clear();
                else if (x == 1) b = c.bytes(c.upto(n + 8));
                else if (x == 2) std::fill(b.begin(), b.end(), 0);
                else b = c.bytes(n);
                how += "other bytes; ";
                break;
            }
            default: flip(c, b); how += "bit; ";
        }
    }
    return b;
}
// whether every list and bitlist is within its limit
inline bool within_limits(const S &s, const Val &v) {
    switch (s->k) {
        case K::Bitlist: return !s->n || v.b.size() <= s->n;
        case K::List:
            if (s->n && v.kids.size() > s->n) return false;
            [[fallthrough]];
        case K::Vector:
            if (is_scalar(s->elem) && s->elem->k != K::Bitlist) return true;
            for (auto &k : v.kids)
                if (!within_limits(s->elem, k)) return false;
            return true;
        case K::Container:
            for (std::size_t i = 0; i < v.kids.size(); ++i)
                if (!within_limits(s->fields[i].second, v.kids[i])) return false;
            return true;
        default: return true;
    }
}
// the first place in which two values differ
inline std::string difference(const S &s, const Val &a, const Val &b, std::string path = "") {
    if (a == b) return "";
    if (is_scalar(s)) return path + ": " + scalar_text(s, a).substr(0, 140) + " instead of " + scalar_text(s, b).substr(0, 140);
    if (a.kids.size() != b.kids.size())
        return path + ": " + std::to_string(a.kids.size()) + " elements instead of " + std::to_string(b.kids.size());
    for (std::size_t i = 0; i < a.kids.size(); ++i) {
        auto d = s->k == K::Container ? difference(s->fields[i].second, a.kids[i], b.kids[i], path + "/" + s->fields[i].first)
                                      : difference(s->elem, a.kids[i], b.kids[i], path + "[" + std::to_string(i) + "]");
        if (!d.empty()) return d;
    }
    return path + ": ?";
}
inline void same_value(const Type &t, const Val &got, const Val &want, const std::string &what) {
    if (!(got == want)) fail(what + ": " + t.name + difference(t.schema, got, want));
}
inline void same_bytes(const Bytes &got, const Bytes &want, const std::string &what) {
    if (got == want) return;
    std::size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    auto from = i > 4 ? i - 4 : 0;
    auto part = [&](const Bytes &b) { return from < b.size() ? hex(b.data() + from, std::min<std::size_t>(b.size() - from, 24)) : std::string("(end)"); };
    fail(what + ": " + std::to_string(got.size()) + " bytes instead of " + std::to_string(want.size()) + ", differ from byte " +
         std::to_string(i) + ": ..." + part(got) + " instead of ..." + part(want));
}
}  // namespace core
