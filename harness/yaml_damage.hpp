// YAML documents of the wrong or of an unusual shape
#pragma once
#include "core.hpp"

namespace damage {
using namespace core;
// A document as a tree of our own, written out as text
struct Entry;
struct Doc {
    enum Kind { Scalar, Seq, Map, Null, Raw } kind = Scalar;
    std::string text;  // of a scalar; of Raw as it is
    bool quoted = false;
    std::vector<Entry> kids;  // keys are used in maps
    S schema;                 // what it is meant to be
    Doc();
    Doc(const Doc &);
    Doc &operator=(const Doc &);
    ~Doc();
};
struct Entry {
    std::string first;
    Doc second;
};
inline Doc::Doc() = default;
inline Doc::Doc(const Doc &) = default;
inline Doc &Doc::operator=(const Doc &) = default;
inline Doc::~Doc() = default;
inline Doc document(const S &s, const Val &v) {
    Doc d;
    d.schema = s;
    if (is_scalar(s)) d.text = scalar_text(s, v);
    else if (s->k == K::Container) {
        d.kind = Doc::Map;
        for (std::size_t i = 0; i < v.kids.size(); ++i) d.kids.push_back({s->fields[i].first, document(s->fields[i].second, v.kids[i])});
    } else {
        d.kind = Doc::Seq;
        for (auto &k : v.kids) d.kids.push_back({"", document(s->elem, k)});
    }
    return d;
}
inline std::string quoted(const std::string &t) {
    std::string o = "\"";
    for (unsigned char ch : t) {
        if (ch == '"' || ch == '\\') o += '\\', o += char(ch);
        else if (ch < 0x20 || ch >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", ch);
            o += b;
        } else o += char(ch);
    }
    return o + "\"";
}
inline void write(const Doc &d, std::string &o) {
    switch (d.kind) {
        case Doc::Scalar: o += d.quoted || d.text.empty() ? quoted(d.text) : d.text; break;
        case Doc::Raw: o += d.text; break;
        case Doc::Null: o += "~"; break;
        case Doc::Seq:
        case Doc::Map: {
            bool map = d.kind == Doc::Map;
            o += map ? "{" : "[";
            bool first = true;
            for (auto &[k, x] : d.kids) {
                if (!first) o += ", ";
                first = false;
                if (map) o += k + ": ";
                write(x, o);
            }
            o += map ? "}" : "]";
        }
    }
}
inline void all_nodes(Doc &d, std::vector<Doc *> &out) {
    out.push_back(&d);
    for (auto &k : d.kids) {
        if (out.size() > 4000) return;
        all_nodes(k.second, out);
    }
}
enum Effect { REJECT, ANY };
inline Doc scalar(std::string t, bool q = false) {
    Doc d;
    d.text = std::move(t);
    d.quoted = q;
    return d;
}
inline std::string odd_text(Ctx &c) {
    switch (c.upto(11)) {
        case 0: return "0x";
        case 1: return "true";
        case 2: return "1e3";
        case 3: return "0x1g";
        case 4: return "-0";
        case 5: return ".inf";
        case 6: return "0X00";
        case 7: return "12abc";
        case 8: return "99999999999999999999999999";
        case 9: {
            std::string s = "0x";
            for (u64 i = 0, n = c.upto(200); i < n; ++i) s += "0123456789abcdefABCDEF"[c.upto(21)];
            return s;
        }
        case 10: {
            std::string s;
            for (u64 i = 0, n = c.upto(12); i < n; ++i) s += char(c.upto(255));
            return s;
        }
        default: {
            std::string s;
            for (u64 i = 0, n = c.upto(8); i < n; ++i) s += "0123456789xX+-. gz"[c.upto(17)];
            return s;
        }
    }
}
inline Doc odd_node(Ctx &c, int depth = 0) {
    Doc d;
    switch (c.upto(depth > 3 ? 1 : 5)) {
        case 0: return scalar(odd_text(c), true);
        case 1: d.kind = Doc::Null; return d;
        case 2:
        case 3:
            d.kind = Doc::Seq;
            for (u64 i = 0, n = c.upto(4); i < n; ++i) d.kids.push_back({"", odd_node(c, depth + 1)});
            return d;
        default:
            d.kind = Doc::Map;
            for (u64 i = 0, n = c.upto(4); i < n; ++i) d.kids.push_back({std::string(1, char('a' + i)), odd_node(c, depth + 1)});
            return d;
    }
}
inline Doc mapping() {
    Doc d;
    d.kind = Doc::Map;
    d.kids.push_back({"a", scalar("1")});
    return d;
}
inline Doc sequence(Ctx &c) {
    Doc d;
    d.kind = Doc::Seq;
    for (u64 i = 0, n = c.upto(3); i < n; ++i) d.kids.push_back({"", scalar("1")});
    return d;
}
// One change of one node; whether the whole document must be refused because of it
inline Effect change(Ctx &c, Doc &d, std::string &how) {
    auto &s = d.schema;
    if (!s || c.chance(1, 10)) {
        d = odd_node(c);
        how += "odd node; ";
        return ANY;
    }
    auto odd = [&](const char *what) {
        how += what;
        how += "; ";
    };
    switch (s->k) {
        case K::Container:
            if (d.kind != Doc::Map || d.kids.empty()) return ANY;
            switch (c.upto(7)) {
                case 0:
                case 1:
                    odd("missing field");
                    d.kids.erase(d.kids.begin() + c.below(d.kids.size()));
                    return REJECT;
                case 2:
                    odd("scalar for a container");
                    d = scalar("5");
                    return REJECT;
                case 3:
                    odd("null for a container");
                    d = Doc{};
                    d.kind = Doc::Null;
                    return REJECT;
                case 4:
                    odd("sequence for a container");
                    d.kind = Doc::Seq;
                    return REJECT;
                case 5:
                    odd("field of another name");
                    d.kids[c.below(d.kids.size())].first += "_";
                    return REJECT;
                case 6:
                    odd("additional field");
                    d.kids.insert(d.kids.begin() + c.upto(d.kids.size()), Entry{"another", odd_node(c)});
                    return ANY;
                default: {
                    odd("field given twice");
                    auto k = d.kids[c.below(d.kids.size())];
                    if (c.coin()) k.second = odd_node(c);
                    d.kids.push_back(k);
                    return ANY;
                }
            }
        case K::Vector: {
            if (d.kind != Doc::Seq) return ANY;
            switch (c.upto(5)) {
                case 0:
                case 1:
                    if (!d.kids.empty()) {
                        odd("shorter vector");
                        d.kids.resize(d.kids.size() - 1 - c.upto(std::min<u64>(d.kids.size() - 1, 3)));
                        return REJECT;
                    }
                    [[fallthrough]];
                case 2:
                case 3: {
                    odd("longer vector");
                    for (u64 i = 0, n = 1 + c.upto(3); i < n; ++i)
                        d.kids.push_back(d.kids.empty() ? Entry{"", document(s->elem, default_value(s->elem))} : d.kids[c.below(d.kids.size())]);
                    return REJECT;
                }
                case 4:
                    odd("mapping for a vector");
                    d = mapping();
                    return REJECT;
                default:
                    odd("scalar for a vector");
                    d = scalar(c.coin() ? "0x00" : "7");
                    return REJECT;
            }
        }
        case K::List: {
            if (d.kind != Doc::Seq) return ANY;
            switch (c.upto(4)) {
                case 0:
                case 1:
                    if (s->n && s->n <= 5000) {
                        odd("list over its limit");
                        auto more = document(s->elem, default_value(s->elem));
                        auto want = s->n + 1 + (c.coin() ? 0 : c.upto(20));
                        while (d.kids.size() < want) d.kids.push_back({"", more});
                        return REJECT;
                    }
                    [[fallthrough]];
                case 2:
                    odd("mapping for a list");
                    d = mapping();
                    return REJECT;
                case 3:
                    odd("scalar for a list");
                    d = scalar(c.coin() ? "0x00" : "7");
                    return REJECT;
                default:
                    odd("null for a list");
                    d = Doc{};
                    d.kind = Doc::Null;
                    return REJECT;
            }
        }
        default: break;
    }
    if (c.chance(1, 6)) {
        odd("mapping for a scalar");
        d = mapping();
        return REJECT;
    }
    if (c.chance(1, 6)) {
        odd("sequence for a scalar");
        d = sequence(c);
        return REJECT;
    }
    if (c.chance(1, 6)) {
        odd("odd text");
        d = scalar(odd_text(c), true);
        return ANY;
    }
    if (c.chance(1, 8)) {
        odd("null for a scalar");
        d = Doc{};
        d.kind = Doc::Null;
        return REJECT;
    }
    auto some_hex = [&](u64 n, bool last_not_zero) {
        auto b = c.bytes(n);
        if (last_not_zero && n) b[n - 1] |= 1;
        return hex0x(b, c.coin());
    };
    switch (s->k) {
        case K::Uint64:
            switch (c.upto(4)) {
                case 0: {
                    odd("integer too large");
                    static const char *big[] = {"18446744073709551616", "18446744073709551617", "36893488147419103232", "99999999999999999999", "184467440737095516150",
                                                "340282366920938463463374607431768211456", "28446744073709551615"};
                    d = scalar(big[c.upto(6)]);
                    return REJECT;
                }
                case 1:
                    odd("negative integer");
                    d = scalar("-" + std::to_string(1 + c.word() % ((u64(1) << 63) - 1)));
                    return REJECT;
                case 2: {
                    odd("no integer");
                    static const char *t[] = {"abc", "true", "zero", "ten", "x1", "~x", "?", "1.5", "0.25", "12.0625", ".5", "1e400", "nan", ".inf", "1.8446744073709552e+19", "0.1e0"};
                    d = scalar(t[c.upto(15)], c.coin());
                    return REJECT;
                }
                case 3: {
                    odd("integer with more text");
                    static const char *t[] = {"x", "abc", "_1", " 1", "g", ",5"};
                    d = scalar(std::to_string(c.word()) + t[c.upto(5)], true);
                    return REJECT;
                }
                default: {
                    odd("unusual integer");
                    static const char *t[] = {"0x10", "010", "+5", "5.0", "1e3", "0b1", "00", " 5", "5 ", "1_000"};
                    d = scalar(t[c.upto(9)], c.coin());
                    return ANY;
                }
            }
        case K::Bool: {
            static const char *t[] = {"2", "maybe", "truee", "tru", "-1", "0x01", "falsetrue", "tTrUe", "10", "?"};
            static const char *u[] = {"yes", "no", "on", "off", "True", "FALSE", "y", "n", "1", "0"};
            if (c.chance(2, 3)) {
                odd("no boolean");
                d = scalar(t[c.upto(9)], true);
                return REJECT;
            }
            odd("unusual boolean");
            d = scalar(u[c.upto(9)]);
            return ANY;
        }
        case K::Bytes:
            switch (c.upto(5)) {
                case 0:
                case 1:
                    odd("byte string too long");
                    d = scalar(some_hex(s->n + 1 + c.upto(c.coin() ? 2 : 300), false));
                    return REJECT;
                case 2:
                case 3: {
                    odd("byte string without 0x");
                    auto t = some_hex(s->n, false);
                    switch (c.upto(3)) {
                        case 0: t = t.substr(2); break;
                        case 1: t = "x" + t; break;
                        case 2: t = "1" + t.substr(1); break;
                        default: t = "00" + t.substr(2);
                    }
                    d = scalar(t, true);
                    return REJECT;
                }
                case 4:
                    odd("byte string too short");
                    d = scalar(some_hex(c.upto(s->n - 1), false));
                    return ANY;
                default: {
                    odd("half a byte, or no digits");
                    auto t = some_hex(c.upto(s->n), false);
                    if (c.coin()) t.resize(std::max<std::size_t>(t.size(), 3) - 1);
                    else if (t.size() > 2) t[2 + c.upto(t.size() - 3)] = char(c.upto(255));
                    d = scalar(t, true);
                    return ANY;
                }
            }
        case K::Bitlist:
            switch (c.upto(4)) {
                case 0: {
                    odd("bitlist without delimiter");
                    auto b = c.bytes(1 + c.upto(8));
                    b.back() = 0;
                    d = scalar(c.chance(1, 4) ? "0x" : hex0x(b));
                    return REJECT;
                }
                case 1:
                    if (s->n && s->n <= 5000) {
                        odd("bitlist over its limit");
                        Bytes bits(s->n + 1 + c.upto(c.coin() ? 1 : 40), 0);
                        u64 r = c.seed();
                        for (auto &x : bits) x = pbt::splitmix(r) & 1;
                        d = scalar(hex0x(pack_bits(bits, true)));
                        return REJECT;
                    }
                    [[fallthrough]];
                case 2:
                    odd("bitlist without 0x");
                    d = scalar(some_hex(1 + c.upto(4), true).substr(2), true);
                    return REJECT;
                default: {
                    odd("unusual bitlist");
                    auto t = some_hex(c.upto(6), true);
                    if (c.coin()) t.pop_back();
                    else if (t.size() > 2) t[2 + c.upto(t.size() - 3)] = char(c.upto(255));
                    d = scalar(t, true);
                    return ANY;
                }
            }
        case K::Bitvector: {
            switch (c.upto(3)) {
                case 0:
                    odd("bitvector too long");
                    d = scalar(c.coin() ? hex0x(Bytes((s->n + 7) / 8 + 1 + c.upto(2), 0)) : some_hex((s->n + 7) / 8 + 1 + c.upto(c.coin() ? 2 : 60), false));
                    return REJECT;
                case 1: {
                    odd("bitvector with more bits than it has");
                    if (s->n % 8 == 0) break;
                    auto b = c.bytes((s->n + 7) / 8);
                    b.back() |= u8(1u << (s->n % 8 + c.upto(7 - s->n % 8)));
                    d = scalar(hex0x(b));
                    return REJECT;
                }
                case 2:
                    odd("bitvector without 0x");
                    d = scalar(some_hex((s->n + 7) / 8, false).substr(2), true);
                    return REJECT;
                default: break;
            }
            odd("unusual bitvector");
            auto t = some_hex(c.upto((s->n + 7) / 8 + 2), false);
            switch (c.upto(3)) {
                case 0: t = t.substr(2); break;
                case 1: t.pop_back(); break;
                case 2:
                    if (t.size() > 2) t[2 + c.upto(t.size() - 3)] = char(c.upto(255));
                    break;
                default: break;
            }
            d = scalar(t, true);
            return ANY;
        }
        default: return ANY;
    }
}
// damage of the text itself
inline void damage_text(Ctx &c, std::string &t) {
    for (u64 i = 0, n = 1 + c.upto(3); i < n; ++i) {
        if (t.empty()) t = "x";
        auto at = c.below(t.size());
        switch (c.upto(5)) {
            case 0: t[at] = char(c.upto(255)); break;
            case 1: t.erase(at, 1 + c.upto(c.coin() ? 3 : 80)); break;
            case 2: t.insert(at, 1, "{}[],:&*#'\"|>%@!-? \n\t~x0"[c.upto(24)]); break;
            case 3: t.resize(at); break;
            case 4: t.insert(at, t.substr(c.below(t.size()), 1 + c.upto(60))); break;
            default: {
                static const char *tok[] = {"0x", "~", "[]", "{}", "- ", "? ", ": ", "&a ", "*a", "!!binary ", "<<: ", "...", "---", "!!str ", "!!set "};
                t.insert(at, tok[c.upto(14)]);
            }
        }
    }
}
}  // namespace damage
