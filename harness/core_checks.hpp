// The checks over objects of any type
#pragma once
#include "core.hpp"

using namespace core;

namespace {
inline std::string size_label(const Bytes &b) {
    auto n = b.size();
    return n < 100 ? "encoding <100" : n < 1000 ? "encoding <1k" : n < 10000 ? "encoding <10k" : "encoding >=10k";
}

// -------------------------------------------------------------------------------------------------- C07: serialization
void serialization(Ctx &c, const Type &t) {
    auto v = gen_value(c, t);
    auto e = encode(t.schema, v);
    c.label(t.name);
    c.label(size_label(e));
    c.say(about(t, v));
    c.nontrivial();
    auto o = make(c, t);
    auto fixed = fixed_size(t.schema);
    check(o->base().get_ssz_size() == fixed, "get_ssz_size() of " + t.name + " is " + std::to_string(o->base().get_ssz_size()) +
                                                 " instead of " + std::to_string(fixed));
    if (auto z = o->static_size(); z || fixed)
        check(z == fixed, "ssz_size of " + t.name + " is " + std::to_string(z) + " instead of " + std::to_string(fixed));
    if (c.coin()) {  // over some other value
        if (!o->deserialize(encode(t.schema, small_value(c, t)))) fail("valid encoding of " + t.name + " refused");
    }
    bool ok = c.coin() ? Window(c, e).load(*o) : o->deserialize(e);
    check(ok, "valid encoding of " + about(t, v) + " refused: " + hex(e));
    same_value(t, o->take(), v, "value decoded from its encoding");
    same_bytes(o->serialize(), e, "serialization of " + t.name + " after loading it");
    same_bytes(o->serialize(), e, "second serialization of " + t.name);
    same_value(t, o->take(), v, "value after serializing it");
    if (!t.opaque) {  // set field by field
        auto p = make(c, t);
        p->put(v);
        same_bytes(p->serialize(), e, "serialization of " + t.name + " after setting its fields");
    } else if (c.chance(1, 3)) {  // from its YAML form
        auto p = make(c, t);
        check(p->base().decode(YAML::Load(yaml_plain(t.schema, v))), "YAML form of " + about(t, v) + " refused");
        same_bytes(p->serialize(), e, "serialization of " + t.name + " after loading its YAML form");
    }
    if (t.opaque && c.chance(1, 3)) {
        auto d = yaml_difference(t.schema, v, o->base().encode());
        check(d.empty(), "fields of " + t.name + " after decoding: " + d);
    }
    // and values that differ from it a little, one after the other
    for (u64 k = c.chance(1, 4) ? 1 + c.upto(2) : 0; k; --k) {
        auto before = v;
        alter(c, t.schema, v);
        auto e = encode(t.schema, v);
        if (c.coin()) o = make(c, t);
        if (!t.opaque && c.coin()) o->put(v);
        else check(o->deserialize(e), "valid encoding of " + about(t, v) + " refused: " + hex(e) + ", after that of " + about(t, before));
        same_bytes(o->serialize(), e, "serialization of " + about(t, v) + ", after that of " + about(t, before));
        same_value(t, o->take(), v, "value after that of " + about(t, before));
    }
}

// ---------------------------------------------------------------------------------------------------------- C08: roots
void roots(Ctx &c, const Type &t) {
    auto v = gen_value(c, t);
    std::string how;
    auto o = build(c, t, v, 0, &how);
    auto got = o->take();
    c.label(t.name);
    c.label(how);
    c.say(about(t, v) + " by " + how);
    c.nontrivial();
    auto want = to_bytes(root(t.schema, got));
    auto r = o->root();
    if (r != want) fail("root of " + about(t, got) + " (" + how + ") is " + hex(r) + " instead of " + hex(want));
    if (c.chance(1, 4)) check(o->root() == want, "second root of " + t.name + " differs from the first");
    // and those of values that differ from it a little, one after the other
    for (u64 k = c.chance(1, 3) ? 1 + c.upto(2) : 0; k; --k) {
        auto w = got;
        alter(c, t.schema, w);
        if (c.coin()) o = make(c, t);
        if (c.coin()) o->put(w);
        else if (!o->deserialize(encode(t.schema, w))) throw pbt::Discard{};
        w = o->take();
        want = to_bytes(root(t.schema, w));
        r = o->root();
        if (r != want) fail("root of " + about(t, w) + " is " + hex(r) + " instead of " + hex(want) + ", after that of " + about(t, got));
        got = w;
    }
}

// ------------------------------------------------------------------------------------------------------ C10: strictness
void strictness(Ctx &c, const Type &t) {
    auto v = gen_value(c, t);
    std::string how;
    auto b = c.chance(1, 12) ? encode(t.schema, v) : damaged(c, t, v, how);
    auto want = decode(t.schema, b);
    c.label(t.name);
    c.label(want ? (how.empty() ? "valid" : "damaged, valid") : "invalid");
    c.say(t.name + " " + std::to_string(b.size()) + " bytes, " + how + (want ? "valid" : "invalid") + ": " + hex(b.data(), b.size(), 40));
    c.nontrivial();
    auto o = make(c, t);
    if (c.coin()) o->put(small_value(c, t));
    bool got;
    try {
        got = c.coin() ? Window(c, b).load(*o) : o->deserialize(b);
    } catch (const std::exception &x) {
        if (want) fail("valid encoding of " + t.name + " refused with " + x.what() + ": " + hex(b));
        return;
    }
    if (got != bool(want))
        fail(std::string(got ? "invalid" : "valid") + " encoding of " + t.name + (got ? " accepted: " : " refused: ") + hex(b));
    if (got) {
        same_value(t, o->take(), *want, "value decoded from " + hex(b));
        same_bytes(o->serialize(), b, "serialization of " + t.name + " after loading it");
    }
}

// ------------------------------------------------------------------------------------------------------------ C11: YAML
// Changes a node somewhere
void vandalize(Ctx &c, YAML::Node node) {
    for (int depth = 0; depth < 6 && (node.IsMap() || node.IsSequence()) && node.size() && c.chance(4, 5); ++depth) {
        auto i = c.below(node.size());
        if (node.IsSequence()) node.reset(node[i]);
        else {
            auto it = node.begin();
            std::advance(it, i);
            node.reset(it->second);
        }
    }
    if (node.IsSequence() && c.coin()) node.push_back("1");
    else if (node.IsMap() && c.coin()) node["other"] = 1;
    else node = c.pick<std::string>({"0", "true", "0x", "[]"});
}
void yaml_round_trip(Ctx &c, const Type &t) {
    auto v = gen_value(c, t);
    c.label(t.name);
    c.nontrivial();
    if (c.coin()) {  // decoding
        auto y = gen_style(c);
        auto text = yaml_text(c, t.schema, v, y);
        c.label(std::string("decode") + (y.flow ? ", flow" : ", block") + (y.quotes ? ", quoted" : "") + (y.upper ? ", upper case" : "") +
                (y.shuffle ? ", other order" : ""));
        auto line = text.substr(0, 200);
        std::replace(line.begin(), line.end(), '\n', '|');
        c.say(t.name + " from " + line);
        auto node = YAML::Load(text);
        auto o = make(c, t);
        if (c.coin()) o->put(small_value(c, t));
        auto before = YAML::Dump(node);
        if (c.chance(1, 4)) o->load_as(node);
        else check(o->base().decode(node), "YAML form of " + about(t, v) + " refused: " + text.substr(0, 300));
        check(YAML::Dump(node) == before, "decoding " + text.substr(0, 200) + " as " + t.name + " changed the document");
        if (c.chance(1, 4)) vandalize(c, node);
        same_value(t, o->take(), v, "value decoded from YAML " + text.substr(0, 200));
        same_bytes(o->serialize(), encode(t.schema, v), "serialization of " + t.name + " decoded from YAML " + text.substr(0, 200));
    } else {  // encoding
        std::string how;
        auto o = build(c, t, v, 0, &how);
        auto got = o->take();
        c.label("encode, " + how);
        c.say(about(t, v) + " by " + how + " to YAML");
        auto node = static_cast<const Obj &>(*o).base().encode();
        auto d = yaml_difference(t.schema, got, node);
        check(d.empty(), "YAML form of " + about(t, got) + ": " + d);
        same_value(t, o->take(), got, "value after encoding it");
        // through text, and back
        auto text = YAML::Dump(node);
        if (c.chance(1, 4)) {  // what is done to the node is not done to the object, or to other nodes
            vandalize(c, node);
            node = static_cast<const Obj &>(*o).base().encode();
            d = yaml_difference(t.schema, got, node);
            check(d.empty(), "YAML form of " + about(t, got) + " after another one was changed: " + d);
            same_value(t, o->take(), got, "value after its YAML form was changed");
        }
        auto back = make(c, t);
        if (c.coin()) back->put(small_value(c, t));
        check(back->base().decode(YAML::Load(text)), "own YAML form of " + about(t, got) + " refused: " + text.substr(0, 300));
        same_value(t, back->take(), got, "value after a round trip through YAML " + text.substr(0, 200));
        // and of the node itself
        auto again = make(c, t);
        check(again->base().decode(node), "own YAML node of " + about(t, got) + " refused");
        check(YAML::Dump(node) == text, "decoding the YAML node of " + about(t, got) + " changed it");
        if (c.chance(1, 4)) vandalize(c, node);
        same_value(t, again->take(), got, "value after a round trip through a YAML node");
    }
}

// -------------------------------------------------------------------------------------------------------- C13: equality
void equality(Ctx &c, const Type &t) {
    auto v = gen_value(c, t);
    auto w = v;
    auto kind = c.upto(7);
    if (kind >= 2 && kind <= 6) {
        alter(c, t.schema, w);
        if (c.chance(1, 5)) alter(c, t.schema, w);
    } else if (kind == 7)
        w = c.coin() ? gen_value(c, t) : default_value(t.schema);
    std::string ha, hb;
    auto a = build(c, t, v, 0, &ha), b = build(c, t, w, 0, &hb);
    auto x = a->take(), y = b->take();
    bool want = x == y;
    c.label(t.name);
    c.label(want ? "equal" : "different");
    c.say(about(t, v) + (want ? " by " + ha + " equals itself by " + hb : " differs in " + difference(t.schema, y, x)));
    c.nontrivial();
    auto what = about(t, x) + " (" + ha + ") and the one by " + hb + (want ? ", equal" : ", which has" + difference(t.schema, y, x));
    check(a->eq(*b) == want, "== is wrong for " + what);
    check(b->eq(*a) == want, "== the other way round is wrong for " + what);
    check(a->ne(*b) == !want, "!= is wrong for " + what);
    check(b->ne(*a) == !want, "!= the other way round is wrong for " + what);
    check(a->eq(*a) && !a->ne(*a), "an object does not equal itself: " + what);
    same_value(t, a->take(), x, "value after comparing it");
}

// --------------------------------------------------------------------------------------------------------- C23: defaults
void defaults(Ctx &c, const Type &t) {
    int fill = int(c.upto(255));
    bool braces = c.coin();
    c.label(t.name);
    c.say(t.name + (braces ? "{}" : "") + " in memory filled with " + std::to_string(fill));
    c.nontrivial();
    auto o = t.make_in(fill, braces);
    auto d = default_value(t.schema);
    same_bytes(o->serialize(), encode(t.schema, d), "encoding of a default-constructed " + t.name);
    same_value(t, o->take(), d, "default-constructed object");
    auto want = to_bytes(root(t.schema, d));
    if (auto r = o->root(); r != want) fail("root of a default-constructed " + t.name + " is " + hex(r) + " instead of " + hex(want));
    auto y = yaml_difference(t.schema, d, o->base().encode());
    check(y.empty(), "YAML form of a default-constructed " + t.name + ": " + y);
    auto p = t.make_in(int(c.upto(255)), c.coin());
    check(o->eq(*p) && p->eq(*o) && !o->ne(*p), "two default-constructed objects differ: " + t.name);
    auto q = build(c, t, d);
    check(o->eq(*q) && q->eq(*o), "a default-constructed " + t.name + " differs from the default value built otherwise");
}

// ----------------------------------------------------------------------------------------------------------- C19: limits
// whether YAML decoding accepts
bool yaml_accepts(Obj &o, const std::string &text) {
    try {
        return o.base().decode(YAML::Load(text));
    } catch (const std::exception &) {
        return false;
    }
}
// A list filled over its limit in memory: hashing it is refused when its chunks are more than those of its limit
void overfull(Ctx &c, const Type &t, const Val &v, const S &list, u64 len, const std::string &where) {
    auto o = make(c, t);
    try {
        o->put(v);
    } catch (const pbt::Fail &) {  // this one can only be loaded
        c.label("cannot be filled: " + t.name);
        return;
    }
    c.label(len > list->n ? "memory, over" : "memory, within");
    c.say(where + " with " + std::to_string(len) + " elements of " + std::to_string(list->n) + " in memory");
    c.nontrivial();
    auto per_chunk = basic(list->elem) ? 32 / fixed_size(list->elem) : 1;
    auto chunks = [&](u64 n) { return (n + per_chunk - 1) / per_chunk; };
    auto what = "a list of limit " + std::to_string(list->n) + " filled with " + std::to_string(len) + " elements, " + where;
    bool refused = false;
    Bytes r;
    try {
        r = o->root();
    } catch (const std::exception &) {
        refused = true;
    }
    if (chunks(len) > chunks(list->n)) {
        check(refused, "merkleizing is not refused: " + what);
        auto w = small_value(c, t);
        auto p = make(c, t);
        p->put(w);
        check(p->root() == to_bytes(root(t.schema, w)), "root of " + about(t, w) + " after merkleizing was refused: " + what);
    }
    else {
        check(!refused, "merkleizing is refused: " + what);
        check(r == to_bytes(root(t.schema, v)), "root of " + what);
    }
    same_value(t, o->take(), v, "value after hashing " + what);
    check(o->serialize() == encode(t.schema, v), "encoding of " + what);
}
void limits_of(Ctx &c, const Type &t, bool far) {
    std::vector<std::vector<int>> paths;
    limited(t.schema, 4200, {}, paths);
    if (paths.empty()) {
        c.label("no limits: " + t.name);
        return;
    }
    auto path = c.pick(paths);
    const Schema *s = t.schema.get();
    S at = t.schema;
    std::string where = t.name;
    for (auto i : path) {
        if (at->k == K::Container) where += "/" + at->fields[i].first;
        else where += "[]";
        at = at->k == K::Container ? at->fields[i].second : at->elem;
    }
    (void)s;
    u64 len;
    switch (c.upto(5)) {
        case 0: len = at->n; break;
        case 1: len = at->n + 1; break;
        case 2: len = at->n - std::min<u64>(at->n, c.upto(2)); break;
        case 3: len = at->n + 2 + c.upto(3); break;
        case 4: len = at->n + 1 + c.upto(at->k == K::Bitlist ? 300 : std::min<u64>(at->n, 40)); break;
        default: len = c.upto(2 * at->n + 9); break;
    }
    if (weight(at->elem ? at->elem : at) * len > 4000 && at->k != K::Bitlist) len = std::min<u64>(len, at->n + 2);
    if (far) {  // over the limit by what is lost in 8 or 16 bits
        len = c.upto(at->n);
        u64 w = weight(at->elem ? at->elem : at), more = u64(1) << 16;
        if (at->k != K::Bitlist && w * (more + len) > 2500000) more = 256;
        if (at->k != K::Bitlist && w * (more + len) > 2500000) more = 1;
        len += more * (1 + c.upto(at->k == K::Bitlist || more == 256 ? 3 : 0));
    }
    auto v = gen(c, t.schema, 10);
    set_length(c, t.schema, v, path, 0, len);
    bool want = within_limits(t.schema, v);
    if (at->k == K::List && fixed_size(at->elem) && !t.opaque && c.chance(1, 4)) {
        overfull(c, t, v, at, len, where);
        return;
    }
    bool yaml = c.chance(1, far ? 12 : 3);
    c.label(where);
    c.label(std::string(yaml ? "YAML, " : "SSZ, ") + (len == at->n ? "at the limit" : len < at->n ? "below" : len == at->n + 1 ? "one over" : "over"));
    c.say(where + " with " + std::to_string(len) + " elements of " + std::to_string(at->n) + (yaml ? " from YAML" : " from SSZ"));
    c.nontrivial();
    auto o = make(c, t);
    if (c.coin()) o->put(small_value(c, t));
    bool got;
    if (yaml) got = yaml_accepts(*o, yaml_plain(t.schema, v));
    else {
        auto e = encode(t.schema, v);
        try {
            got = o->deserialize(e);
        } catch (const std::exception &) {
            got = false;
        }
    }
    auto what = where + " of limit " + std::to_string(at->n) + " with " + std::to_string(len) + " elements";
    check(got == want, what + (got ? " accepted from " : " refused from ") + (yaml ? "YAML" : "SSZ"));
    if (got) {
        same_value(t, o->take(), v, "value at the limit");
        auto r = to_bytes(root(t.schema, v));
        check(o->root() == r, "root of " + what);
    } else {  // hashing what is left in it may be refused, cleanly
        try {
            o->root();
        } catch (const std::exception &) {
        }
        (void)o->serialize();
        v = small_value(c, t);
        check(o->deserialize(encode(t.schema, v)), "valid encoding refused after " + what);
        same_value(t, o->take(), v, "value loaded after " + what);
        check(o->root() == to_bytes(root(t.schema, v)), "root after " + what);
    }
}

void limits(Ctx &c, const Type &t) { limits_of(c, t, false); }
void far_over(Ctx &c, const Type &t) { limits_of(c, t, true); }

// ---------------------------------------------------------------------------------------------------------- C14: histories
struct Slot_ {
    P o;
    Val v;
};
void settle(Ctx &c, const Type &t, Slot_ &s) {  // after an operation that leaves an unspecified value
    s.v = s.o->take();
    if (!within_limits(t.schema, s.v)) {
        s.v = small_value(c, t);
        check(s.o->deserialize(encode(t.schema, s.v)), "valid encoding of " + t.name + " refused");
    }
}
void like_fresh(Ctx &c, const Type &t, Slot_ &s, const std::string &what) {
    auto f = t.make();
    f->put(s.v);
    same_value(t, f->take(), s.v, "freshly built object");
    auto &o = static_cast<const Obj &>(*s.o);
    same_bytes(o.serialize(), f->serialize(), "encoding after " + what + " and of a fresh object, " + t.name);
    auto r = o.root(), fr = f->root();
    if (r != fr) fail("root of " + about(t, s.v) + " after " + what + " is " + hex(r) + ", and of a fresh object " + hex(fr));
    check(o.eq(*f) && f->eq(o) && !o.ne(*f), about(t, s.v) + " after " + what + " differs from a fresh object");
    if (c.chance(1, 3)) {
        auto a = YAML::Dump(o.base().encode()), b = YAML::Dump(f->base().encode());
        if (a != b) fail("YAML form after " + what + " is " + a.substr(0, 300) + ", and of a fresh object " + b.substr(0, 300));
    }
    // it behaves the same in later loads, too
    if (c.chance(1, 3)) {
        auto w = small_value(c, t);
        std::string how;
        auto b = c.coin() ? encode(t.schema, w) : damaged(c, t, w, how);
        auto x = o.copy();
        auto dx = x->deserialize(b), df = f->deserialize(b);
        check(dx == df, t.name + " after " + what + (dx ? " accepts " : " refuses ") + hex(b) + ", unlike a fresh object");
        if (dx) same_bytes(x->serialize(), f->serialize(), "encoding after another load");
    }
    same_value(t, o.take(), s.v, "value after read-only calls");
}
// whether two values of a type have lists of the same lengths
bool same_shape(const S &s, const Val &a, const Val &b) {
    if (a.kids.size() != b.kids.size() || a.b.size() != b.b.size()) return false;
    if (s->k != K::Container && s->k != K::Vector && s->k != K::List) return true;
    for (std::size_t i = 0; i < a.kids.size(); ++i)
        if (!same_shape(s->k == K::Container ? s->fields[i].second : s->elem, a.kids[i], b.kids[i])) return false;
    return true;
}
void histories(Ctx &c, const Type &t) {
    std::vector<Slot_> p;
    std::string log;
    for (int i = 0; i < 3; ++i) {
        p.push_back({make(c, t), default_value(t.schema)});
        same_value(t, p.back().o->take(), p.back().v, "default-constructed object");
    }
    c.label(t.name);
    c.nontrivial();
    // now and then with long lists, for what is done for these only
    bool big = c.chance(1, 40);
    if (big) c.label("with long lists");
    auto any = [&] {
        auto v = gen(c, t.schema, 20);
        if (big) make_long(c, t.schema, v, 6000);
        return v;
    };
    auto steps = 1 + c.upto(big ? 5 : 11);
    static const char *names[] = {"set", "SSZ", "bad SSZ", "YAML", "bad YAML", "copy-assign", "move-assign", "copy", "move", "reads", "change", "self-assign", "append", "change through what was held", "another limit for a while", "a list over its limit"};
    for (u64 k = 0; k < steps; ++k) {
        auto i = c.below(3), j = c.below(3);
        auto &s = p[i];
        auto op = c.upto(15);
        log += std::string(names[op]) + " " + std::to_string(i) + (op >= 5 && op <= 8 ? " from " + std::to_string(j) : "") + ", ";
        auto what = t.name + " after " + log;
        c.label(names[op]);
        switch (op) {
            case 0:
                s.v = any();
                s.o->put(s.v);
                break;
            case 1: {
                s.v = any();
                auto e = encode(t.schema, s.v);
                check(c.coin() ? Window(c, e).load(*s.o) : s.o->deserialize(e), "valid encoding refused, " + what);
                break;
            }
            case 2: {
                std::string how;
                auto b = damaged(c, t, c.coin() ? s.v : gen(c, t.schema, 20), how);
                if (s.o->deserialize(b)) {
                    auto d = decode(t.schema, b);
                    if (d) s.v = *d;
                    else settle(c, t, s);
                } else
                    settle(c, t, s);
                break;
            }
            case 3: {
                s.v = any();
                check(s.o->base().decode(YAML::Load(yaml_plain(t.schema, s.v))), "YAML form refused, " + what);
                break;
            }
            case 4: {  // a document that lacks its end
                auto text = yaml_plain(t.schema, gen(c, t.schema, 20));
                auto keep = c.upto(text.size());
                text = text.substr(0, keep);
                if (c.coin()) text += c.coin() ? "zz" : "\n- 1";
                try {
                    s.o->base().decode(YAML::Load(text));
                } catch (const std::exception &) {
                }
                settle(c, t, s);
                break;
            }
            case 5:
                s.o->assign(*p[j].o);
                s.v = p[j].v;
                break;
            case 6:
                if (i == j) break;
                s.o->assign_move(*p[j].o);
                s.v = p[j].v;
                settle(c, t, p[j]);
                break;
            case 7: {
                auto n = p[j].o->copy();
                s.v = p[j].v;
                s.o = std::move(n);
                break;
            }
            case 8: {
                auto n = p[j].o->move();
                auto v = p[j].v;
                settle(c, t, p[j]);
                s.o = std::move(n);
                s.v = v;
                break;
            }
            case 9: {
                auto &o = static_cast<const Obj &>(*s.o);
                for (u64 r = 0, n = 1 + c.upto(4); r < n; ++r) switch (c.upto(4)) {
                        case 0: (void)o.serialize(); break;
                        case 1: (void)o.root(); break;
                        case 2: (void)o.base().encode(); break;
                        case 3: (void)o.eq(*p[j].o); break;
                        default: (void)o.base().get_ssz_size();
                    }
                break;
            }
            case 10:
                alter(c, t.schema, s.v);
                s.o->put(s.v);
                break;
            case 11:
                s.o->assign(*s.o);
                break;
            case 12: {
                if (!within_limits(t.schema, s.v)) break;
                auto h = s.o->hold();
                auto before = s.o->root();
                if (c.coin()) (void)s.o->serialize();
                for (u64 n = 1 + c.upto(1); n; --n) {
                    mutate(c, t.schema, s.v);
                    if (!same_shape(t.schema, s.v, s.o->take())) {
                        s.o->put(s.v);
                        break;
                    }
                    h(s.v);
                }
                break;
            }
            case 13: (void)s.o->relimit(c.coin() ? c.upto(3) : c.word() >> 8); break;
            case 15: {  // for a while, and the root asked for, which is refused
                std::vector<std::vector<int>> paths;
                limited(t.schema, 4200, {}, paths);
                if (t.opaque || paths.empty() || !within_limits(t.schema, s.v)) break;
                auto w = s.v;
                auto path = c.pick(paths);
                S at = t.schema;
                for (auto x : path) at = at->k == K::Container ? at->fields[x].second : at->elem;
                set_length(c, t.schema, w, path, 0, at->n + 1 + c.upto(at->k == K::Bitlist ? 300 : 40));
                bool filled = true;
                try {
                    s.o->put(w);
                } catch (const pbt::Fail &) {  // what is inside can only be loaded
                    filled = false;
                } catch (const std::exception &) {  // and bitlists only within their limit
                    filled = false;
                }
                if (!filled) {
                    s.o->put(s.v);
                    break;
                }
                bool refused = false;
                try {
                    (void)s.o->root();
                } catch (const std::exception &) {
                    refused = true;
                }
                c.label(refused ? "root refused" : "over the limit, root not refused");
                if (c.coin()) s.v = any();
                s.o->put(s.v);
                break;
            }
            default: {  // lists grow and shrink
                std::vector<std::vector<int>> paths;
                limited(t.schema, ~u64(0) >> 1, {}, paths);
                if (paths.empty()) break;
                auto w = s.v;
                set_length(c, t.schema, w, c.pick(paths), 0, c.upto(5));
                if (!within_limits(t.schema, w)) break;
                s.v = w;
                s.o->put(s.v);
            }
        }
        for (std::size_t q = 0; q < p.size(); ++q)
            same_value(t, p[q].o->take(), p[q].v, "object " + std::to_string(q) + " of " + what);
        if (c.coin()) like_fresh(c, t, s, log);
    }
    c.say(t.name + ": " + log);
    for (auto &s : p) like_fresh(c, t, s, log);
    for (std::size_t a = 0; a < 3; ++a)
        for (std::size_t b = 0; b < 3; ++b)
            check(p[a].o->eq(*p[b].o) == (p[a].v == p[b].v), "comparison of " + t.name + " after " + log);
}

// ---------------------------------------------------------------------------------------------------------- C21: accessors
// Makes the values of all scalars of the same kind different
void distinguish(Ctx &c, const S &s, Val &v, u64 &counter) {
    switch (s->k) {
        case K::Uint64: v.u = (c.coin() ? 0 : v.u << 20) + ++counter; break;
        case K::Bytes: {
            auto n = ++counter;
            for (std::size_t i = 0; i < v.b.size() && i < 3; ++i) v.b[i] = u8(n >> (8 * i));
            break;
        }
        case K::Vector:
        case K::List:
            for (std::size_t i = 0; i < v.kids.size() && i < 40; ++i) distinguish(c, s->elem, v.kids[i], counter);
            break;
        case K::Container:
            for (std::size_t i = 0; i < v.kids.size(); ++i) distinguish(c, s->fields[i].second, v.kids[i], counter);
            break;
        default: break;
    }
}
void accessors(Ctx &c, const Type &t) {
    auto v = gen_value(c, t);
    u64 counter = c.upto(100);
    switch (c.upto(3)) {
        case 0: break;
        case 1: {  // and one field as it was, or of a special value
            auto i = c.below(v.kids.size());
            auto keep = v.kids[i];
            distinguish(c, t.schema, v, counter);
            v.kids[i] = c.coin() ? keep : default_value(t.schema->fields[i].second);
            break;
        }
        default: distinguish(c, t.schema, v, counter);
    }
    bool yaml = c.coin();
    c.label(t.name + (yaml ? " from YAML" : " from SSZ"));
    c.say(about(t, v));
    c.nontrivial();
    auto o = make(c, t);
    if (yaml) check(o->base().decode(YAML::Load(yaml_plain(t.schema, v))), "YAML form refused");
    else check(o->deserialize(encode(t.schema, v)), "valid encoding refused");
    if (c.chance(1, 3)) {  // handed on to another object, this one becoming something else
        if (c.coin()) (void)o->take();
        P p;
        switch (c.upto(3)) {
            case 0: p = o->copy(); break;
            case 1: p = o->move(); break;
            case 2:
                p = make(c, t);
                p->assign(*o);
                break;
            default:
                p = make(c, t);
                p->assign_move(*o);
        }
        if (c.coin()) check(o->deserialize(encode(t.schema, small_value(c, t))), "valid encoding refused");
        std::swap(o, p);
        if (c.coin()) p.reset();
        else if (c.coin()) p->assign(*o);
        c.label("handed on");
    }
    auto got = o->take();
    for (std::size_t i = 0; i < v.kids.size(); ++i)
        if (!(got.kids[i] == v.kids[i]))
            fail("accessor " + t.name + "::" + t.schema->fields[i].first + "() after " + (yaml ? "YAML" : "SSZ") + ": " +
                 difference(t.schema->fields[i].second, got.kids[i], v.kids[i]));
    if (c.chance(1, 3)) {  // what the accessors of two objects returned, side by side
        auto v2 = small_value(c, t);
        distinguish(c, t.schema, v2, counter);
        auto o2 = make(c, t);
        check(o2->deserialize(encode(t.schema, v2)), "valid encoding refused");
        auto first = o->watch(), second = o2->watch();
        same_value(t, first(), v, "what the accessors returned, after those of another object were called, and the value");
        same_value(t, second(), v2, "what the accessors of a second object returned, and the value");
        c.label("two objects");
    }
    // what the encodings contain and the root commits to
    auto e = decode(t.schema, o->serialize());
    check(bool(e), t.name + " serializes to something else than an encoding");
    same_value(t, *e, got, "fields in the encoding, and those of the accessors");
    check(o->root() == to_bytes(root(t.schema, got)), "the root of " + t.name + " does not commit to what its accessors report");
    if (c.chance(1, 3)) {
        auto d = yaml_difference(t.schema, got, o->base().encode());
        check(d.empty(), "fields in the YAML form, and those of the accessors: " + d);
    }
}
}  // namespace
