// Arbitrary and damaged input: C09 (SSZ), C12 (YAML). Meant for builds with sanitizers.
#include <pthread.h>

#include <functional>

#include "dynamic.hpp"
#include "memory_watch.hpp"
#include "yaml_damage.hpp"

using namespace damage;

namespace {
const Type &some_type(Ctx &c) {
    switch (c.upto(4)) {
        case 0:
        case 1: return any_type(c, false);
        case 2: return dynamic::any_container(c);
        default: return any_type(c, true);
    }
}
// What is left in the object is usable, whatever it is
void usable(Ctx &c, const Type &t, Obj &o, const std::string &what) {
    auto v = o.take();
    auto e = o.serialize();
    check(e == encode(t.schema, v), "encoding of the value it holds " + what);
    if (within_limits(t.schema, v)) check(o.root() == to_bytes(root(t.schema, v)), "root of the value it holds " + what);
    else {  // a refused YAML document may leave a list over its limit: hashing it may be refused, too
        try {
            o.root();
        } catch (const std::exception &) {
        }
    }
    (void)YAML::Dump(o.base().encode());
    auto d = o.copy();
    check(o.eq(*d) && !d->ne(o), "an object does not equal its copy " + what);
    auto f = t.make();
    check(o.eq(*f) == (v == f->take()), "comparison with a default object " + what);
    auto w = small_value(c, t);
    check(o.deserialize(encode(t.schema, w)), "valid encoding refused " + what);
    same_value(t, o.take(), w, "value loaded " + what);
    check(o.root() == to_bytes(root(t.schema, w)), "root of a value loaded " + what);
}

void malformed(Ctx &c, const Type &t) {
    std::string how;
    Bytes b;
    switch (c.upto(7)) {
        case 0:
            b = c.bytes(c.upto(c.coin() ? 40 : 600));
            how = "arbitrary";
            break;
        case 1: {  // the encoding of a value of another type
            auto &u = any_type(c, c.coin());
            b = encode(u.schema, small_value(c, u));
            how = "of another type";
            break;
        }
        case 2: {  // arbitrary 32-bit words, small ones more often: offsets
            auto n = c.upto(c.chance(1, 6) ? 400 : 40);
            b.resize(4 * n + c.upto(3));
            for (u64 i = 0; i < n; ++i)
                put32(b, 4 * i, c.chance(1, 6) ? u32(c.word()) : u32(c.coin() ? 4 * c.upto(n) : c.upto(4 * n + 8)));
            how = "words";
            break;
        }
        case 3: {  // a table of offsets that increase, around its own end
            b.resize(c.upto(c.chance(1, 4) ? 200 : 31));
            u64 x = b.size() - std::min<u64>(b.size(), c.upto(7));
            for (std::size_t i = 0; i + 4 <= b.size(); i += 4) {
                put32(b, i, u32(x));
                if (c.chance(1, 4)) x += c.upto(2);
            }
            if (c.coin()) b.resize(b.size() + c.upto(9), u8(c.upto(2)));
            how = "increasing words";
            break;
        }
        default: b = damaged(c, t, gen(c, t.schema, c.chance(1, 8) ? 300 : 40), how);
    }
    Bytes exact(b.begin(), b.end());
    exact.shrink_to_fit();
    auto o = make(c, t);
    if (c.chance(1, 3)) o->put(small_value(c, t));
    c.say(t.name + ", " + std::to_string(b.size()) + " bytes (" + how + "): " + hex(b.data(), b.size(), 40));
    if (!b.empty()) c.nontrivial();
    bool ok;
    long long peak;
    try {
        memory_watch::Watch w;
        ok = c.coin() ? o->deserialize(exact) : Window(c, exact).load(*o);
        peak = w.stop();
    } catch (const std::exception &x) {
        fail("deserializing " + hex(exact) + " as " + t.name + " throws: " + x.what());
    }
    c.label(t.name.starts_with("{") ? "a container" : t.name);
    c.label(ok ? "accepted" : "refused");
    auto allowed = (1ll << 18) + 4ll * (long long)t.size + 512ll * (long long)b.size();
    check(peak <= allowed, "deserializing " + std::to_string(b.size()) + " bytes as " + t.name + " takes " + std::to_string(peak) + " bytes of memory: " + hex(b));
    usable(c, t, *o, "after " + std::string(ok ? "accepting " : "refusing ") + hex(b.data(), b.size(), 600) + " as " + t.name);
    if (c.chance(1, 3)) {  // and destroyed, which gives back all the memory
        bool use = c.chance(1, 3);
        auto each = memory_watch::lost([&] {
            auto p = t.make();
            p->deserialize(exact);
            if (!use) return;
            p->deserialize(exact);
            p->serialize();
            try {
                p->root();
            } catch (const std::exception &) {
            }
            (void)p->base().encode();
            (void)p->eq(*p->copy());
        });
        check(!each, "an object of type " + t.name + " that was " + (ok ? "loaded with " : "to be loaded with ") + hex(b.data(), b.size(), 600) + " keeps " + std::to_string(each) + " bytes of memory each time it is destroyed");
    }
}

// On a thread with a stack of 1 MiB, as threads have, which no input of any length should need
template <class F>
void on_small_stack(F f) {
    std::function<void()> g = f;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 1 << 20);
    pthread_t t;
    int r = pthread_create(&t, &a, [](void *p) -> void * { return (*static_cast<std::function<void()> *>(p))(), nullptr; }, &g);
    pthread_attr_destroy(&a);
    if (r) throw pbt::Discard{};
    pthread_join(t, nullptr);
}
// Long inputs, for what takes stack, memory or time with their length
void malformed_long(Ctx &c, const Type &t) {
    std::string how;
    Bytes b;
    const u64 size = (u64(1) << (10 + c.upto(c.chance(1, 6) ? 13 : 10))) + c.upto(64) - 32;
    switch (c.upto(3)) {
        case 0: {
            auto pattern = c.bytes(1 + c.upto(c.coin() ? 3 : 60));
            b.resize(size);
            for (u64 i = 0; i < size; ++i) b[i] = pattern[i % pattern.size()];
            if (c.coin()) b.back() = u8(c.upto(255));
            how = "a pattern";
            break;
        }
        case 1: {  // a table of offsets
            b.resize(size / 4 * 4 + (c.chance(1, 6) ? c.upto(3) : 0));
            u64 x = b.size() - std::min<u64>(b.size(), c.chance(1, 4) ? 4 * c.upto(20) : 0), rare = 1 + c.upto(1000);
            u64 seed = c.seed();
            for (std::size_t i = 0; i + 4 <= b.size(); i += 4) {
                put32(b, i, u32(x));
                if (i && pbt::splitmix(seed) % rare == 0 && c.coin()) ++x;
            }
            b.resize(b.size() + c.upto(c.coin() ? 3 : 2000), u8(c.upto(2)));
            how = "increasing words";
            break;
        }
        default: {
            auto v = small_value(c, t);
            make_long(c, t.schema, v, std::min<u64>(size, 30000));
            if (c.chance(3, 4)) b = damaged(c, t, v, how);
            else b = encode(t.schema, v), how = "whole";
        }
    }
    b.shrink_to_fit();
    auto o = make(c, t);
    c.say(t.name + ", " + std::to_string(b.size()) + " bytes (" + how + "): " + hex(b.data(), b.size(), 40));
    c.nontrivial();
    bool ok = false;
    long long peak = 0;
    std::string error, what = std::to_string(b.size()) + " bytes (" + how + ") starting " + hex(b.data(), b.size(), 100) + " as " + t.name;
    on_small_stack([&] {
        try {
            memory_watch::Watch w;
            ok = o->deserialize(b);
            peak = w.stop();
        } catch (const std::exception &x) {
            error = std::string("deserializing ") + what + " throws: " + x.what();
            return;
        }
        try {
            if (ok && o->serialize() != b) error = "another encoding after accepting " + what;
            if (ok || b.size() < 100000) o->root();
        } catch (const std::exception &x) {
            if (ok) error = std::string("the root throws ") + x.what() + " after accepting " + what;
        }
    });
    if (!error.empty()) fail(error);
    c.label(ok ? "long, accepted" : "long, refused");
    auto allowed = (1ll << 18) + 4ll * (long long)t.size + 512ll * (long long)b.size();
    check(peak <= allowed, "deserializing " + what + " takes " + std::to_string(peak) + " bytes of memory");
    if (b.size() < 20000) usable(c, t, *o, "after " + std::string(ok ? "accepting " : "refusing ") + what);
}

void malformed_yaml(Ctx &c, const Type &t) {
    auto v = gen(c, t.schema, c.chance(1, 10) ? 60 : 20);
    auto d = document(t.schema, v);
    std::string how, text;
    auto effect = ANY;
    auto kind = c.upto(9);
    if (kind <= 6) {
        for (u64 i = 0, n = c.chance(1, 5) ? 2 : 1; i < n; ++i) {
            std::vector<Doc *> nodes;
            all_nodes(d, nodes);
            Doc *at;
            if (c.coin()) at = nodes[c.below(nodes.size())];
            else {  // from the top, at random: nodes near it are more likely
                at = &d;
                while (!at->kids.empty() && c.chance(2, 3)) at = &at->kids[c.below(at->kids.size())].second;
            }
            auto e = change(c, *at, how);
            // a second change may remove or repair the first
            effect = n == 1 ? e : ANY;
        }
        write(d, text);
    } else {
        if (c.coin()) text = yaml_text(c, t.schema, v, gen_style(c));
        else write(d, text);
        if (kind == 9) {
            text = c.coin() ? odd_text(c) : std::string();
            if (c.coin()) {
                Doc o = odd_node(c);
                write(o, text);
            }
            how += "another document; ";
        } else {
            damage_text(c, text);
            how += "damaged text; ";
        }
    }
    auto shown = text.substr(0, 160);
    std::replace(shown.begin(), shown.end(), '\n', '|');
    c.say(t.name + ", " + how + ": " + shown);
    c.label(how);
    YAML::Node node;
    try {
        node = YAML::Load(text);
    } catch (const std::exception &) {
        c.label("not YAML");
        return;
    }
    c.nontrivial();
    auto o = make(c, t);
    if (c.chance(1, 3)) o->put(small_value(c, t));
    bool ok;
    try {
        ok = o->base().decode(node);
    } catch (const std::bad_alloc &) {
        fail("decoding " + text.substr(0, 500) + " as " + t.name + " exhausts the memory");
    } catch (const std::exception &) {
        ok = false;
        c.label("exception");
    }
    c.label(ok ? "accepted" : "refused");
    auto what = how + "as " + t.name + ": " + text.substr(0, 600);
    if (effect == REJECT) check(!ok, "accepted, " + what);
    if (ok) {
        auto got = o->take();
        check(within_limits(t.schema, got), "a list over its limit is accepted, " + what);
        same_bytes(o->serialize(), encode(t.schema, got), "encoding after accepting " + what);
        check(o->root() == to_bytes(root(t.schema, got)), "root after accepting " + what);
        auto own = o->base().encode();
        auto diff = yaml_difference(t.schema, got, own);
        check(diff.empty(), "YAML form after accepting " + what + ": " + diff);
        auto again = t.make();
        check(again->base().decode(YAML::Load(YAML::Dump(own))), "own YAML form refused after accepting " + what);
        same_value(t, again->take(), got, "value after a round trip, after accepting " + what);
        check(again->eq(*o) && o->eq(*again), "value after a round trip differs, after accepting " + what);
        auto from = t.make();
        check(from->deserialize(o->serialize()), "own encoding refused after accepting " + what);
    }
    usable(c, t, *o, "after " + std::string(ok ? "accepting " : "refusing ") + what);
    if (c.chance(1, 6)) {
        auto each = memory_watch::lost([&] {
            auto p = t.make();
            try {
                p->base().decode(YAML::Load(text));
            } catch (const std::exception &) {
            }
        });
        check(!each, "an object of type " + t.name + " that was to be decoded keeps " + std::to_string(each) + " bytes of memory each time it is destroyed, " + what);
    }
}
// Long documents, for what takes stack, memory or time with their length. No depth: yaml-cpp itself is recursive.
void malformed_long_yaml(Ctx &c, const Type &t) {
    auto v = small_value(c, t);
    std::string how, text;
    auto effect = ANY;
    const u64 size = (u64(1) << (c.chance(1, 3) ? 20 + c.upto(2) : 10 + c.upto(10))) + c.upto(64) - 32;
    auto d = document(t.schema, v);
    std::vector<Doc *> nodes, scalars;
    all_nodes(d, nodes);
    for (auto n : nodes)
        if (n->schema && is_scalar(n->schema)) scalars.push_back(n);
    u64 seed = c.seed();
    if (!scalars.empty() && c.chance(3, 4)) {
        auto &x = *scalars[c.below(scalars.size())];
        std::string w;
        switch (c.upto(4)) {
            case 0:
            case 1:
            case 2: {  // so many digits, all of them, or another character among them
                static const char digits[] = "0123456789abcdefABCDEF";
                auto few = c.pick({1, 2, 10, 16, 22});
                w = c.chance(1, 8) ? "" : "0x";
                for (u64 i = 0; i < 2 * size; ++i) w += digits[pbt::splitmix(seed) % u64(few)];
                if (c.chance(1, 3)) w[2 + c.below(w.size() - 2)] = c.pick({'g', ' ', '-', 'x', '\0', '\x80'});
                if (c.chance(1, 6)) w.pop_back();
                how = "a scalar of many digits";
                break;
            }
            case 3:
                w = std::string(size, c.pick({'9', '0', 'f', ' ', 'x', '-', '\x7f'}));
                how = "a scalar of a repeated character";
                break;
            default:
                w = x.text;
                w.insert(c.chance(2, 3) ? std::min<u64>(w.size(), 2) : c.upto(w.size()), std::string(size, '0'));
                how = "a scalar with many zeros in it";
        }
        if (x.schema->k == K::Bytes || x.schema->k == K::Bitvector) {
            auto n = x.schema->k == K::Bytes ? x.schema->n : (x.schema->n + 7) / 8;
            if (w.size() > 2 * n + 2) effect = REJECT;
        } else if (x.schema->k == K::Bool)
            effect = REJECT;
        x = scalar(w, true);
    } else {  // many elements of a sequence, or many fields
        auto &x = nodes[c.below(nodes.size())]->kind == Doc::Seq ? *nodes[c.below(nodes.size())] : d;
        const u64 n = std::min<u64>(size, 1 << (10 + c.upto(7)));
        if (x.kind == Doc::Map) {
            how = "a map of many fields";
            auto e = odd_node(c);
            for (u64 i = 0; i < std::min<u64>(n, 3000); ++i) x.kids.insert(c.coin() ? x.kids.end() : x.kids.begin(), Entry{"z" + std::to_string(i), e});
        } else {
            how = "a sequence of many elements";
            if (x.schema && x.schema->k == K::Vector && n > x.schema->n) effect = REJECT;
            if (x.schema && x.schema->k == K::List && x.schema->n && n > x.schema->n) effect = REJECT;
            auto e = x.schema && x.schema->elem && c.chance(2, 3) ? document(x.schema->elem, default_value(x.schema->elem)) : odd_node(c);
            if (e.kids.size() > 30) throw pbt::Discard{};
            x.kind = Doc::Seq;
            x.kids.assign(n, Entry{"", e});
            if (c.chance(1, 3)) x.kids[c.below(n)].second = odd_node(c);
        }
    }
    write(d, text);
    if (text.size() > (u64(24) << 20)) throw pbt::Discard{};
    auto shown = text.substr(0, 100);
    std::replace(shown.begin(), shown.end(), '\n', '|');
    c.say(t.name + ", " + how + ", " + std::to_string(text.size()) + " characters: " + shown);
    c.label(how);
    YAML::Node node;
    try {
        node = YAML::Load(text);
    } catch (const std::exception &) {
        c.label("not YAML");
        return;
    }
    c.nontrivial();
    auto o = make(c, t);
    bool ok = false;
    std::string error, what = how + " (" + std::to_string(text.size()) + " characters) as " + t.name + ": " + text.substr(0, 300);
    on_small_stack([&] {
        try {
            ok = o->base().decode(node);
        } catch (const std::bad_alloc &) {
            error = "decoding exhausts the memory, " + what;
        } catch (const std::exception &) {
            c.label("exception");
        }
        if (!ok) return;
        try {
            auto own = o->base().encode();
            auto again = t.make();
            if (!again->base().decode(own) || !again->eq(*o)) error = "value after a round trip differs, after accepting " + what;
            else if (again->serialize() != o->serialize() || again->root() != o->root()) error = "encoding or root after a round trip differs, after accepting " + what;
        } catch (const std::exception &x) {
            error = std::string("its own YAML form or its root throws ") + x.what() + ", after accepting " + what;
        }
    });
    if (!error.empty()) fail(error);
    c.label(ok ? "long, accepted" : "long, refused");
    if (effect == REJECT) check(!ok, "accepted, " + what);
    if (ok) {
        auto got = o->take();
        check(within_limits(t.schema, got), "a list over its limit is accepted, " + what);
        check(o->serialize() == encode(t.schema, got), "encoding after accepting " + what);
        check(o->root() == to_bytes(root(t.schema, got)), "root after accepting " + what);
        auto diff = yaml_difference(t.schema, got, o->base().encode());
        check(diff.empty(), "YAML form after accepting " + what + ": " + diff);
    }
    if (text.size() < 20000) usable(c, t, *o, "after " + std::string(ok ? "accepting " : "refusing ") + what);
}
// nodes that are no documents
void odd_handles(Ctx &c, const Type &t) {
    auto o = make(c, t);
    c.nontrivial();
    c.label(t.name.starts_with("{") ? "a container" : t.name);
    YAML::Node n;
    std::string what;
    const YAML::Node map = YAML::Load("{a: 1}");
    switch (c.upto(3)) {
        case 0: what = "an empty node"; break;
        case 1:
            n = YAML::Node(YAML::NodeType::Undefined);
            what = "an undefined node";
            break;
        case 2:
            n = YAML::Load("");
            what = "an empty document";
            break;
        default: what = "a missing entry"; break;
    }
    c.say(t.name + " from " + what);
    bool ok;
    try {
        ok = what == "a missing entry" ? o->base().decode(map["b"]) : o->base().decode(n);
    } catch (const std::exception &) {
        ok = false;
    }
    check(!ok, what + " is accepted as " + t.name);
    usable(c, t, *o, "after decoding " + what + " as " + t.name);
}
}  // namespace
PROPERTY("C09", "malformed SSZ", 1) { malformed(c, some_type(c)); }
PROPERTY("C09long", "long inputs", 1) { malformed_long(c, some_type(c)); }
PROPERTY("C12", "malformed YAML", 40) { malformed_yaml(c, some_type(c)); }
PROPERTY("C12long", "long documents", 1) { malformed_long_yaml(c, some_type(c)); }
PROPERTY("C12", "odd nodes", 1) { odd_handles(c, some_type(c)); }
