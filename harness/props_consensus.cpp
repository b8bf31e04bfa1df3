// The consensus objects: C07, C08, C10, C11, C13, C14, C19, C21, C23
#include "core_checks.hpp"

namespace {
const std::vector<Type> &with_accessors() {
    static const std::vector<Type> r = [] {
        std::vector<Type> r;
        for (auto &t : consensus_types())
            if (t.name == "BeaconBlockBody" || t.name == "BeaconBlock" || t.name == "BeaconState") r.push_back(t);
        return r;
    }();
    return r;
}
const std::vector<Type> &with_limits() {
    static const std::vector<Type> r = [] {
        std::vector<Type> r;
        for (auto &t : consensus_types()) {
            std::vector<std::vector<int>> p;
            limited(t.schema, 4200, {}, p);
            if (!p.empty()) r.push_back(t);
        }
        return r;
    }();
    return r;
}
const std::vector<Type> &with_long_lists() {  // those whose limits allow thousands of elements
    static const std::vector<Type> r = [] {
        std::vector<Type> r;
        for (auto &t : consensus_types()) {
            std::vector<std::vector<int>> all, few;
            all_lists(t.schema, {}, all);
            limited(t.schema, 4200, {}, few);
            if (all.size() > few.size()) r.push_back(t);
        }
        if (r.empty()) r = state_type();
        return r;
    }();
    return r;
}
void long_lists(const char *id, void (*f)(Ctx &, const Type &), double weight) {
    pbt::registry().push_back({id, "long lists", weight, [f](Ctx &c) {
                                   AlwaysLong l;
                                   f(c, pick_type(c, with_long_lists()));
                               }});
}
// The mainnet state is large: few cases
#if PRESET_MAINNET
constexpr double STATE = 0.4;
#else
constexpr double STATE = 0.0;
#endif
void both(const char *id, void (*f)(Ctx &, const Type &), double state) {
    pbt::registry().push_back({id, "consensus objects", 100, [f](Ctx &c) { f(c, any_type(c, false)); }});
    if (state > 0) pbt::registry().push_back({id, "mainnet state", state, [f](Ctx &c) { f(c, state_type()[0]); }});
}
// Lists of millions of elements, in the state: loaded up to their limit, and not beyond
void large_limits(Ctx &c) {
    auto &t = [&]() -> const Type & {
        for (auto &x : consensus_types())
            if (x.name == "BeaconState") return x;
        return state_type()[0];
    }();
    auto v = default_value(t.schema);
    auto e = encode(t.schema, v);
    std::vector<std::pair<std::size_t, std::size_t>> lists;  // the fields, and where their offsets are
    std::size_t at = 0;
    for (std::size_t i = 0; i < t.schema->fields.size(); ++i) {
        auto &f = t.schema->fields[i].second;
        auto n = fixed_size(f);
        if (f->k == K::List && f->n > 4200 && f->n <= (1u << 25) && fixed_size(f->elem)) lists.push_back({i, at});
        at += n ? n : 4;
    }
    if (lists.empty()) {
        c.label("no such list");
        return;
    }
    auto [field, place] = c.pick(lists);
    auto &list = t.schema->fields[field].second;
    u64 len = list->n + c.upto(3) - c.upto(1), size = fixed_size(list->elem);
    bool want = len <= list->n;
    auto start = get32(e.data() + place);
    at = 0;
    for (auto &[name, f] : t.schema->fields) {
        auto n = fixed_size(f);
        if (!n && at > place) put32(e, at, get32(e.data() + at) + u32(len * size));
        at += n ? n : 4;
    }
    auto what = t.name + "/" + t.schema->fields[field].first + " with " + std::to_string(len) + " elements of " + std::to_string(list->n);
    c.say(what);
    c.label(want ? "large limit, within" : "large limit, over");
    c.nontrivial();
    Bytes all(e.begin(), e.begin() + start);
    all.resize(start + len * size);
    u64 r = c.seed();
    for (std::size_t i = start; i + 8 <= all.size(); i += 8) {
        u64 w = pbt::splitmix(r);
        std::memcpy(&all[i], &w, 8);
    }
    all.insert(all.end(), e.begin() + start, e.end());
    auto o = make(c, t);
    bool got = o->deserialize(all);
    check(got == want, what + (got ? " accepted" : " refused"));
    if (got) check(o->serialize() == all, "encoding of " + what);
}
// States of more than 16 MiB, up to 50: one list of fixed-size elements very long, the others with a few
struct Large {
    const Type *t;
    Val v;
    std::size_t field;
    std::string what;
};
Large large_state(Ctx &c, bool roots) {
    Large r;
    r.t = [&] {
        for (auto &x : consensus_types())
            if (x.name == "BeaconState") return &x;
        return &state_type()[0];
    }();
    auto &fields = r.t->schema->fields;
    r.v = gen(c, r.t->schema, 12);
    std::vector<std::size_t> lists;
    for (std::size_t i = 0; i < fields.size(); ++i) {
        auto &f = fields[i].second;
        if (f->k != K::List) continue;
        if (f->n > 100000 && fixed_size(f->elem)) lists.push_back(i);
        if (r.v.kids[i].kids.empty()) {
            u64 budget = 6;
            auto q = Ctx::quiet(i);
            for (u64 k = 0; k < 3; ++k) r.v.kids[i].kids.push_back(gen_in(q, f->elem, budget));
        }
    }
    r.field = c.pick(lists);
    auto &elem = fields[r.field].second->elem;
    u64 size = fixed_size(elem), n;
    switch (c.upto(2)) {
        case 0: n = ((u64(1) << 24) + c.upto(u64(1) << (roots ? 22 : 24))) / size; break;
        case 1: n = (u64(1) << (size > 100 ? 17 : size > 16 ? 20 : 21)) + c.upto(2) - 1; break;
        default: n = (u64(1) << 24) / size + c.upto(2); break;
    }
    n = std::min(n, fields[r.field].second->n);
    auto q = Ctx::quiet(c.seed());
    auto &kids = r.v.kids[r.field].kids;
    while (kids.size() < n) {
        u64 budget = 6;
        if (kids.size() < 5000)
            kids.push_back(gen_in(q, elem, budget));
        else if (elem->k == K::Uint64)
            kids.push_back(Val{q.seed(), {}, {}});
        else {  // one of those made already, with something changed
            kids.push_back(kids[q.below(5000)]);
            auto &b = elem->k == K::Bytes ? kids.back().b : kids.back().kids[0].b;
            b[q.below(b.size())] ^= u8(1 + q.upto(254));
        }
    }
    kids.resize(n);
    r.what = r.t->name + " with " + std::to_string(n) + " " + fields[r.field].first;
    c.label(fields[r.field].first);
    c.say(r.what);
    c.nontrivial();
    return r;
}
void large_serialization(Ctx &c) {
    auto l = large_state(c, false);
    auto e = encode(l.t->schema, l.v);
    auto o = make(c, *l.t);
    if (c.coin()) o->put(small_value(c, *l.t));
    check(o->deserialize(e), "valid encoding of a " + l.what + " refused");
    same_bytes(o->serialize(), e, "serialization of a " + l.what);
    check(o->take() == l.v, "value decoded of a " + l.what);
    auto p = o->copy();
    same_bytes(p->serialize(), e, "serialization of a copy of a " + l.what);
}
void large_roots(Ctx &c) {
    auto l = large_state(c, true);
    auto o = make(c, *l.t);
    if (!o->deserialize(encode(l.t->schema, l.v))) {  // C07 tells
        c.label("refused");
        return;
    }
    auto ask = [&](const std::string &when) {
        auto want = to_bytes(root(l.t->schema, l.v)), r = o->root();
        if (r != want) fail("root of a " + l.what + when + " is " + hex(r) + " instead of " + hex(want));
    };
    ask("");
    if (!c.coin()) return;
    auto &kids = l.v.kids[l.field].kids;
    std::swap(kids[c.below(kids.size())], kids[c.below(kids.size())]);
    if (o->deserialize(encode(l.t->schema, l.v))) ask(" after two elements were exchanged");
}
void large_equality(Ctx &c) {
    auto l = large_state(c, false);
    auto o = make(c, *l.t), p = make(c, *l.t);
    auto e = encode(l.t->schema, l.v), f = e;
    u64 start = 0, size = fixed_size(l.t->schema->fields[l.field].second->elem);
    for (std::size_t i = 0, at = 0; i <= l.field; ++i) {
        auto n = fixed_size(l.t->schema->fields[i].second);
        start = get32(e.data() + at);
        at += n ? n : 4;
    }
    auto where = start + size * c.below(l.v.kids[l.field].kids.size()) + c.upto(std::min<u64>(size, 80) - 1);
    if (!o->deserialize(e) || !p->deserialize(f)) {
        c.label("refused");
        return;
    }
    check(o->eq(*p), "two equal " + l.what + " are not equal");
    f[where] ^= u8(1 + c.upto(254));
    if (!p->deserialize(f)) return;
    check(!o->eq(*p), "two " + l.what + " that differ in byte " + std::to_string(where) + " are equal");
    check(!p->eq(*o), "two " + l.what + " that differ in byte " + std::to_string(where) + " are equal");
}
const bool registered = [] {
    pbt::registry().push_back({"C19large", "large limits", 1, large_limits});
    pbt::registry().push_back({"C07large", "large states", 1, large_serialization});
    pbt::registry().push_back({"C08large", "large states", 1, large_roots});
    pbt::registry().push_back({"C13large", "large states", 1, large_equality});
    both("C07", serialization, STATE);
    both("C08", roots, STATE);
    long_lists("C07", serialization, STATE > 0 ? 0.25 : 0.7);
    long_lists("C08", roots, STATE > 0 ? 0.25 : 0.7);
    both("C10", strictness, STATE);
    both("C11", yaml_round_trip, STATE / 4);
    both("C13", equality, STATE);
    both("C14", histories, STATE / 8);
    pbt::registry().push_back({"C19far", "consensus objects, far over the limit", 100, [](Ctx &c) { far_over(c, pick_type(c, with_limits())); }});
    pbt::registry().push_back({"C19", "consensus objects", 100, [](Ctx &c) { limits(c, pick_type(c, with_limits())); }});
    if (STATE > 0) pbt::registry().push_back({"C19", "mainnet state", STATE / 4, [](Ctx &c) { limits(c, state_type()[0]); }});
    both("C23", defaults, STATE);
    pbt::registry().push_back({"C21", "accessors", 100, [](Ctx &c) { accessors(c, pick_type(c, with_accessors())); }});
    if (STATE > 0) pbt::registry().push_back({"C21", "mainnet state", STATE, [](Ctx &c) { accessors(c, state_type()[0]); }});
    return true;
}();
}  // namespace
