// Predicates of validators and attestations: C15
#include "values.hpp"

namespace {
using namespace core;
using eth::AttestationData;
using eth::BeaconState;
using eth::IndexedAttestation;
using eth::Validator;

// ---------------------------------------------------------------------------------------------------- C15: predicates
const Type &validator_type() {
    static const Type t = acc::type_of<Validator>(spec::Validator(), 1, true);
    return t;
}
PROPERTY("C15", "validators", 40) {
    auto &t = validator_type();
    auto v = gen_value(c, t);
    std::vector<u64> known;
    for (int f : {4, 5, 6, 7}) {
        v.kids[f].u = c.chance(1, 5) ? spec::FAR_FUTURE_EPOCH : near_by(c, known);
        known.push_back(v.kids[f].u);
    }
    if (c.chance(2, 3)) v.kids[2].u = near_by(c, {spec::MAX_EFFECTIVE_BALANCE});
    auto o = build(c, t, v);
    auto &x = acc::ObjT<Validator>::of(static_cast<const Obj &>(*o));
    v = o->take();
    u64 balance = v.kids[2].u, eligibility = v.kids[4].u, activation = v.kids[5].u, exit = v.kids[6].u, withdrawable = v.kids[7].u;
    bool slashed = v.kids[3].u;
    known = {eligibility, activation, exit, withdrawable};
    auto epochs = known;
    for (auto e : known) epochs.insert(epochs.end(), {e + 1, e - 1});
    epochs.insert(epochs.end(), {0, ~u64(0), near_by(c, known), near_by(c, known)});
    auto what = "validator " + show(t.schema, v);
    c.say(what);
    c.nontrivial();
    for (auto e : epochs) {
        bool active = activation <= e && e < exit, slashable = !slashed && activation <= e && e < withdrawable;
        check(x.is_active(eth::Epoch(e)) == active, what + (active ? " is not active in epoch " : " is active in epoch ") + num(e));
        check(x.is_slashable(eth::Epoch(e)) == slashable, what + (slashable ? " is not slashable in epoch " : " is slashable in epoch ") + num(e));
        c.label(std::string(active ? "active" : "inactive") + (slashable ? ", slashable" : ", not slashable"));
    }
    bool eligible = eligibility == spec::FAR_FUTURE_EPOCH && balance == spec::MAX_EFFECTIVE_BALANCE;
    c.label(eligible ? "eligible" : "not eligible");
    check(x.is_eligible_for_activation_queue() == eligible, what + (eligible ? " is not" : " is") + " eligible for the activation queue");
    same_value(t, o->take(), v, "validator after asking");
}

const Type &data_type() {
    static const Type t = acc::type_of<AttestationData>(spec::AttestationData(), 1);
    return t;
}
bool slashable(const Val &a, const Val &b) {
    auto source = [](const Val &v) { return v.kids[3].kids[0].u; };
    auto target = [](const Val &v) { return v.kids[4].kids[0].u; };
    bool double_vote = !(a == b) && target(a) == target(b);
    bool surround = source(a) < source(b) && target(b) < target(a);
    return double_vote || surround;
}
PROPERTY("C15", "attestation data", 40) {
    auto &t = data_type();
    auto v = gen_value(c, t);
    Val w = c.chance(2, 3) ? v : gen_value(c, t);
    if (c.chance(2, 3)) mutate(c, t.schema, w);
    if (c.chance(3, 4)) {  // epochs close to each other
        std::vector<u64> known;
        for (auto p : {&v, &w})
            for (int f : {3, 4}) {
                if (c.chance(3, 4)) p->kids[f].kids[0].u = near_by(c, known);
                known.push_back(p->kids[f].kids[0].u);
            }
    }
    auto a = build(c, t, v), b = build(c, t, w);
    v = a->take();
    w = b->take();
    auto &x = acc::ObjT<AttestationData>::of(static_cast<const Obj &>(*a)), &y = acc::ObjT<AttestationData>::of(static_cast<const Obj &>(*b));
    c.say(show(t.schema, v) + " and " + show(t.schema, w));
    c.nontrivial();
    auto ask = [&](const AttestationData &p, const AttestationData &q, const Val &m, const Val &n) {
        bool want = slashable(m, n);
        c.label(want ? "slashable" : "not slashable");
        check(p.is_slashable(q) == want, show(t.schema, m) + (want ? " is not" : " is") + " slashable with " + show(t.schema, n));
    };
    ask(x, y, v, w);
    ask(y, x, w, v);
    ask(x, x, v, v);
    same_value(t, a->take(), v, "attestation data after asking");
    same_value(t, b->take(), w, "attestation data after asking");
}

const Type &indexed_type() {
    static const Type t = acc::type_of<IndexedAttestation>(spec::IndexedAttestation(), 1);
    return t;
}
// Whether the indices are in order does not depend on the state: a new one and some with slots, validators, balances
const BeaconState &a_state(u64 i) {
    static std::map<u64, std::unique_ptr<BeaconState>> states;
    auto &x = states[i];
    if (!x) {
        auto r = pbt::Ctx::quiet(1000 + i);
        auto schema = spec::BeaconState();
        auto v = gen(r, schema, 12);
        const u64 n[] = {0, 1, 2, 5, 12, 40, 300, 3000};
        for (int f : {11, 12}) {
            auto &kids = v.kids[f].kids;
            if (kids.empty()) kids.push_back(gen(r, schema->fields[f].second->elem, 12));
            kids.resize(n[i], kids[0]);
        }
        x = std::make_unique<BeaconState>();
        auto e = encode(schema, v);
        if (i && !x->deserialize(e.begin(), e.end())) x = std::make_unique<BeaconState>();  // other properties tell
    }
    return *x;
}
PROPERTY("C15", "indexed attestations", 20) {
    auto &state = a_state(c.chance(1, 3) ? 0 : c.upto(7));
    auto &t = indexed_type();
    auto v = small_value(c, t);
    std::vector<u64> x;
    u64 n = c.pick({u64(0), u64(1), u64(2), u64(3), c.upto(12), c.upto(200), c.upto(2048), u64(2048)});
    auto r = Ctx::quiet(c.seed());
    u64 step = c.pick({u64(1), u64(1), u64(3), u64(1) << 20, u64(1) << 33, u64(1) << 52}), at = c.coin() ? c.upto(5) : c.word() >> 12;
    for (u64 i = 0; i < n; ++i) {
        x.push_back(at);
        auto d = 1 + r.upto(step - 1);
        if (at + d < at) break;
        at += d;
    }
    n = x.size();
    if (n && c.chance(1, 4)) x.back() = ~u64(0);
    if (n > 1) switch (c.upto(9)) {  // not in order
            case 0: x[1 + c.below(n - 1)] = x[c.below(n)]; break;
            case 1: {
                auto i = c.below(n - 1);
                x[i + 1] = x[i];
                break;
            }
            case 2: {
                auto i = c.below(n - 1);
                std::swap(x[i], x[i + 1]);
                break;
            }
            case 3: std::swap(x[c.below(n)], x[c.below(n)]); break;
            case 4: x[n - 1] = x[n - 2]; break;
            case 5: x[0] = x[1]; break;
            case 6: std::reverse(x.begin(), x.end()); break;
            case 7: x[c.below(n)] ^= u64(1) << c.upto(63); break;
            default: break;
        }
    v.kids[0].kids.clear();
    for (auto i : x) v.kids[0].kids.push_back(Val{i, {}, {}});
    bool want = n > 0;
    for (std::size_t i = 0; i + 1 < x.size(); ++i) want = want && x[i] < x[i + 1];
    auto o = build(c, t, v);
    auto &a = acc::ObjT<IndexedAttestation>::of(static_cast<const Obj &>(*o));
    auto what = "an indexed attestation of " + num(n) + " indices " + show(t.schema->fields[0].second, v.kids[0]);
    c.say(what);
    c.label(want ? "valid" : n ? "not in order" : "empty");
    c.nontrivial();
    check(a.is_valid(state) == want, what + (want ? " is not valid" : " is valid"));
    same_value(t, o->take(), v, "indexed attestation after asking");
}

}  // namespace
