// The constants of the preset: C20. The numbers are those of the phase-0 specification (v1.1).
#include "access.hpp"
#include "config/constants.hpp"
#include "core.hpp"

namespace {
using namespace core;

struct Constant {
    std::string name, got, want;
};
std::string text(const eth::Slot &s) { return std::to_string(static_cast<u64>(s)); }
template <std::integral I>
std::string text(I i) {
    return std::to_string(i);
}
template <std::size_t N>
std::string text(const eth::Bytes<N> &b) {
    return b.to_string();
}
std::string text(const char *s) { return s; }

#define BOTH(NAME, VALUE) {#NAME, text(constants::NAME), text(VALUE)}
#define EACH(NAME, MINIMAL_, MAINNET_) {#NAME, text(constants::NAME), spec::MINIMAL ? text(MINIMAL_) : text(MAINNET_)}
const std::vector<Constant> &all() {
    static const std::vector<Constant> v = {
        // misc
        BOTH(GENESIS_SLOT, 0),
        BOTH(GENESIS_EPOCH, 0),
        BOTH(FAR_FUTURE_EPOCH, 18446744073709551615ull),
        BOTH(BASE_REWARDS_PER_EPOCH, 4),
        BOTH(DEPOSIT_CONTRACT_TREE_DEPTH, 32),
        BOTH(JUSTIFICATION_BITS_LENGTH, 4),
        BOTH(MAX_EFFECTIVE_BALANCE, 32000000000),
        BOTH(MIN_DEPOSIT_AMOUNT, 1000000000),
        BOTH(EFFECTIVE_BALANCE_INCREMENT, 1000000000),
        BOTH(MIN_ATTESTATION_INCLUSION_DELAY, 1),
        BOTH(BYTES_PER_LENGTH_OFFSET, 4),
        BOTH(BYTES_PER_CHUNK, 32),
        BOTH(BITS_PER_BYTE, 8),
        // configuration
        EACH(MIN_GENESIS_ACTIVE_VALIDATOR_COUNT, 64, 16384),
        EACH(MIN_GENESIS_TIME, 1578009600, 1606824000),
        EACH(GENESIS_FORK_VERSION, "0x00000001", "0x00000000"),
        EACH(GENESIS_DELAY, 300, 604800),
        EACH(SECONDS_PER_SLOT, 6, 12),
        BOTH(SECONDS_PER_ETH1_BLOCK, 14),
        BOTH(MIN_VALIDATOR_WITHDRAWABILITY_DELAY, 256),
        EACH(SHARD_COMMITTEE_PERIOD, 64, 256),
        EACH(ETH1_FOLLOW_DISTANCE, 16, 2048),
        BOTH(EJECTION_BALANCE, 16000000000),
        BOTH(MIN_PER_EPOCH_CHURN_LIMIT, 4),
        BOTH(CHURN_LIMIT_QUOTIENT, 65536),
        EACH(DEPOSIT_CHAIN_ID, 5, 1),
        EACH(DEPOSIT_NETWORK_ID, 5, 1),
        EACH(DEPOSIT_CONTRACT_ADDRESS, "0x1234567890123456789012345678901234567890", "0x00000000219ab540356cbb839cbe05303d7705fa"),
        // preset
        EACH(MAX_COMMITTEES_PER_SLOT, 4, 64),
        EACH(TARGET_COMMITTEE_SIZE, 4, 128),
        BOTH(MAX_VALIDATORS_PER_COMMITTEE, 2048),
        EACH(SHUFFLE_ROUND_COUNT, 10, 90),
        BOTH(HYSTERESIS_QUOTIENT, 4),
        BOTH(HYSTERESIS_DOWNWARD_MULTIPLIER, 1),
        BOTH(HYSTERESIS_UPWARD_MULTIPLIER, 5),
        EACH(SAFE_SLOTS_TO_UPDATE_JUSTIFIED, 2, 8),
        EACH(SLOTS_PER_EPOCH, 8, 32),
        BOTH(MIN_SEED_LOOKAHEAD, 1),
        BOTH(MAX_SEED_LOOKAHEAD, 4),
        EACH(EPOCHS_PER_ETH1_VOTING_PERIOD, 4, 64),
        EACH(SLOTS_PER_HISTORICAL_ROOT, 64, 8192),
        BOTH(MIN_EPOCHS_TO_INACTIVITY_PENALTY, 4),
        EACH(EPOCHS_PER_HISTORICAL_VECTOR, 64, 65536),
        EACH(EPOCHS_PER_SLASHINGS_VECTOR, 64, 8192),
        BOTH(HISTORICAL_ROOTS_LIMIT, 16777216),
        BOTH(VALIDATOR_REGISTRY_LIMIT, 1099511627776),
        BOTH(BASE_REWARD_FACTOR, 64),
        BOTH(WHISTLEBLOWER_REWARD_QUOTIENT, 512),
        BOTH(PROPOSER_REWARD_QUOTIENT, 8),
        EACH(INACTIVITY_PENALTY_QUOTIENT, 33554432, 67108864),
        EACH(MIN_SLASHING_PENALTY_QUOTIENT, 64, 128),
        EACH(PROPORTIONAL_SLASHING_MULTIPLIER, 2, 1),
        BOTH(MAX_PROPOSER_SLASHINGS, 16),
        BOTH(MAX_ATTESTER_SLASHINGS, 2),
        BOTH(MAX_ATTESTATIONS, 128),
        BOTH(MAX_DEPOSITS, 16),
        BOTH(MAX_VOLUNTARY_EXITS, 16),
    };
    return v;
}
PROPERTY("C20", "constants", 10) {
    auto &k = c.pick(all());
    c.say(k.name + " = " + k.got);
    c.label(k.name);
    c.nontrivial();
    check(k.got == k.want, k.name + " is " + k.got + " instead of " + k.want);
}
// what the types make of them: lengths of vectors, limits of lists and the roots that depend on both
const Type &a_type(Ctx &c) {
#if PRESET_MAINNET
    if (c.chance(1, 300)) return state_type()[0];
#endif
    return pick_type(c, consensus_types());
}
PROPERTY("C20", "types", 90) {
    auto &t = a_type(c);
    auto size = fixed_size(t.schema);
    auto v = c.coin() ? default_value(t.schema) : gen(c, t.schema, 25);
    c.label(t.name);
    c.say(about(t, v));
    c.nontrivial();
    auto o = make(c, t);
    if (size) {
        check(o->base().get_ssz_size() == size, t.name + " says it has " + std::to_string(o->base().get_ssz_size()) + " bytes instead of " + std::to_string(size));
        check(o->static_size() == size, t.name + "::ssz_size is " + std::to_string(o->static_size()) + " instead of " + std::to_string(size));
    }
    auto e = encode(t.schema, v);
    check(o->serialize().size() == encode(t.schema, default_value(t.schema)).size(), "length of a default-constructed " + t.name);
    check(o->deserialize(e), "valid encoding refused: " + about(t, v));
    same_bytes(o->serialize(), e, "encoding of " + t.name);
    auto want = to_bytes(root(t.schema, v)), got = o->root();
    if (got != want) fail("root of " + about(t, v) + " is " + hex(got) + " instead of " + hex(want));
    // one of the lists at its limit, and over it
    std::vector<std::vector<int>> paths;
    limited(t.schema, 4200, {}, paths);
    if (paths.empty()) return;
    auto path = c.pick(paths);
    std::string where = t.name;
    S at = t.schema;
    for (auto i : path) {
        where += at->k == K::Container ? "/" + at->fields[i].first : "[]";
        at = at->k == K::Container ? at->fields[i].second : at->elem;
    }
    for (u64 over : {0, 1}) {
        auto w = default_value(t.schema);
        set_length(c, t.schema, w, path, 0, at->n + over);
        auto x = make(c, t);
        bool ok = x->deserialize(encode(t.schema, w));
        check(ok == !over, where + " with " + std::to_string(at->n + over) + " elements " + (ok ? "accepted" : "refused"));
        if (!over) {
            want = to_bytes(root(t.schema, w));
            got = x->root();
            if (got != want) fail("root of " + where + " with " + std::to_string(at->n) + " elements is " + hex(got) + " instead of " + hex(want));
        }
    }
}
// lengths that the encoding's size does not show, as that of a bitvector
PROPERTY("C20", "acceptance", 15) {
    auto &t = a_type(c);
    std::string how;
    auto b = damaged(c, t, c.coin() ? default_value(t.schema) : gen(c, t.schema, 25), how);
    bool want = decode(t.schema, b).has_value();
    c.label(want ? "valid" : "invalid");
    c.say(t.name + ", " + how + ": " + hex(b.data(), b.size(), 60));
    c.nontrivial();
    auto o = make(c, t);
    bool got = o->deserialize(b);
    check(got == want, std::to_string(b.size()) + " bytes (" + how + ") are " + (got ? "accepted" : "refused") + " as " + t.name + ": " + hex(b.data(), b.size(), 600));
    if (got) same_bytes(o->serialize(), b, "encoding of " + t.name);
}
}  // namespace
