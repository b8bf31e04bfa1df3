// Reading and setting library objects through their public members
#pragma once
#include <array>
#include <cstdlib>
#include <new>
#include <memory>
#include <sstream>
#include <tuple>

#include "beacon-chain/attestation.hpp"
#include "beacon-chain/beacon_block.hpp"
#include "beacon-chain/beacon_state.hpp"
#include "beacon-chain/deposits.hpp"
#include "beacon-chain/eth1data.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/boolean.hpp"
#include "common/bytes.hpp"
#include "common/containers.hpp"
#include "common/slot.hpp"
#include "obj.hpp"
#include "spec.hpp"

namespace acc {
using namespace model;
template <class T>
struct Acc;
using Held = std::function<void(const Val &)>;
// lists, of which a reference to the vector inside is taken, can also grow through it
template <class T>
Held hold(T &t, const S &s) {
    if constexpr (requires { Acc<T>::hold(t, s); }) return Acc<T>::hold(t, s);
    else return [&t, s](const Val &v) { Acc<T>::put(t, s, v); };
}

template <class T>
Val take(const T &t) {
    return Acc<T>::take(t);
}
template <class T>
void put(T &t, const S &s, const Val &v) {
    Acc<T>::put(t, s, v);
}
// through the encoding, for types without setters
template <class T>
void put_encoded(T &t, const S &s, const Val &v) {
    auto e = encode(s, v);
    if (!t.deserialize(e.begin(), e.end())) pbt::fail("a valid encoding of " + s->name + " was refused: " + pbt::hex(e));
}
inline Val bits_of(const std::string &s) {
    Val v;
    for (char ch : s) v.b.push_back(u8(ch - '0'));
    return v;
}

template <>
struct Acc<eth::Slot> {
    static Val take(const eth::Slot &x) { return Val{static_cast<std::uint64_t>(x), {}, {}}; }
    static void put(eth::Slot &x, const S &, const Val &v) { x = eth::Slot(v.u); }
};
template <>
struct Acc<eth::Boolean> {
    static Val take(const eth::Boolean &x) { return Val{static_cast<bool>(x) ? u64(1) : u64(0), {}, {}}; }
    static void put(eth::Boolean &x, const S &, const Val &v) { x = eth::Boolean(v.u != 0); }
};
template <std::size_t N>
struct Acc<eth::Bytes<N>> {
    static Val take(const eth::Bytes<N> &x) {
        auto &a = x.to_array();
        return Val{0, Bytes(a.begin(), a.end()), {}};
    }
    static void put(eth::Bytes<N> &x, const S &, const Val &v) {
        std::array<u8, N> a;
        std::copy(v.b.begin(), v.b.end(), a.begin());
        x = eth::Bytes<N>(a);
    }
};
template <unsigned N>
struct Acc<eth::Bitvector<N>> {
    static Val take(const eth::Bitvector<N> &x) {
        std::ostringstream o;
        o << x;
        return bits_of(o.str());
    }
    static void put(eth::Bitvector<N> &x, const S &, const Val &v) {
        std::array<bool, N> a{};
        for (unsigned i = 0; i < N; ++i) a[i] = v.b[i];
        x = eth::Bitvector<N>(a);
    }
};
template <>
struct Acc<eth::Bitlist> {
    static Val take(const eth::Bitlist &x) {
        std::ostringstream o;
        o << x;
        return bits_of(o.str());
    }
    static void put(eth::Bitlist &x, const S &, const Val &v) { x.from_hexstring(hex0x(pack_bits(v.b, true))); }
};
template <class T, std::size_t N>
struct Acc<eth::VectorFixedSizedParts<T, N>> {
    static Val take(const eth::VectorFixedSizedParts<T, N> &x) {
        Val v;
        for (auto i = x.cbegin(); i != x.cend(); ++i) v.kids.push_back(acc::take(*i));
        return v;
    }
    static Held hold(eth::VectorFixedSizedParts<T, N> &x, const S &s) {
        auto i = x.begin();
        return [i, e = s->elem](const Val &v) {
            auto at = i;
            for (auto &k : v.kids) acc::put(*at++, e, k);
        };
    }
    static void put(eth::VectorFixedSizedParts<T, N> &x, const S &s, const Val &v) {
        std::size_t k = 0;
        for (auto &e : x) acc::put(e, s->elem, v.kids[k++]);
    }
};
template <class T>
struct Acc<eth::ListFixedSizedParts<T>> {
    static Val take(const eth::ListFixedSizedParts<T> &x) {
        Val v;
        for (auto i = x.cbegin(); i != x.cend(); ++i) v.kids.push_back(acc::take(*i));
        return v;
    }
    static Held hold(eth::ListFixedSizedParts<T> &x, const S &s) {
        auto &d = x.data();
        auto i = x.begin();
        return [i, &d, e = s->elem](const Val &v) {
            bool same = d.size() == v.kids.size();
            if (!same) d.resize(v.kids.size());
            auto at = same ? i : d.begin();
            for (auto &k : v.kids) acc::put(*at++, e, k);
        };
    }
    static void put(eth::ListFixedSizedParts<T> &x, const S &s, const Val &v) {
        x.data().resize(v.kids.size());
        std::size_t k = 0;
        for (auto &e : x) acc::put(e, s->elem, v.kids[k++]);
    }
};
template <class T>
struct Acc<eth::ListVariableSizedParts<T>> {
    static Val take(const eth::ListVariableSizedParts<T> &x) {
        Val v;
        for (auto i = x.cbegin(); i != x.cend(); ++i) v.kids.push_back(acc::take(*i));
        return v;
    }
    static Held hold(eth::ListVariableSizedParts<T> &x, const S &s) {
        auto i = x.begin();
        return [i, e = s->elem](const Val &v) {
            auto at = i;
            for (auto &k : v.kids) acc::put(*at++, e, k);
        };
    }
    static void put(eth::ListVariableSizedParts<T> &x, const S &s, const Val &v) {
        if (x.size() != v.kids.size()) {
            put_encoded(x, s, v);  // the only way to change its size
            return;
        }
        std::size_t k = 0;
        for (auto &e : x) acc::put(e, s->elem, v.kids[k++]);
    }
};

// structs with public members, in the order of the specification
template <class T, class... M>
Val take_members(const T &t, M T::*...m) {
    return Val{0, {}, {take(t.*m)...}};
}
template <class T, class... M>
void put_members(T &t, const S &s, const Val &v, M T::*...m) {
    std::size_t k = 0;
    ((put(t.*m, s->fields[k].second, v.kids[k]), ++k), ...);
}
template <class T, class... M>
Held hold_members(T &t, const S &s, M T::*...m) {
    std::vector<Held> h;
    std::size_t k = 0;
    (h.push_back(hold(t.*m, s->fields[k++].second)), ...);
    return [h](const Val &v) {
        for (std::size_t i = 0; i < h.size(); ++i) h[i](v.kids[i]);
    };
}
#define MEMBERS(T, ...)                                                                                       \
    template <>                                                                                               \
    struct Acc<eth::T> {                                                                                      \
        using X = eth::T;                                                                                     \
        static Val take(const X &x) { return take_members(x, __VA_ARGS__); }                                  \
        static void put(X &x, const S &s, const Val &v) { put_members(x, s, v, __VA_ARGS__); }                \
        static Held hold(X &x, const S &s) { return hold_members(x, s, __VA_ARGS__); }                        \
    };
MEMBERS(Fork, &X::previous_version, &X::current_version, &X::epoch)
MEMBERS(ForkData, &X::current_version, &X::genesis_validators_root)
MEMBERS(Checkpoint, &X::epoch, &X::root)
MEMBERS(SigningData, &X::object_root, &X::domain)
MEMBERS(AttestationData, &X::slot, &X::index, &X::beacon_block_root, &X::source, &X::target)
MEMBERS(IndexedAttestation, &X::attesting_indices, &X::data, &X::signature)
MEMBERS(PendingAttestation, &X::aggregation_bits, &X::data, &X::inclusion_delay, &X::proposer_index)
MEMBERS(Attestation, &X::aggregation_bits, &X::data, &X::signature)
MEMBERS(Eth1Data, &X::deposit_root, &X::deposit_count, &X::block_hash)
MEMBERS(DepositMessage, &X::pubkey, &X::withdrawal_credentials, &X::amount)
MEMBERS(DepositData, &X::pubkey, &X::withdrawal_credentials, &X::amount, &X::signature)
MEMBERS(Deposit, &X::proof, &X::data)
MEMBERS(BeaconBlockHeader, &X::slot, &X::proposer_index, &X::parent_root, &X::state_root, &X::body_root)
MEMBERS(SignedBeaconBlockHeader, &X::message, &X::signature)
MEMBERS(VoluntaryExit, &X::epoch, &X::validator_index)
MEMBERS(SignedVoluntaryExit, &X::message, &X::signature)
MEMBERS(ProposerSlashing, &X::signed_header_1, &X::signed_header_2)
MEMBERS(AttesterSlashing, &X::attestation_1, &X::attestation_2)
MEMBERS(SignedBeaconBlock, &X::message, &X::signature)

template <>
struct Acc<eth::Validator> {  // no accessors: through its encoding
    static Val take(const eth::Validator &x) {
        auto e = x.serialize();
        auto v = decode(spec::Validator(), e);
        if (!v) pbt::fail("a validator serializes to something else than an encoding: " + pbt::hex(e));
        return *v;
    }
    static void put(eth::Validator &x, const S &s, const Val &v) { put_encoded(x, s, v); }
};
// what accessors return, references as references
template <class... F>
std::tuple<F...> results(F &&...f) {
    return std::tuple<F...>(std::forward<F>(f)...);
}
template <class... F>
Val take_all(const std::tuple<F...> &t) {
    return std::apply([](auto const &...f) { return Val{0, {}, {acc::take(f)...}}; }, t);
}
template <>
struct Acc<eth::BeaconBlockBody> {
    static auto all(const eth::BeaconBlockBody &x) {
        return results(x.randao_reveal(), x.eth1_data(), x.graffiti(), x.proposer_slashings(), x.attester_slashings(), x.attestations(),
                       x.deposits(), x.voluntary_exits());
    }
    static Val take(const eth::BeaconBlockBody &x) {
        return Val{0, {}, {acc::take(x.randao_reveal()), acc::take(x.eth1_data()), acc::take(x.graffiti()), acc::take(x.proposer_slashings()),
                           acc::take(x.attester_slashings()), acc::take(x.attestations()), acc::take(x.deposits()), acc::take(x.voluntary_exits())}};
    }
    static void put(eth::BeaconBlockBody &x, const S &s, const Val &v) { put_encoded(x, s, v); }
};
template <>
struct Acc<eth::BeaconBlock> {
    static auto all(const eth::BeaconBlock &x) {
        return results(x.slot(), x.proposer_index(), x.parent_root(), x.state_root(), x.body());
    }
    static Val take(const eth::BeaconBlock &x) {
        return Val{0, {}, {acc::take(x.slot()), acc::take(x.proposer_index()), acc::take(x.parent_root()), acc::take(x.state_root()), acc::take(x.body())}};
    }
    static void put(eth::BeaconBlock &x, const S &s, const Val &v) { put_encoded(x, s, v); }
};
template <>
struct Acc<eth::BeaconState> {
    static auto all(const eth::BeaconState &x) {
        return results(x.genesis_time(), x.genesis_validators_root(), x.slot(), x.fork(), x.latest_block_header(), x.block_roots(),
                       x.state_roots(), x.historical_roots(), x.eth1_data(), x.eth1_data_votes(), x.eth1_deposit_index(), x.validators(),
                       x.balances(), x.randao_mixes(), x.slashings(), x.previous_epoch_attestations(), x.current_epoch_attestations(),
                       x.justification_bits(), x.previous_justified_checkpoint(), x.current_justified_checkpoint(), x.finalized_checkpoint());
    }
    static Val take(const eth::BeaconState &x) {
        Val v;
        auto add = [&v](auto const &f) { v.kids.push_back(acc::take(f)); };
        add(x.genesis_time());
        add(x.genesis_validators_root());
        add(x.slot());
        add(x.fork());
        add(x.latest_block_header());
        add(x.block_roots());
        add(x.state_roots());
        add(x.historical_roots());
        add(x.eth1_data());
        add(x.eth1_data_votes());
        add(x.eth1_deposit_index());
        add(x.validators());
        add(x.balances());
        add(x.randao_mixes());
        add(x.slashings());
        add(x.previous_epoch_attestations());
        add(x.current_epoch_attestations());
        add(x.justification_bits());
        add(x.previous_justified_checkpoint());
        add(x.current_justified_checkpoint());
        add(x.finalized_checkpoint());
        return v;
    }
    static void put(eth::BeaconState &x, const S &s, const Val &v) { put_encoded(x, s, v); }
};

template <class T>
class ObjT : public obj::Obj {
    S schema;
    void *mem;
    T *p;

   public:
    template <class F>
    ObjT(S s, int fill, F construct) : schema{std::move(s)} {
        auto align = std::max<std::size_t>(alignof(T), 16);
        mem = std::aligned_alloc(align, (sizeof(T) + align - 1) / align * align);
        if (!mem) throw std::bad_alloc();
        std::memset(mem, fill, sizeof(T));
        asm volatile("" : "+r"(mem) : : "memory");  // what the memory held counts
        try {
            p = construct(mem);
        } catch (...) {
            std::free(mem);
            throw;
        }
    }
    ~ObjT() override {
        p->~T();
        std::free(mem);
    }
    static const T &of(const Obj &o) { return *static_cast<const ObjT &>(o).p; }
    static T &of(Obj &o) { return *static_cast<ObjT &>(o).p; }
    ssz::Container &base() override { return *p; }
    const ssz::Container &base() const override { return *p; }
    obj::P copy() const override {
        return std::make_unique<ObjT>(schema, 0x5c, [this](void *m) { return new (m) T(*static_cast<const T *>(p)); });
    }
    obj::P move() override {
        return std::make_unique<ObjT>(schema, 0x5c, [this](void *m) { return new (m) T(std::move(*p)); });
    }
    void assign(const Obj &o) override { *p = of(o); }
    void assign_move(Obj &o) override { *p = std::move(of(o)); }
    bool eq(const Obj &o) const override { return static_cast<const T &>(*p) == of(o); }
    bool ne(const Obj &o) const override { return static_cast<const T &>(*p) != of(o); }
    void put(const Val &v) override { acc::put(*p, schema, v); }
    Val take() const override { return acc::take(static_cast<const T &>(*p)); }
    std::function<Val()> watch() const override {
        const T &t = *p;
        if constexpr (requires { acc::Acc<T>::all(t); }) {
            auto all = std::make_shared<decltype(acc::Acc<T>::all(t))>(acc::Acc<T>::all(t));
            return [all] { return acc::take_all(*all); };
        } else
            return [&t] { return acc::take(t); };
    }
    std::function<void(const Val &)> hold() override { return acc::hold(*p, schema); }
    bool relimit(u64 other) override {
        if constexpr (requires(T &t) { t.limit(other); }) {
            p->limit(other);
            try {
                (void)p->hash_tree_root();
            } catch (const std::exception &) {
            }
            p->limit(schema->n);
            return true;
        } else
            return false;
    }
    void load_as(const YAML::Node &n) override { *p = n.as<T>(); }
    u64 static_size() const override {
        if constexpr (requires { T::ssz_size; }) return T::ssz_size;
        else return 0;
    }
};
template <class T>
obj::Type type_of(S s, unsigned weight, bool opaque = false) {
    return {s->name, s, weight, sizeof(T), opaque, [s](int fill, bool braces) -> obj::P {
                return std::make_unique<ObjT<T>>(s, fill, [braces](void *m) { return braces ? new (m) T{} : new (m) T; });
            }};
}
// lists and bitlists, whose limit is given to the constructor or set later
template <class T>
obj::Type limited_type(S s, unsigned weight) {
    return {s->name, s, weight, sizeof(T), false, [s](int fill, bool later) -> obj::P {
                return std::make_unique<ObjT<T>>(s, fill, [s, fill, later](void *m) {
                    if (later && !s->n) return new (m) T;
                    if constexpr (requires(T &t) { t.limit(s->n); })
                        if (later) {
                            auto p = fill & 1 ? new (m) T : new (m) T(3 * (s->n % 1000) + fill);
                            p->limit(s->n);
                            return p;
                        }
                    return new (m) T(s->n);
                });
            }};
}
}  // namespace acc
