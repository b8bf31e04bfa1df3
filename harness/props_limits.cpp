// Lists and bitlists whose limits change: set to others, taken away, brought along by assignments (C14, C19)
#include "access.hpp"
#include "core.hpp"

namespace {
using namespace core;

constexpr u64 NONE = 0;
bool fits(u64 n, u64 limit) { return limit == NONE || n <= limit; }
template <class T>
struct Subject {
    std::optional<T> o;
    u64 limit = 0;
    Val v;
    u64 size() const { return v.kids.size() + v.b.size(); }
};
using Schemas = S (*)(u64);
template <class T>
void changing(Ctx &c, Schemas with) {
    const S any = with(NONE);
    const u64 per_chunk = any->k == K::Bitlist ? 256 : basic(any->elem) ? 32 / fixed_size(any->elem) : 1;
    // limits and lengths that lie close together
    const u64 around = 1 + c.upto(c.coin() ? 9 : any->k == K::Bitlist ? 600 : 70);
    auto a_limit = [&]() -> u64 {
        switch (c.upto(5)) {
            case 0: return NONE;
            case 1: return c.word() >> 8;
            case 2: return around * per_chunk;
            default: return c.upto(2 * around);
        }
    };
    auto a_value = [&](u64 near) {
        Val v = default_value(any);
        u64 n = c.coin() ? c.upto(around) : near < 2000 ? near + c.upto(2) - std::min<u64>(near, c.upto(1)) : c.upto(2 * around);
        set_length(c, any, v, {}, 0, n);
        return v;
    };
    std::string log = any->name + ":";
    Subject<T> s[2];
    for (auto &x : s) {
        x.limit = a_limit();
        if (x.limit == NONE && c.coin()) x.o.emplace();
        else x.o.emplace(x.limit);
        log += " limit " + std::to_string(x.limit) + ";";
    }
    auto verify = [&](Subject<T> &x) {
        const T &o = *x.o;
        same_value(Type{any->name, any, 1, sizeof(T), false, nullptr}, acc::take(o), x.v, "value after" + log);
        check(o.serialize() == encode(any, x.v), "encoding after" + log);
        const u64 chunks = (x.size() + per_chunk - 1) / per_chunk, room = x.limit / per_chunk + (x.limit % per_chunk != 0);
        bool refused = false;
        ssz::Chunk r{};
        try {
            r = o.hash_tree_root();
        } catch (const std::exception &) {
            refused = true;
        }
        if (x.limit != NONE && chunks > room) return check(refused, "merkleizing " + std::to_string(x.size()) + " elements is not refused after" + log);
        check(!refused, "merkleizing is refused after" + log);
        auto want = root(with(x.limit), x.v);
        check(Bytes(r.begin(), r.end()) == Bytes(want.begin(), want.end()), "root after" + log + " is " + hex(r));
    };
    auto steps = 3 + c.upto(9);
    for (u64 k = 0; k < steps; ++k) {
        auto i = c.upto(1);
        auto &x = s[i], &y = s[1 - i];
        bool both = false;
        log += i ? " b" : " a";
        switch (c.upto(8)) {
            case 0:
            case 1:
                if constexpr (requires(T &t) { t.limit(u64(1)); }) {
                    x.limit = a_limit();
                    x.o->limit(x.limit);
                    log += " gets the limit " + std::to_string(x.limit) + ";";
                    c.label(x.limit == NONE ? "limit taken away" : "limit set");
                    break;
                }
                [[fallthrough]];
            case 2:
            case 3: {
                auto v = a_value(x.limit);
                auto e = encode(any, v);
                auto n = v.kids.size() + v.b.size();
                log += " is loaded with " + std::to_string(n) + " elements;";
                bool got = x.o->deserialize(e.cbegin(), e.cend());
                check(got == fits(n, x.limit), std::to_string(n) + " elements are " + (got ? "accepted" : "refused") + " after" + log);
                x.v = got ? v : acc::take(*x.o);
                c.label(got ? "loaded" : "not loaded");
                break;
            }
            case 4: {
                auto v = a_value(x.limit);
                auto n = v.kids.size() + v.b.size();
                log += " is read from YAML with " + std::to_string(n) + " elements;";
                bool got = false;
                try {
                    got = x.o->decode(YAML::Load(yaml_plain(any, v)));
                } catch (const std::exception &) {
                }
                check(got == fits(n, x.limit), std::to_string(n) + " elements are " + (got ? "accepted" : "refused") + " from YAML after" + log);
                x.v = got ? v : acc::take(*x.o);
                break;
            }
            case 5:
                *x.o = static_cast<const T &>(*y.o);
                x.limit = y.limit, x.v = y.v, both = true;
                log += " is assigned the other;";
                c.label("assigned");
                check(*x.o == *y.o && !(*x.o != *y.o), "they are not equal after" + log);
                break;
            case 6:
                *x.o = std::move(*y.o);
                x.limit = y.limit, x.v = y.v, both = true;
                y.limit = a_limit();
                *y.o = T(y.limit);
                y.v = default_value(any);
                log += " is assigned the other, which moves, and is made again with the limit " + std::to_string(y.limit) + ";";
                c.label("moved");
                break;
            case 7:
                std::swap(*x.o, *y.o);
                std::swap(x.limit, y.limit), std::swap(x.v, y.v), both = true;
                log += " is swapped;";
                c.label("swapped");
                break;
            default: {
                std::optional<T> z{static_cast<const T &>(*x.o)};
                if (c.coin()) x.o.emplace(static_cast<const T &>(*z));
                else x.o.emplace(std::move(*z));
                log += " is copied;";
                c.label("copied");
            }
        }
        verify(x);
        if (both) verify(y);
        if (x.limit == y.limit) check((*x.o == *y.o) == (x.v == y.v), "equality after" + log);
        else if (x.v != y.v) check(!(*x.o == *y.o), "objects of other values are equal after" + log);
    }
    c.say(log);
    c.nontrivial();
}
void limits_that_change(Ctx &c) {
    using namespace eth;
    switch (c.upto(8)) {
        case 0:
        case 1: return changing<Bitlist>(c, [](u64 n) { return bitlist(n); });
        case 2: return changing<ListFixedSizedParts<Slot>>(c, [](u64 n) { return list(uint64(), n); });
        case 3: return changing<ListFixedSizedParts<Boolean>>(c, [](u64 n) { return list(boolean(), n); });
        case 4: return changing<ListFixedSizedParts<Bytes32>>(c, [](u64 n) { return list(bytes(32), n); });
        case 5: return changing<ListFixedSizedParts<Checkpoint>>(c, [](u64 n) { return list(spec::Checkpoint(), n); });
        case 6: return changing<ListVariableSizedParts<Bitlist>>(c, [](u64 n) { return list(bitlist(0), n); });
        case 7: return changing<ListVariableSizedParts<ListFixedSizedParts<Slot>>>(c, [](u64 n) { return list(list(uint64(), 0), n); });
        default: return changing<ListVariableSizedParts<PendingAttestation>>(c, [](u64 n) { return list(spec::PendingAttestation(), n); });
    }
}
}  // namespace
PROPERTY("C14", "limits that change", 20) { limits_that_change(c); }
PROPERTY("C19", "limits that change", 30) { limits_that_change(c); }
