// Library objects behind one interface, so that a check is written once for all types
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "model.hpp"
#include "ssz/ssz_container.hpp"

namespace obj {
using namespace model;
struct Obj;
using P = std::unique_ptr<Obj>;
struct Obj {
    virtual ~Obj() = default;
    virtual ssz::Container &base() = 0;
    virtual const ssz::Container &base() const = 0;
    virtual P copy() const = 0;               // copy construction
    virtual P move() = 0;                     // move construction
    virtual void assign(const Obj &) = 0;     // copy assignment
    virtual void assign_move(Obj &) = 0;      // move assignment
    virtual bool eq(const Obj &) const = 0;   // a == b
    virtual bool ne(const Obj &) const = 0;   // a != b
    virtual void put(const Val &) = 0;        // set through the public members
    virtual Val take() const = 0;             // read through the public members and accessors
    virtual std::function<Val()> watch() const = 0;  // calls the accessors now, reads what they returned later
    // what sets a value of the same shape through references and iterators taken now, calling nothing of the object itself
    virtual std::function<void(const Val &)> hold() = 0;
    virtual bool relimit(u64 other) = 0;  // another limit, a root, and the limit it had; false if it has none to set
    virtual void load_as(const YAML::Node &) = 0;  // node.as<T>()
    virtual u64 static_size() const = 0;      // T::ssz_size, 0 if there is none

    Bytes serialize() const { return base().serialize(); }
    bool deserialize(const Bytes &b) { return base().deserialize(b.begin(), b.end()); }
    Bytes root() const {
        auto r = base().hash_tree_root();
        return Bytes(r.begin(), r.end());
    }
};
struct Type {
    std::string name;
    S schema;
    unsigned weight;      // how often it is chosen
    std::size_t size;     // of the object
    bool opaque;          // its fields cannot be set one by one
    std::function<P(int fill, bool braces)> make_in;  // in memory filled with a pattern; T or T{}
    P make() const { return make_in(0xcb, false); }
};
const std::vector<Type> &consensus_types();
const std::vector<Type> &state_type();
const std::vector<Type> &building_types();
// a type, more often the ones with a higher weight
inline const Type &pick_type(Ctx &c, const std::vector<Type> &types) {
    u64 total = 0;
    for (auto &t : types) total += t.weight;
    auto x = c.below(total);
    for (auto &t : types) {
        if (x < t.weight) return t;
        x -= t.weight;
    }
    return types.front();
}
inline u64 elements_for(const Type &t) { return t.weight <= 2 ? 120 : 60; }
inline Bytes to_bytes(const ref::Digest &d) { return Bytes(d.begin(), d.end()); }
}  // namespace obj
