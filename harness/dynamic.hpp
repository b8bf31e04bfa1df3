// Containers composed at run time of the library's types, the way a user composes them in source
#pragma once
#include "core.hpp"

namespace dynamic {
using namespace core;
// Like any container of the library, but with its parts in a vector
class Container : public ssz::Container {
    friend class DynObj;
    std::vector<P> parts_;
    std::vector<std::string> names_;
    u64 size_;

    std::vector<ssz::Container *> parts() {
        std::vector<ssz::Container *> r;
        for (auto &p : parts_) r.push_back(&p->base());
        return r;
    }
    std::vector<const ssz::Container *> parts() const {
        std::vector<const ssz::Container *> r;
        for (auto &p : parts_) r.push_back(&static_cast<const Obj &>(*p).base());
        return r;
    }

   public:
    Container(std::vector<P> parts, std::vector<std::string> names, u64 size) : parts_{std::move(parts)}, names_{std::move(names)}, size_{size} {}
    std::size_t get_ssz_size() const override { return size_; }
    std::vector<u8> serialize() const override { return serialize_(parts()); }
    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override { return deserialize_(it, end, parts()); }
    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_(parts()); }
    YAML::Node encode() const override {
        std::vector<ssz::ConstPart> r;
        for (std::size_t i = 0; i < parts_.size(); ++i) r.push_back({names_[i], &static_cast<const Obj &>(*parts_[i]).base()});
        return encode_(r);
    }
    bool decode(const YAML::Node &node) override {
        std::vector<ssz::Part> r;
        for (std::size_t i = 0; i < parts_.size(); ++i) r.push_back({names_[i], &parts_[i]->base()});
        return decode_(node, r);
    }
};
class DynObj : public Obj {
    S schema_;
    Container c_;
    static std::vector<std::string> names(const S &s) {
        std::vector<std::string> r;
        for (auto &f : s->fields) r.push_back(f.first);
        return r;
    }
    const Container &of(const Obj &o) const { return static_cast<const DynObj &>(o).c_; }

   public:
    DynObj(S s, std::vector<P> parts) : schema_{s}, c_{std::move(parts), names(s), fixed_size(s)} {}
    ssz::Container &base() override { return c_; }
    const ssz::Container &base() const override { return c_; }
    P copy() const override {
        std::vector<P> r;
        for (auto &p : c_.parts_) r.push_back(p->copy());
        return std::make_unique<DynObj>(schema_, std::move(r));
    }
    P move() override {
        std::vector<P> r;
        for (auto &p : c_.parts_) r.push_back(p->move());
        return std::make_unique<DynObj>(schema_, std::move(r));
    }
    void assign(const Obj &o) override {
        for (std::size_t i = 0; i < c_.parts_.size(); ++i) c_.parts_[i]->assign(*of(o).parts_[i]);
    }
    void assign_move(Obj &o) override {
        for (std::size_t i = 0; i < c_.parts_.size(); ++i) c_.parts_[i]->assign_move(*of(o).parts_[i]);
    }
    bool eq(const Obj &o) const override {
        for (std::size_t i = 0; i < c_.parts_.size(); ++i)
            if (!c_.parts_[i]->eq(*of(o).parts_[i])) return false;
        return true;
    }
    bool ne(const Obj &o) const override { return !eq(o); }
    void put(const Val &v) override {
        for (std::size_t i = 0; i < c_.parts_.size(); ++i) c_.parts_[i]->put(v.kids[i]);
    }
    Val take() const override {
        Val v;
        for (auto &p : c_.parts_) v.kids.push_back(p->take());
        return v;
    }
    std::function<Val()> watch() const override {
        return [this] { return take(); };
    }
    std::function<void(const Val &)> hold() override {
        std::vector<std::function<void(const Val &)>> h;
        for (auto &p : c_.parts_) h.push_back(p->hold());
        return [h](const Val &v) {
            for (std::size_t i = 0; i < h.size(); ++i) h[i](v.kids[i]);
        };
    }
    bool relimit(u64 other) override {
        bool any = false;
        for (auto &p : c_.parts_) any |= p->relimit(other);
        return any;
    }
    void load_as(const YAML::Node &n) override {
        if (!c_.decode(n)) pbt::fail("a YAML node of the right form was refused");
    }
    u64 static_size() const override { return fixed_size(schema_); }
};

// names of fields, some of which are parts of others, or differ in case or in their last characters only
inline std::vector<std::string> field_names(Ctx &c, std::size_t n) {
    std::vector<std::string> r;
    const auto style = c.upto(5);
    const std::string stem = style == 2 ? std::string(20 + c.upto(120), 'x') : style == 3 ? "source" : "field_";
    for (std::size_t k = 0; k < n; ++k) {
        auto i = std::to_string(k);
        switch (style) {
            case 0: r.push_back(stem + i); break;
            case 1: r.push_back((k % 2 ? "Root" : "root") + (k < 2 ? "" : std::to_string(k / 2))); break;
            case 2: r.push_back(stem + i); break;
            case 3: {
                r.push_back(stem);
                for (std::size_t j = 0; j < k; ++j) r.back() += j % 2 ? "_s" : "e";
                if (k > 30) r.back() = stem + "_" + i;
                break;
            }
            case 4: r.push_back(std::string(1, char('z' - k % 26)) + (k < 26 ? "" : std::to_string(k / 26))); break;
            default: r.push_back("f" + std::to_string(n - k) + "_" + std::string(1, char('A' + k % 26)));
        }
    }
    return r;
}
inline Type container_of(std::vector<Type> types, std::vector<std::string> names) {
    std::vector<std::pair<std::string, S>> fields;
    std::string name = "{";
    std::size_t k = 0;
    for (auto &t : types) {
        fields.push_back({names[k++], t.schema});
        if (name.size() < 160) name += (k > 1 ? ", " : "") + t.name;
    }
    auto s = container(name + "}", fields);
    Type r;
    r.name = s->name;
    r.schema = s;
    r.weight = 6;
    r.size = 0;
    for (auto &t : types) r.size += t.size;
    r.opaque = false;
    r.make_in = [s, types](int fill, bool braces) -> P {
        std::vector<P> parts;
        for (auto &t : types) parts.push_back(t.make_in(fill, braces));
        return std::make_unique<DynObj>(s, std::move(parts));
    };
    return r;
}
inline Type random_container(Ctx &c, int depth) {
    auto n = c.chance(1, 12) ? 1 + c.upto(c.chance(1, 4) ? 149 : 39) : 1 + c.upto(7);
    std::vector<Type> types;
    auto kind = c.upto(4);
    for (u64 i = 0; i < n; ++i) {
        auto x = c.upto(9);
        if (x == 9 && depth < 3 && n < 12) types.push_back(random_container(c, depth + 1));
        else if (x == 8) types.push_back(pick_type(c, consensus_types()));
        else {
            auto t = pick_type(c, building_types());
            // some containers have parts of only one kind
            if (kind == 0) for (int k = 0; k < 30 && !fixed_size(t.schema); ++k) t = pick_type(c, building_types());
            if (kind == 1) for (int k = 0; k < 30 && fixed_size(t.schema); ++k) t = pick_type(c, building_types());
            types.push_back(t);
        }
    }
    auto names = field_names(c, types.size());
    return container_of(types, names);
}
// hundreds of fields, of small types
inline Type wide_container(Ctx &c) {
    static const std::vector<Type> small = [] {
        std::vector<Type> r;
        for (auto &t : building_types())
            if (weight(t.schema) <= 40 && t.size <= 200) r.push_back(t);
        return r;
    }();
    auto n = 100 + c.upto(c.chance(1, 3) ? 1200 : 300);
    std::vector<Type> few;
    for (u64 k = 0, m = 1 + c.upto(7); k < m; ++k) few.push_back(c.pick(small));
    std::vector<Type> types;
    u64 s = c.seed();
    for (u64 k = 0; k < n; ++k) types.push_back(few[pbt::splitmix(s) % few.size()]);
    auto names = field_names(c, types.size());
    return container_of(types, names);
}
// a fixed part of tens or hundreds of thousands of bytes, and parts of variable size before, after and in it
inline Type long_fixed_container(Ctx &c) {
    static const std::vector<Type> large = [] {
        std::vector<Type> r;
        for (auto *types : {&building_types(), &consensus_types()})
            for (auto &t : *types)
                if (auto n = fixed_size(t.schema); n >= 250 && n <= 5000) r.push_back(t);
        return r;
    }();
    static const std::vector<Type> small = [] {
        std::vector<Type> r;
        for (auto &t : building_types())
            if (!fixed_size(t.schema) && weight(t.schema) <= 40 && t.size <= 200) r.push_back(t);
        return r;
    }();
    auto one = c.pick(large), two = c.pick(large);
    const u64 want = (u64(1) << 15) + c.upto(c.chance(1, 3) ? 200000 : 60000);
    std::vector<Type> types;
    for (u64 size = 0; size < want && types.size() < 600; size += fixed_size(types.back().schema)) types.push_back(c.chance(1, 4) ? two : one);
    for (u64 k = 0, n = c.upto(4); k < n; ++k) types.insert(c.coin() ? types.end() : types.begin() + c.upto(types.size()), c.pick(small));
    auto names = field_names(c, types.size());
    return container_of(types, names);
}
inline const Type &any_container(Ctx &c) {
    static Type t;
    t = c.chance(1, 300) ? long_fixed_container(c) : c.chance(1, 100) ? wide_container(c) : random_container(c, 0);
    return t;
}
}  // namespace dynamic
