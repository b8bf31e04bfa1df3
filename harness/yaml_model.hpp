// YAML form of model values: text in many styles to decode, and comparison of encoded nodes
#pragma once
#include "model.hpp"
#include "yaml-cpp/yaml.h"

namespace model {
struct YamlStyle {
    bool flow = false, quotes = false, upper = false, shuffle = false, comments = false;
};
inline YamlStyle gen_style(Ctx &c) {
    YamlStyle y;
    y.flow = c.coin();
    y.quotes = c.coin();
    y.upper = c.coin();
    y.shuffle = c.coin();
    y.comments = c.chance(1, 4);
    return y;
}
inline std::string yaml_scalar(Ctx &c, const S &s, const Val &v, const YamlStyle &y) {
    auto t = scalar_text(s, v);
    if (y.upper && t.starts_with("0x")) {
        u64 r = c.seed();
        for (std::size_t i = 2; i < t.size(); ++i)
            if (pbt::splitmix(r) & 1) t[i] = char(std::toupper(t[i]));
    }
    if (y.quotes) switch (c.upto(2)) {
            case 1: return "'" + t + "'";
            case 2: return "\"" + t + "\"";
        }
    return t;
}
inline std::vector<std::size_t> yaml_order(Ctx &c, std::size_t n, bool shuffle) {
    std::vector<std::size_t> o(n);
    std::iota(o.begin(), o.end(), 0);
    if (shuffle)
        for (std::size_t i = n; i > 1; --i) std::swap(o[i - 1], o[c.below(i)]);
    return o;
}
inline void yaml_flow(Ctx &c, const S &s, const Val &v, const YamlStyle &y, std::string &o) {
    if (is_scalar(s)) o += yaml_scalar(c, s, v, y);
    else if (s->k == K::Container) {
        o += "{";
        bool first = true;
        for (auto i : yaml_order(c, v.kids.size(), y.shuffle)) {
            if (!first) o += ", ";
            first = false;
            o += s->fields[i].first + ": ";
            yaml_flow(c, s->fields[i].second, v.kids[i], y, o);
        }
        o += "}";
    } else {
        o += "[";
        for (std::size_t i = 0; i < v.kids.size(); ++i) {
            if (i) o += ", ";
            yaml_flow(c, s->elem, v.kids[i], y, o);
        }
        o += "]";
    }
}
// as a block at the given indentation, starting on the current line
inline void yaml_block(Ctx &c, const S &s, const Val &v, const YamlStyle &y, std::string &o, int indent) {
    auto nl = [&](std::string &out) {
        out += y.comments && c.chance(1, 8) ? " # a comment\n" : "\n";
        out += std::string(indent, ' ');
    };
    if (is_scalar(s)) {
        o += yaml_scalar(c, s, v, y);
        return;
    }
    if (v.kids.empty() || (y.flow && c.chance(1, 3))) {
        yaml_flow(c, s, v, y, o);
        return;
    }
    bool first = true;
    if (s->k == K::Container)
        for (auto i : yaml_order(c, v.kids.size(), y.shuffle)) {
            if (!first) nl(o);
            first = false;
            auto &f = s->fields[i];
            o += f.first + ":";
            if (is_scalar(f.second) || v.kids[i].kids.empty()) o += " ";
            else o += "\n" + std::string(indent + 2, ' ');
            yaml_block(c, f.second, v.kids[i], y, o, indent + 2);
        }
    else
        for (auto &k : v.kids) {
            if (!first) nl(o);
            first = false;
            o += "- ";
            yaml_block(c, s->elem, k, y, o, indent + 2);
        }
}
inline std::string yaml_text(Ctx &c, const S &s, const Val &v, const YamlStyle &y) {
    std::string o;
    if (y.flow && !y.comments) yaml_flow(c, s, v, y, o);
    else yaml_block(c, s, v, y, o, 0);
    return o + "\n";
}
inline std::string yaml_plain(const S &s, const Val &v) {
    auto q = Ctx::quiet(0);
    return yaml_text(q, s, v, YamlStyle{});
}
// How a node differs from the consensus form of a value; empty if it does not
inline std::string yaml_difference(const S &s, const Val &v, const YAML::Node &n, const std::string &path = "") {
    if (is_scalar(s)) {
        if (!n.IsDefined() || !n.IsScalar()) return path + ": not a scalar";
        auto want = scalar_text(s, v);
        if (n.Scalar() != want) return path + ": \"" + n.Scalar().substr(0, 200) + "\" instead of \"" + want.substr(0, 200) + "\"";
        return "";
    }
    if (s->k == K::Container) {
        if (!n.IsDefined() || !n.IsMap()) return path + ": not a map";
        if (n.size() != s->fields.size()) return path + ": " + std::to_string(n.size()) + " fields instead of " + std::to_string(s->fields.size());
        std::size_t i = 0;
        for (auto it = n.begin(); it != n.end(); ++it, ++i) {
            if (it->first.Scalar() != s->fields[i].first)
                return path + ": field " + std::to_string(i) + " is called " + it->first.Scalar() + " instead of " + s->fields[i].first;
            auto d = yaml_difference(s->fields[i].second, v.kids[i], it->second, path + "/" + s->fields[i].first);
            if (!d.empty()) return d;
        }
        return "";
    }
    if (!n.IsDefined() || !n.IsSequence()) return path + ": not a sequence";
    if (n.size() != v.kids.size()) return path + ": " + std::to_string(n.size()) + " elements instead of " + std::to_string(v.kids.size());
    std::size_t i = 0;
    for (auto it = n.begin(); it != n.end(); ++it, ++i) {
        auto d = yaml_difference(s->elem, v.kids[i], *it, path + "[" + std::to_string(i) + "]");
        if (!d.empty()) return d;
    }
    return "";
}
}  // namespace model
