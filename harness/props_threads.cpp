// C03: calls that overlap in time, in threads
#include <atomic>
#include <thread>

#include "core.hpp"
#include "hash_common.hpp"
#include "ssz/hashtree.hpp"
#include "values.hpp"

using namespace core;

namespace {
struct Item {
    const Type *t;
    Val v;
    Bytes encoding, root;
    std::string yaml;
    P object;
};
Item item(Ctx &c, const Type &t) {
    Item i{&t, gen(c, t.schema, 30), {}, {}, {}, nullptr};
    i.encoding = encode(t.schema, i.v);
    i.root = to_bytes(model::root(t.schema, i.v));
    i.yaml = yaml_plain(t.schema, i.v);
    i.object = make(c, t);
    if (c.coin()) i.object->put(i.v);
    else check(i.object->deserialize(i.encoding), "valid encoding of " + t.name + " refused");
    return i;
}
struct Job {
    u64 seed;
    std::vector<Item> own;
    std::string error;
};
struct Tree {
    std::unique_ptr<const ssz::HashTree> tree;
    std::vector<ssz::Chunk> all;  // as of another tree of the same input
};
struct Shared {
    std::vector<Item> items;
    std::vector<Tree> trees;
};
// Trees that threads read without having read them before
Tree a_tree(Ctx &c, u64 n) {
    std::vector<ssz::Chunk> chunks(n);
    c.fill(chunks[0].data(), 32 * n);
    std::vector<ref::Digest> leaves(n);
    for (u64 i = 0; i < n; ++i) std::memcpy(leaves[i].data(), chunks[i].data(), 32);
    u64 limit = c.coin() ? 0 : n + c.upto(100000);
    auto want = ref::merkleize(leaves, limit);
    ssz::HashTree a(chunks, limit), b(chunks, limit);
    if (c.coin()) {
        a.mix_in(n);
        b.mix_in(n);
        want = ref::mix_in_length(want, n);
    }
    Tree t{std::make_unique<const ssz::HashTree>(std::move(a)), b.hash_tree()};
    if (t.all.empty() || std::memcmp(t.all.back().data(), want.data(), 32)) fail("root of a hash tree of " + std::to_string(n) + " chunks");
    return t;
}
// What is asked of validators and attestations, of objects that other threads ask as well
void ask(Ctx &c, const Item &i) {
    auto expect = [](bool ok, const std::string &what) {
        if (!ok) throw pbt::Fail(what);
    };
    auto *b = &static_cast<const Obj &>(*i.object).base();
    auto &k = i.v.kids;
    if (auto x = dynamic_cast<const eth::Validator *>(b)) {
        u64 e = c.coin() ? c.pick({k[4].u, k[5].u, k[6].u, k[7].u}) + c.upto(2) - 1 : c.seed();
        expect(x->is_active(eth::Epoch(e)) == (k[5].u <= e && e < k[6].u), "activity of a shared validator");
        expect(x->is_slashable(eth::Epoch(e)) == (!k[3].u && k[5].u <= e && e < k[7].u), "whether a shared validator is slashable");
    } else if (auto x = dynamic_cast<const eth::AttestationData *>(b)) {
        expect(!x->is_slashable(*x), "a shared attestation is slashable with itself");
    } else if (auto x = dynamic_cast<const eth::IndexedAttestation *>(b)) {
        static const eth::BeaconState state;
        bool ordered = !k[0].kids.empty();
        for (std::size_t j = 1; j < k[0].kids.size(); ++j) ordered &= k[0].kids[j - 1].u < k[0].kids[j].u;
        expect(x->is_valid(state) == ordered, "validity of a shared indexed attestation");
    }
}
// one thread's calls; nothing of the generator's shared state is used
void one(Ctx &c, const Shared &all, Job &job) {
    auto &shared = all.items;
    auto expect = [](bool ok, const std::string &what) {
        if (!ok) throw pbt::Fail(what);
    };
    bool common = c.chance(2, 3) && !shared.empty();
    if (c.chance(1, 3)) {  // hashing
        auto &e = c.pick(hc::engines());
        auto n = hc::gen_blocks(c, 40);
        Bytes in(64 * n), out(32 * n);
        if (n) hc::gen_input(c, in.data(), n);
        e.hasher.hash_64b_blocks(out.data(), in.data(), n);
        hc::compare(e.name + " while other threads call the library", out.data(), in.data(), n);
        return;
    }
    if (!all.trees.empty() && c.chance(1, 6)) {  // trees that other threads read
        auto &t = all.trees[c.below(all.trees.size())];
        if (c.coin()) expect(t.tree->hash_tree_root() == t.all.back(), "root of a shared hash tree");
        else expect(t.tree->hash_tree() == t.all, "a shared hash tree");
        return;
    }
    if (c.chance(1, 6)) {  // trees
        auto n = 1 + c.upto(c.coin() ? 9 : 80);
        std::vector<ssz::Chunk> chunks(n);
        c.fill(chunks[0].data(), 32 * n);
        std::vector<ref::Digest> leaves(n);
        for (u64 i = 0; i < n; ++i) std::memcpy(leaves[i].data(), chunks[i].data(), 32);
        u64 limit = c.coin() ? 0 : n + c.upto(100000);
        ssz::HashTree t(chunks, limit);
        t.mix_in(n);
        auto want = ref::mix_in_length(ref::merkleize(leaves, limit), n);
        expect(!std::memcmp(t.hash_tree_root().data(), want.data(), 32), "root of a hash tree");
        return;
    }
    if (common) {  // read-only calls on an object that other threads read
        auto &i = shared[c.below(shared.size())];
        auto &o = static_cast<const Obj &>(*i.object);
        switch (c.upto(6)) {
            case 6: ask(c, i); break;
            case 0: expect(o.serialize() == i.encoding, "encoding of a shared " + i.t->name); break;
            case 1: expect(o.root() == i.root, "root of a shared " + i.t->name); break;
            case 2: expect(o.take() == i.v, "value of a shared " + i.t->name); break;
            case 3: expect(o.eq(o), "a shared " + i.t->name + " does not equal itself"); break;
            case 4: {
                auto d = yaml_difference(i.t->schema, i.v, o.base().encode());
                expect(d.empty(), "YAML form of a shared " + i.t->name + d);
                break;
            }
            default: {
                auto x = o.copy();
                expect(x->serialize() == i.encoding, "encoding of a copy of a shared " + i.t->name);
            }
        }
        return;
    }
    auto &i = job.own[c.below(job.own.size())];
    auto &o = *i.object;
    switch (c.upto(6)) {
        case 0: expect(o.serialize() == i.encoding, "encoding of a " + i.t->name); break;
        case 1: expect(o.root() == i.root, "root of a " + i.t->name); break;
        case 2: {
            auto x = i.t->make();
            expect(x->deserialize(i.encoding) && x->take() == i.v, "decoding of a " + i.t->name);
            expect(x->eq(o), "comparison of a " + i.t->name);
            break;
        }
        case 3: {
            std::string how;
            auto b = damaged(c, *i.t, i.v, how);
            auto x = i.t->make();
            bool got = x->deserialize(b);
            expect(got == bool(decode(i.t->schema, b)), "a damaged encoding of a " + i.t->name + (got ? " accepted" : " refused"));
            break;
        }
        case 4: {
            auto x = i.t->make();
            expect(x->base().decode(YAML::Load(i.yaml)) && x->take() == i.v, "YAML decoding of a " + i.t->name);
            break;
        }
        case 5: {
            auto d = yaml_difference(i.t->schema, i.v, o.base().encode());
            expect(d.empty(), "YAML form of a " + i.t->name + d);
            break;
        }
        default: {  // changes of the own object
            i.v = gen(c, i.t->schema, 12);
            i.encoding = encode(i.t->schema, i.v);
            i.root = to_bytes(model::root(i.t->schema, i.v));
            i.yaml = yaml_plain(i.t->schema, i.v);
            expect(o.deserialize(i.encoding) && o.root() == i.root, "root of a " + i.t->name + " after loading it");
        }
    }
}
// yaml-cpp initializes tables when they are first used, behind guards that the race detector does not see: have it
// done before there are threads
void warm_up() {
    for (auto *types : {&consensus_types(), &building_types()})
        for (auto &t : *types) {
            auto q = Ctx::quiet(pbt::fnv(t.name));
            for (int k = 0; k < 3; ++k) {
                auto o = t.make();
                try {
                    o->base().decode(YAML::Load(k == 2 ? "[0x1z, {a: no, true, 3.5, -1" : yaml_text(q, t.schema, gen(q, t.schema, 10), gen_style(q))));
                    (void)YAML::Dump(o->base().encode());
                } catch (const std::exception &) {
                }
            }
        }
}
void threads(Ctx &c, unsigned calls) {
    static const bool once = (warm_up(), true);
    (void)once;
    auto pick = [&]() -> const Type & { return c.coin() ? any_type(c, true) : any_type(c, false); };
    auto T = 2 + c.upto(3);
    Shared all;
    auto &shared = all.items;
    for (u64 k = 0, n = c.upto(3); k < n; ++k) shared.push_back(item(c, pick()));
    if (c.chance(1, 4)) {
        for (auto &t : consensus_types())
            if ((t.name == "Validator" || t.name == "AttestationData" || t.name == "IndexedAttestation") && c.coin()) shared.push_back(item(c, t));
    }
    for (u64 k = 0, n = c.upto(2); k < n; ++k) all.trees.push_back(a_tree(c, 1 + c.upto(c.coin() ? 9 : 80)));
    std::vector<Job> jobs(T);
    for (auto &j : jobs) {
        j.seed = c.seed();
        for (u64 k = 0, n = 1 + c.upto(1); k < n; ++k) j.own.push_back(item(c, pick()));
    }
    std::string names;
    for (auto &i : shared) names += " " + i.t->name;
    c.say(std::to_string(T) + " threads, " + std::to_string(calls) + " calls each, shared objects:" + (names.empty() ? " none" : names));
    c.label(std::to_string(T) + " threads, " + std::to_string(shared.size()) + " shared objects");
    c.nontrivial();
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> th;
    for (auto &j : jobs)
        th.emplace_back([&all, &j, &ready, T, calls] {
            try {
                auto q = Ctx::quiet(j.seed);
                ++ready;
                while (ready < T) std::this_thread::yield();
                for (unsigned k = 0; k < calls; ++k) one(q, all, j);
            } catch (const std::exception &e) {
                j.error = e.what();
                if (j.error.empty()) j.error = "exception";
            }
        });
    for (auto &t : th) t.join();
    for (auto &j : jobs)
        if (!j.error.empty()) fail("while other threads call the library: " + j.error);
    for (auto &i : shared) same_value(*i.t, i.object->take(), i.v, "shared object after read-only calls");
}
// More threads at once than anyone provides for
void many_threads(Ctx &c) {
    static const bool once = (warm_up(), true);
    (void)once;
    const u64 T = c.chance(1, 3) ? 33 + c.upto(40) : 65 + c.upto(c.coin() ? 80 : 300);
    const unsigned calls = 1 + unsigned(c.upto(3));
    const auto &t = any_type(c, false);
    Shared all;
    all.items.push_back(item(c, t));
    all.trees.push_back(a_tree(c, 1 + c.upto(40)));
    std::vector<Job> jobs(T);
    for (auto &j : jobs) {
        j.seed = c.seed();
        auto q = Ctx::quiet(j.seed);
        j.own.push_back(item(q, t));
    }
    c.say(std::to_string(T) + " threads, " + std::to_string(calls) + " calls each, objects: " + t.name);
    c.label("more than " + std::to_string(T / 64 * 64) + " threads");
    c.nontrivial();
    std::atomic<unsigned> ready{0};
    auto work = [&](Job &j) {
        try {
            auto q = Ctx::quiet(j.seed + 1);
            // all of them have called the library before any goes on
            if (j.own[0].object->root() != j.own[0].root) throw pbt::Fail("root of a " + t.name);
            ++ready;
            while (ready < T) std::this_thread::yield();
            for (unsigned k = 0; k < calls; ++k) one(q, all, j);
        } catch (const std::exception &e) {
            j.error = e.what();
            if (j.error.empty()) j.error = "exception";
            ++ready;
        }
    };
    std::vector<std::thread> th;
    for (u64 k = 1; k < T; ++k) th.emplace_back([&work, &j = jobs[k]] { work(j); });
    work(jobs[0]);
    for (auto &x : th) x.join();
    for (auto &j : jobs)
        if (!j.error.empty()) fail("while " + std::to_string(T) + " threads call the library: " + j.error);
}
// Long inputs, for what is done for these only; every result is the one it produces alone
void large_calls(Ctx &c, unsigned calls) {
    static const bool once = (warm_up(), true);
    (void)once;
    const auto T = 2 + c.upto(2), log = 6 + c.upto(9);
    const bool alike = c.coin();
    struct Todo {
        int kind;
        Bytes bytes;
        std::vector<ssz::Chunk> chunks;
        const Type *t = nullptr;
        u64 limit = 0, mixed = 0;
        std::vector<ssz::Chunk> tree;
        Bytes root;
        P object;
        std::string error;
    };
    std::vector<Todo> todo(T);
    auto compute = [](const Todo &d) {
        auto t = d.kind ? ssz::HashTree(d.bytes, d.limit) : ssz::HashTree(d.chunks, d.limit);
        if (d.mixed) t.mix_in(d.mixed);
        return t.hash_tree();
    };
    std::string what;
    for (auto &d : todo) {
        d.kind = &d != &todo[0] && alike ? todo[0].kind : int(c.upto(2));
        if (d.kind == 2) {
            std::vector<const Type *> some;
            for (auto &t : consensus_types()) some.push_back(&t);
            for (auto &t : building_types())
                if (t.schema->k == K::List) some.push_back(&t);
            d.t = &d != &todo[0] && todo[0].t && alike ? todo[0].t : c.pick(some);
            auto v = gen(c, d.t->schema, 20);
            make_long(c, d.t->schema, v, u64(1) << std::min<u64>(log, 13));
            d.bytes = encode(d.t->schema, v);
            d.object = make(c, *d.t);
            d.object->put(v);
            d.root = d.object->root();
            what += d.t->name + " of " + std::to_string(d.bytes.size()) + " bytes, ";
            continue;
        }
        u64 n = (u64(1) << log) + c.upto((u64(1) << log) - 1);
        u64 s = c.seed();
        if (d.kind) {
            d.bytes.resize(32 * n - c.upto(31));
            for (auto &b : d.bytes) b = u8(pbt::splitmix(s));
        } else {
            d.chunks.resize(n);
            for (auto &k : d.chunks)
                for (auto &b : k) b = u8(pbt::splitmix(s));
        }
        if (c.coin()) d.limit = n + c.upto(u64(1) << 40);
        if (c.coin()) d.mixed = n;
        d.tree = compute(d);
        what += std::to_string(n) + (d.kind ? " packed chunks, " : " chunks, ");
    }
    c.say(what + std::to_string(calls) + " calls each");
    c.label("long inputs, " + std::to_string(T) + " threads");
    c.nontrivial();
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> th;
    for (auto &d : todo)
        th.emplace_back([&, T, calls] {
            try {
                ++ready;
                while (ready < T) std::this_thread::yield();
                for (unsigned k = 0; k < calls; ++k) {
                    if (d.kind < 2) {
                        if (compute(d) != d.tree) d.error = "a hash tree of " + std::to_string(d.kind ? d.bytes.size() : 32 * d.chunks.size()) + " bytes is another than alone";
                        continue;
                    }
                    auto x = d.t->make();
                    if (!x->deserialize(d.bytes)) d.error = "the encoding of a long " + d.t->name + " is refused";
                    else if (x->root() != d.root) d.error = "the root of a long " + d.t->name + " is another than alone";
                    else if (x->serialize() != d.bytes) d.error = "the encoding of a long " + d.t->name + " is another than alone";
                    else if (!x->eq(*d.object)) d.error = "a long " + d.t->name + " does not equal its original";
                }
            } catch (const std::exception &e) {
                d.error = std::string("exception: ") + e.what();
            }
        });
    for (auto &t : th) t.join();
    for (auto &d : todo)
        if (!d.error.empty()) fail("while other threads call the library: " + d.error);
}
// The first calls a process makes, by several threads at once: each case has a process of its own (one for each worker)
void warm_up_yaml() {  // yaml-cpp alone
    for (auto text : {"a: [1, true, 0x00, {b: 3}]\nc: 'x'\nd: \"y\"\n# z\ne:\n  - f\n  - g: ~", "- 1\n- 2", "[0x1z, {a: no, true, 3.5, -1", "? a\n: b", "7"})
        for (int k = 0; k < 2; ++k) try {
                auto n = YAML::Load(text);
                (void)YAML::Dump(n);
                if (n.IsMap()) {
                    (void)n["a"][0].as<std::uint64_t>();
                    (void)n["a"][1].as<bool>();
                    (void)n["a"][2].as<std::string>();
                    (void)n["missing"].IsDefined();
                    YAML::Node m;
                    m["a"] = n["a"];
                    m["b"] = std::uint64_t(7);
                    m["c"] = true;
                    m["d"] = std::string("0x00");
                    m["e"].push_back(3);
                    (void)YAML::Dump(m);
                    (void)n.as<std::uint64_t>();
                } else
                    (void)n.as<std::vector<std::uint64_t>>();
            } catch (const std::exception &) {
            }
}
void first_calls(Ctx &c) {
    warm_up_yaml();
    auto T = 2 + c.upto(4);
    bool same = c.coin();
    struct Todo {
        const Type *t;
        Val v;
        Bytes encoding, root;
        std::string yaml;
        u64 seed;
    };
    std::vector<std::vector<Todo>> todo(T);
    for (auto &l : todo) {
        if (same && &l != &todo[0]) {
            l = todo[0];
            continue;
        }
        for (u64 k = 0, n = 1 + c.upto(3); k < n; ++k) {
            auto &t = any_type(c, c.coin());
            auto v = gen(c, t.schema, 30);
            l.push_back({&t, v, encode(t.schema, v), to_bytes(model::root(t.schema, v)), yaml_plain(t.schema, v), c.seed()});
        }
    }
    c.nontrivial();
    c.say(std::to_string(T) + " threads, first with " + todo[0][0].t->name);
    c.label(std::to_string(T) + (same ? " threads, equal calls" : " threads"));
    std::vector<std::string> error(T);
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> th;
    for (u64 k = 0; k < T; ++k)
        th.emplace_back([&, k] {
            try {
                ++ready;
                while (ready < T) std::this_thread::yield();
                auto expect = [](bool ok, const std::string &what) {
                    if (!ok) throw pbt::Fail(what);
                };
                for (auto &i : todo[k]) {
                    u64 r = i.seed;
                    auto a = i.t->make(), b = i.t->make();
                    if (r & 1) {
                        expect(a->deserialize(i.encoding), "decoding of a " + i.t->name);
                        expect(b->base().decode(YAML::Load(i.yaml)), "YAML decoding of a " + i.t->name);
                    } else {
                        expect(a->base().decode(YAML::Load(i.yaml)), "YAML decoding of a " + i.t->name);
                        expect(b->deserialize(i.encoding), "decoding of a " + i.t->name);
                    }
                    expect(a->root() == i.root && b->root() == i.root, "root of a " + i.t->name);
                    expect(a->eq(*b), "equality of a " + i.t->name);
                    expect(a->serialize() == i.encoding, "encoding of a " + i.t->name);
                    auto d = yaml_difference(i.t->schema, i.v, b->base().encode());
                    expect(d.empty(), "YAML form of a " + i.t->name + d);
                    auto &e = hc::engines()[(r >> 1) % hc::engines().size()];
                    Bytes in(64 * 9, u8(r >> 8)), out(32 * 9);
                    e.hasher.hash_64b_blocks(out.data(), in.data(), 9);
                    hc::compare(e.name + " while other threads call the library", out.data(), in.data(), 9);
                }
            } catch (const std::exception &e) {
                error[k] = e.what();
                if (error[k].empty()) error[k] = "exception";
            }
        });
    for (auto &t : th) t.join();
    for (auto &e : error)
        if (!e.empty()) fail("the first calls, in several threads: " + e);
}
}  // namespace

PROPERTY("C03first", "first calls", 1) { first_calls(c); }
PROPERTY("C03", "threads", 20) { threads(c, 60); }
PROPERTY("C03", "long inputs", 1) { large_calls(c, 10); }
PROPERTY("C03", "many threads", 1) { many_threads(c); }
PROPERTY("C03race", "many threads", 0.5) { many_threads(c); }
PROPERTY("C03race", "threads", 20) { threads(c, 25); }
PROPERTY("C03race", "long inputs", 1) { large_calls(c, 2); }
