// Choice-sequence generator engine.
//
// Every random decision of a property is drawn from a Ctx as a bounded integer and recorded on a tape, so that a
// case is a pure function of its tape: a failing case is shrunk by editing the tape, and replayed from it. The tape
// and the description of the current case live in shared memory, so that they survive a crash of the process that
// runs the case.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {
using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using Bytes = std::vector<u8>;

inline u64 splitmix(u64 &s) {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline u64 mix(u64 a, u64 b) {
    u64 s = a ^ (b * 0xd6e8feb86659fd93ull);
    splitmix(s);
    return splitmix(s);
}
inline u64 fnv(const void *p, std::size_t n, u64 h = 0xcbf29ce484222325ull) {
    auto *c = static_cast<const u8 *>(p);
    for (std::size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ull;
    return h;
}
inline u64 fnv(const std::string &s) { return fnv(s.data(), s.size()); }

struct Fail : std::runtime_error {
    using std::runtime_error::runtime_error;
};
// The tape does not describe a case of the property (only while shrinking or fuzzing)
struct Discard {};

constexpr std::size_t TAPE_MAX = 1 << 18;
constexpr std::size_t TEXT_MAX = 1 << 14;
struct Shared {
    volatile u64 case_index;
    volatile u64 n;          // entries on the tape
    volatile int running;    // a case is being run
    volatile int failed;     // it failed with `text`
    volatile u64 cases_done;
    char text[TEXT_MAX];
    u64 tape[TAPE_MAX];
};

struct Labels;  // per worker counters, in runner.cpp
void label_add(const std::string &);

// Integers that the sources under test mention: choices are made of them now and then
std::vector<u64> &dictionary();

class Ctx {
    enum class Mode { Random, Replay, Quiet, Fuzz } mode_;
    u64 rng_ = 0;
    const u64 *tape_ = nullptr;
    std::size_t len_ = 0, pos_ = 0;
    Shared *sh_ = nullptr;
    const u8 *input_ = nullptr;  // the bytes choices are made from, when fuzzing
    Bytes *record_ = nullptr;    // where those are kept that would have led to the choices made
    static int width(u64 bound) {
        int w = 0;
        for (; bound; bound >>= 8) ++w;
        return w;
    }

    // one of the integers of the dictionary, or one made from it
    bool from_dictionary(u64 bound, u64 &v) {
        auto &d = dictionary();
        if (d.empty()) return false;
        u64 r = splitmix(rng_), x = d[(r >> 32) % d.size()];
        switch (r & 15) {
            case 0: x += 1; break;
            case 1: x -= 1; break;
            case 2: x >>= (r >> 4) & 7; break;  // bytes into words or chunks
            case 3: x = (x >> 5) / 3 * 2; break;
            case 4: x <<= (r >> 4) & 7; break;
            case 5: x |= splitmix(rng_) << (8 << ((r >> 4) % 3)); break;  // in the low bytes
            case 6: x = ~x; break;
            case 7: x = x + d[(r >> 8) % d.size()]; break;
        }
        if (x > bound) return false;
        v = x;
        return true;
    }

   public:
    bool nontrivial_ = false;
    std::string text_;

    static Ctx random(u64 seed, Shared *sh) {
        Ctx c;
        c.mode_ = Mode::Random;
        c.rng_ = seed;
        c.sh_ = sh;
        if (sh) sh->n = 0;
        return c;
    }
    static Ctx replay(const u64 *tape, std::size_t len, Shared *sh) {
        Ctx c;
        c.mode_ = Mode::Replay;
        c.tape_ = tape;
        c.len_ = len;
        c.sh_ = sh;
        if (sh) sh->n = 0;
        return c;
    }
    static Ctx fuzz(const u8 *input, std::size_t len, Shared *sh) {
        Ctx c;
        c.mode_ = Mode::Fuzz;
        c.input_ = input;
        c.len_ = len;
        c.sh_ = sh;
        if (sh) sh->n = 0;
        return c;
    }
    void record(Bytes *b) { record_ = b; }
    // A context whose choices are not recorded: they all follow from one seed, which is
    static Ctx quiet(u64 seed) {
        Ctx c;
        c.mode_ = Mode::Quiet;
        c.rng_ = seed;
        return c;
    }

    // an integer in [0, bound]; simpler is smaller
    u64 upto(u64 bound) {
        u64 v;
        if (mode_ == Mode::Replay) {
            v = pos_ < len_ ? tape_[pos_++] : 0;
            if (v > bound) v = bound == ~u64(0) ? v : v % (bound + 1);
        } else if (mode_ == Mode::Fuzz) {
            v = 0;
            for (int i = 0, w = width(bound); i < w && pos_ < len_; ++i) v |= u64(input_[pos_++]) << (8 * i);
            if (bound != ~u64(0)) v %= bound + 1;
        } else {
            v = splitmix(rng_);
            if (bound < 9 || v >> 58 || !from_dictionary(bound, v))
                if (bound != ~u64(0)) v %= bound + 1;
        }
        if (record_)
            for (int i = 0, w = width(bound); i < w; ++i) record_->push_back(u8(v >> (8 * i)));
        if (sh_ && mode_ != Mode::Quiet && sh_->n < TAPE_MAX) {
            sh_->tape[sh_->n] = v;
            sh_->n = sh_->n + 1;
        }
        return v;
    }
    u64 below(u64 n) { return n ? upto(n - 1) : 0; }
    u64 range(u64 lo, u64 hi) { return lo + upto(hi - lo); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }  // shrinks to false
    bool coin() { return upto(1); }
    template <class T>
    const T &pick(const std::vector<T> &v) {
        return v[below(v.size())];
    }
    template <class T>
    T pick(std::initializer_list<T> v) {
        return *(v.begin() + below(v.size()));
    }
    // any 64-bit integer, with boundary values more likely than chance
    u64 word() {
        switch (upto(7)) {
            case 0: return upto(3);
            case 1: return upto(300);
            case 2: return ~u64(0) - upto(3);
            case 3: return (u64(1) << upto(63));
            case 4: return (u64(1) << upto(63)) - 1;
            case 5: return upto(~u64(0)) >> upto(63);
            default: return upto(~u64(0));
        }
    }
    // n bytes in one of several styles
    void fill(u8 *p, std::size_t n) {
        switch (upto(5)) {
            case 0: std::memset(p, 0, n); break;
            case 1: {
                std::memset(p, 0, n);
                auto k = upto(3) + 1;
                for (u64 i = 0; i < k && n; ++i) p[below(n)] = u8(upto(255));
                break;
            }
            case 2: {
                auto b = u8(upto(255));
                auto step = u8(upto(3));
                for (std::size_t i = 0; i < n; ++i) p[i] = u8(b + i * step);
                break;
            }
            case 3: std::memset(p, 0xff, n); break;
            default: {
                u64 s = upto(~u64(0));
                std::size_t i = 0;
                for (; i + 8 <= n; i += 8) {
                    u64 v = splitmix(s);
                    std::memcpy(p + i, &v, 8);
                }
                if (i < n) {
                    u64 v = splitmix(s);
                    std::memcpy(p + i, &v, n - i);
                }
                if (n && chance(1, 8)) {  // with an integer of note somewhere
                    u64 v = word(), at = below(n);
                    if (coin()) at -= at % 8;
                    std::memcpy(p + at, &v, std::min<u64>(8, n - at));
                }
            }
        }
    }
    Bytes bytes(std::size_t n) {
        Bytes b(n);
        if (n) fill(b.data(), n);
        return b;
    }
    u64 seed() { return upto(~u64(0)); }

    void label(const std::string &l) {
        if (mode_ != Mode::Quiet && sh_) label_add(l);
    }
    // this case exercises the property in the sense of its stated rule
    void nontrivial() { nontrivial_ = true; }
    // one line of human readable description of the case
    void say(const std::string &s) {
        if (text_.size() < 900) text_ += (text_.empty() ? "" : "; ") + s;
    }
};

[[noreturn]] inline void fail(const std::string &msg) { throw Fail(msg); }
inline void check(bool ok, const char *what) {
    if (!ok) throw Fail(what);
}
inline void check(bool ok, const std::string &what) {
    if (!ok) throw Fail(what);
}
inline std::string hex(const u8 *p, std::size_t n, std::size_t max = 96) {
    static const char *d = "0123456789abcdef";
    std::string s;
    for (std::size_t i = 0; i < n && i < max; ++i) {
        s += d[p[i] >> 4];
        s += d[p[i] & 15];
    }
    if (n > max) s += "...(" + std::to_string(n) + " bytes)";
    return s;
}
template <class V>
std::string hex(const V &v) {
    return hex(v.data(), v.size());
}

struct Property {
    std::string id;    // property
    std::string name;  // sub check
    double weight;     // share of the cases
    std::function<void(Ctx &)> body;
};
std::vector<Property> &registry();
struct Register {
    Register(const char *id, const char *name, double weight, std::function<void(Ctx &)> body) {
        registry().push_back({id, name, weight, std::move(body)});
    }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(id, name, weight)                                                              \
    static void PBT_CAT(prop_, __LINE__)(pbt::Ctx &);                                           \
    static pbt::Register PBT_CAT(reg_, __LINE__){id, name, weight, PBT_CAT(prop_, __LINE__)};   \
    static void PBT_CAT(prop_, __LINE__)([[maybe_unused]] pbt::Ctx & c)

// free-form counters for evidence (steps single-stepped, threads run, ...)
void count(const std::string &what, u64 n = 1);
}  // namespace pbt
