// C01, C02 and the single-stepping part of C03: the hashing engines
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>

#include "hash_common.hpp"

using namespace pbt;
using namespace hc;

// ---------------------------------------------------------------------------------------------------------------- C01
static void digests_case(Ctx &c, std::size_t max) {
    auto &e = c.pick(engines());
    auto n = gen_blocks(c, max);
    std::size_t ai = c.upto(63), ao = c.upto(63);
    Bytes in(64 * n + ai), out(32 * n + ao, u8(c.upto(255)));
    gen_input(c, in.data() + ai, n);
    e.hasher.hash_64b_blocks(out.data() + ao, in.data() + ai, n);
    c.label("engine " + e.name);
    c.label(n == 0 ? "n=0" : n < 4 ? "n=1..3" : n < 8 ? "n=4..7" : n < 16 ? "n=8..15" : n < 130 ? "n=16..129" : "n>=130");
    c.say("engine " + e.name + ", " + std::to_string(n) + " blocks at alignment " + std::to_string(ai) + "/" +
          std::to_string(ao) + (n ? ", first " + hex(in.data() + ai, 16) : ""));
    if (n) c.nontrivial();
    compare(e.name, out.data() + ao, in.data() + ai, n);
}
PROPERTY("C01", "digests", 100) { digests_case(c, 300); }
PROPERTY("C01", "large", 1) { digests_case(c, 70000); }

// One input cut in several calls, by different engines: the digests do not depend on where it is cut
PROPERTY("C01", "split", 15) {
    auto n = gen_blocks(c, 200);
    Bytes in(64 * n), out(32 * n, 0xee);
    gen_input(c, in.data(), n);
    std::string cuts;
    for (std::size_t i = 0; i < n;) {
        auto &e = c.pick(engines());
        auto k = std::min<std::size_t>(n - i, 1 + c.upto(20));
        e.hasher.hash_64b_blocks(out.data() + 32 * i, in.data() + 64 * i, k);
        cuts += e.name + ":" + std::to_string(k) + " ";
        i += k;
    }
    if (n) c.nontrivial();
    c.say(std::to_string(n) + " blocks in calls of " + cuts.substr(0, 200));
    compare("(split)", out.data(), in.data(), n);
}

// A single bit, or two equal blocks in different lanes, in otherwise equal inputs
PROPERTY("C01", "lanes", 15) {
    auto &e = c.pick(engines());
    auto n = 1 + c.upto(32);
    Bytes block = c.bytes(64), in, out(32 * n);
    for (std::size_t i = 0; i < n; ++i) in.insert(in.end(), block.begin(), block.end());
    auto bit = c.below(in.size() * 8);
    in[bit / 8] ^= 1 << (bit % 8);
    e.hasher.hash_64b_blocks(out.data(), in.data(), n);
    c.nontrivial();
    c.say("engine " + e.name + ", " + std::to_string(n) + " equal blocks but for bit " + std::to_string(bit));
    compare(e.name, out.data(), in.data(), n);
}

// More input than 32 bits of offset can reach: input and output consist of three windows mapped again and again, one
// after the other, so that what is at a wrapped-around offset is something else, and of one mapped at the end only
static void huge_case(Ctx &c, const std::string &engine, u64 total_log, u64 window_log) {
    const u64 W = u64(1) << window_log;  // blocks in a window
    const Hasher *h = nullptr;
    for (auto &e : engines())
        if (e.name == engine) h = &e.hasher;
    if (!h) {
        c.label("engine " + engine + " not available");
        return;
    }
    const u64 whole = (u64(1) << total_log) / W + c.upto(2), rest = 1 + c.upto(W - 1), n = whole * W + rest;
    int fi = memfd_create("in", 0), fo = memfd_create("out", 0);
    auto *in = static_cast<u8 *>(mmap(nullptr, (whole + 1) * 64 * W, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    auto *out = static_cast<u8 *>(mmap(nullptr, (whole + 1) * 32 * W, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    bool ok = fi >= 0 && fo >= 0 && !ftruncate(fi, 4 * 64 * W) && !ftruncate(fo, 4 * 32 * W) && in != MAP_FAILED && out != MAP_FAILED;
    for (u64 i = 0; i <= whole && ok; ++i) {
        u64 k = i < whole ? i % 3 : 3;
        ok = mmap(in + i * 64 * W, 64 * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fi, k * 64 * W) != MAP_FAILED &&
             mmap(out + i * 32 * W, 32 * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fo, k * 32 * W) != MAP_FAILED;
    }
    if (!ok) {
        c.label("no room for the buffers");
        return;
    }
    u64 s = c.seed();
    for (u64 i = 0; i < 8 * 3 * W; ++i) reinterpret_cast<u64 *>(in)[i] = splitmix(s);
    for (u64 i = 0; i < 8 * rest; ++i) reinterpret_cast<u64 *>(in + whole * 64 * W)[i] = splitmix(s);
    std::memset(out, 0xdd, 3 * 32 * W);
    std::memset(out + whole * 32 * W, 0xdd, 32 * W);
    h->hash_64b_blocks(out, in, n);
    c.label("engine " + engine);
    c.nontrivial();
    c.say("engine " + engine + ", " + std::to_string(n) + " blocks");
    for (u64 i = 0; i < 3 * W + rest; ++i) {
        u64 at = i < 3 * W ? i : whole * W + i - 3 * W;
        auto d = ref::sha256(in + 64 * at, 64);
        if (std::memcmp(d.data(), out + 32 * at, 32))
            fail("engine " + engine + ", " + std::to_string(n) + " blocks: digest " + std::to_string(at) + " or one at a multiple of " +
                 std::to_string(3 * W) + " more is wrong");
    }
    for (u64 i = 32 * rest; i < 32 * W; ++i)
        if (out[whole * 32 * W + i] != 0xdd) fail("engine " + engine + ", " + std::to_string(n) + " blocks: wrote after the output");
    munmap(in, (whole + 1) * 64 * W);
    munmap(out, (whole + 1) * 32 * W);
    close(fi);
    close(fo);
}
// Long inputs, of blocks that recur with a prime period
PROPERTY("C01mid", "up to 2^23 blocks", 1) {
    auto &e = c.pick(engines());
    u64 n;
    switch (c.upto(2)) {
        case 0: {
            auto s = 17 + c.upto(5);
            n = (1 + c.below(u64(1) << (23 - s))) << s;
            break;
        }
        case 1: n = (1 + c.upto(32)) << (11 + c.upto(6)); break;
        default: n = c.upto(u64(1) << (17 + c.upto(6))); break;
    }
    if (c.coin()) n += c.coin() ? c.upto(17) - std::min<u64>(n, 8) : c.coin() ? 1 : n ? u64(-1) : 0;
    const u64 period = 1021;
    Bytes blocks(64 * period), in(64 * n + 64), out(32 * n + 64, 0xee);
    gen_input(c, blocks.data(), period);
    std::vector<ref::Digest> want;
    for (u64 i = 0; i < period; ++i) want.push_back(ref::sha256(&blocks[64 * i], 64));
    for (u64 i = 0; i < n; i += period) std::memcpy(&in[64 * i], blocks.data(), 64 * std::min(period, n - i));
    e.hasher.hash_64b_blocks(out.data(), in.data(), n);
    auto what = "engine " + e.name + ", " + std::to_string(n) + " blocks";
    c.label("engine " + e.name);
    c.say(what);
    if (n) c.nontrivial();
    for (u64 i = 0; i < n; ++i)
        if (std::memcmp(&out[32 * i], want[i % period].data(), 32)) fail(what + ": digest " + std::to_string(i) + " is " + hex(&out[32 * i], 32));
    for (u64 i = 32 * n; i < out.size(); ++i)
        if (out[i] != 0xee) fail(what + ": wrote after the output");
    for (u64 i = 0; i < n; i += period)
        if (std::memcmp(&in[64 * i], blocks.data(), 64 * std::min(period, n - i))) fail(what + ": the input was changed");
}
// (property ids of their own: they are heavy and the driver runs few of them)
static const bool huge_registered = [] {
    for (std::string e : {"SSE", "AVX", "AVX2", "SHA"}) {
        registry().push_back({"C01huge" + e, "2^26 blocks, " + e, 1, [e](Ctx &c) { huge_case(c, e, 26, 15); }});
        registry().push_back({"C01giant" + e, "2^32 blocks, " + e, 1, [e](Ctx &c) { huge_case(c, e, 32, 22); }});
    }
    return true;
}();

// ---------------------------------------------------------------------------------------------------------------- C02
namespace {
constexpr std::size_t PAGE = 4096;
// an area between 16 MiB without access on either side
struct Arena {
    static constexpr std::size_t GUARD = 16 << 20;
    u8 *base, *lo;
    std::size_t size;
    explicit Arena(std::size_t pages) : size{pages * PAGE} {
        base = static_cast<u8 *>(mmap(nullptr, size + 2 * GUARD, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (base == MAP_FAILED) throw std::runtime_error("mmap");
        lo = base + GUARD;
        protect(PROT_READ | PROT_WRITE);
    }
    void protect(int p) {
        if (mprotect(lo, size, p)) throw std::runtime_error("mprotect");
    }
    u8 *end() { return lo + size; }
    ~Arena() { munmap(base, size + 2 * GUARD); }
};

struct Regs {  // offsets used by the assembly below
    u64 fn, out, in, n;                  // 0 8 16 24
    u64 rbx, rbp, r12, r13, r14, r15;    // 32 .. 72: set before, read after
    u64 rsp_before, rsp_after;           // 80 88
    u64 flags;                           // 96
    std::uint32_t mxcsr, mxcsr_after;    // 104 108
    std::uint16_t cw, cw_after, tag, pad;  // 112 114 116
    u64 pad2;                            // 120
    u64 canary[32];                      // 128: filled, copied to the stack above the call, read back
    u8 env[64];                          // 384
};
}  // namespace
static_assert(offsetof(Regs, canary) == 128 && offsetof(Regs, env) == 384 && offsetof(Regs, cw) == 112);

extern "C" void pbt_call_checked(Regs *);
asm(R"(
    .text
    .globl pbt_call_checked
    .type pbt_call_checked, @function
pbt_call_checked:
    pushq %rbx
    pushq %rbp
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    pushq %rdi
    stmxcsr -8(%rsp)
    movl -8(%rsp), %eax
    pushq %rax                 # mxcsr to restore
    subq $264, %rsp            # 256 of canary; the stack is now 16 byte aligned
    fnstcw 256(%rsp)
    ldmxcsr 104(%rdi)
    fldcw 112(%rdi)
    xorl %ecx, %ecx
1:  movq 128(%rdi,%rcx,8), %rax
    movq %rax, (%rsp,%rcx,8)
    incl %ecx
    cmpl $32, %ecx
    jne 1b
    movq %rsp, 80(%rdi)
    movq 32(%rdi), %rbx
    movq 40(%rdi), %rbp
    movq 48(%rdi), %r12
    movq 56(%rdi), %r13
    movq 64(%rdi), %r14
    movq 72(%rdi), %r15
    movq %rdi, pbt_regs(%rip)
    movq %rsp, pbt_rsp(%rip)
    movq (%rdi), %rax
    movq 16(%rdi), %rsi
    movq 24(%rdi), %rdx
    movq 8(%rdi), %rdi
    cld
    call *%rax
    movq pbt_regs(%rip), %rdi
    movq %rsp, 88(%rdi)
    movq pbt_rsp(%rip), %rsp
    pushfq
    popq 96(%rdi)
    cld
    movq %rbx, 32(%rdi)
    movq %rbp, 40(%rdi)
    movq %r12, 48(%rdi)
    movq %r13, 56(%rdi)
    movq %r14, 64(%rdi)
    movq %r15, 72(%rdi)
    stmxcsr 108(%rdi)
    fnstcw 114(%rdi)
    fnstenv 384(%rdi)
    movw 392(%rdi), %ax
    movw %ax, 116(%rdi)
    fninit
    xorl %ecx, %ecx
2:  movq (%rsp,%rcx,8), %rax
    movq %rax, 128(%rdi,%rcx,8)
    incl %ecx
    cmpl $32, %ecx
    jne 2b
    fldcw 256(%rsp)
    addq $264, %rsp
    popq %rax
    movl %eax, -8(%rsp)
    ldmxcsr -8(%rsp)
    popq %rdi
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbp
    popq %rbx
    ret
    .size pbt_call_checked, .-pbt_call_checked
    .local pbt_regs
    .comm pbt_regs,8,8
    .local pbt_rsp
    .comm pbt_rsp,8,8
)");

static const Hasher *g_hasher;
// a tail call: what the engine does to the registers is what the caller sees
extern "C" __attribute__((noinline)) void pbt_thunk(u8 *out, const u8 *in, u64 n) { g_hasher->hash_64b_blocks(out, in, n); }

static void guard_pages(Ctx &c, std::size_t max) {
    auto &e = c.pick(engines());
    auto n = gen_blocks(c, max);
    Arena in(3 + 64 * n / PAGE), out(3 + 32 * n / PAGE);
    if (n == 0) {  // nothing may be touched at all
        in.protect(PROT_NONE);
        out.protect(PROT_NONE);
        auto a = c.upto(PAGE), b = c.upto(PAGE);
        c.say("engine " + e.name + ", no blocks, inaccessible buffers");
        c.label("n=0");
        e.hasher.hash_64b_blocks(out.lo + a, in.lo + b, 0);
        c.nontrivial();
        return;
    }
    // the buffers lie against an unmapped page or a few bytes from it
    std::size_t gi = c.chance(1, 2) ? c.upto(63) : 0, go = c.chance(1, 2) ? c.upto(63) : 0;
    bool ie = c.coin(), oe = c.coin();
    u8 *pi = ie ? in.end() - 64 * n - gi : in.lo + gi;
    u8 *po = oe ? out.end() - 32 * n - go : out.lo + go;
    u8 fill = u8(c.upto(255)), canary = u8(c.upto(255));
    std::memset(in.lo, fill, in.size);
    gen_input(c, pi, n);
    Bytes copy(pi, pi + 64 * n);
    std::memset(out.lo, canary, out.size);
    in.protect(PROT_READ);
    c.label("engine " + e.name);
    c.label(gi || go ? "unaligned" : "aligned");
    c.say("engine " + e.name + ", " + std::to_string(n) + " blocks, input " + std::to_string(gi) + " bytes from the " +
          (ie ? "end" : "start") + " of its pages, output " + std::to_string(go) + " from the " + (oe ? "end" : "start"));
    c.nontrivial();
    e.hasher.hash_64b_blocks(po, pi, n);
    for (u8 *p = out.lo; p < out.end(); ++p)
        if ((p < po || p >= po + 32 * n) && *p != canary)
            fail("engine " + e.name + ", " + std::to_string(n) + " blocks: wrote at offset " + std::to_string(p - po) +
                 " of an output of " + std::to_string(32 * n) + " bytes");
    check(std::equal(copy.begin(), copy.end(), pi), "the input changed");
    compare(e.name, po, pi, n);
}

PROPERTY("C02", "guard pages", 60) { guard_pages(c, 150); }
PROPERTY("C02", "guard pages, long inputs", 0.1) { guard_pages(c, 40000); }

// What lies around the input has no influence, and every byte of it has
PROPERTY("C02", "only its input", 20) {
    auto &e = c.pick(engines());
    auto n = 1 + gen_blocks(c, c.chance(1, 500) ? 40000 : 64);
    Bytes in(64 * n + 256), out1(32 * n), out2(32 * n);
    gen_input(c, in.data() + 128, n);
    e.hasher.hash_64b_blocks(out1.data(), in.data() + 128, n);
    u64 s = c.seed();
    for (std::size_t i = 0; i < 128; ++i) {
        in[i] = u8(splitmix(s));
        in[in.size() - 1 - i] = u8(splitmix(s));
    }
    std::memset(out2.data(), 0x5a, out2.size());
    e.hasher.hash_64b_blocks(out2.data(), in.data() + 128, n);
    c.nontrivial();
    c.say("engine " + e.name + ", " + std::to_string(n) + " blocks, surroundings changed");
    check(out1 == out2, "the digests depend on what surrounds the input or on what the output held");
}

static void calling_convention(Ctx &c, std::size_t max) {
    auto &e = c.pick(engines());
    auto n = gen_blocks(c, max);
    std::size_t ai = c.upto(63), ao = c.upto(63);
    Bytes in(64 * n + ai + 64), out(32 * n + ao + 64, 0x77);
    gen_input(c, in.data() + ai, n);
    Regs r{}, want;
    r.fn = reinterpret_cast<u64>(&pbt_thunk);
    r.out = reinterpret_cast<u64>(out.data() + ao);
    r.in = reinterpret_cast<u64>(in.data() + ai);
    r.n = n;
    u64 s = c.seed();
    for (u64 *p : {&r.rbx, &r.rbp, &r.r12, &r.r13, &r.r14, &r.r15}) *p = splitmix(s);
    for (auto &w : r.canary) w = splitmix(s);
    // any rounding mode, flush to zero and denormals are zero; every exception masked
    r.mxcsr = 0x1f80 | u32(c.upto(3)) << 13 | u32(c.upto(1)) << 15 | u32(c.upto(1)) << 6;
    r.cw = std::uint16_t(0x7f | c.upto(3) << 10 | c.pick({3, 0, 2}) << 8);
    want = r;
    g_hasher = &e.hasher;
    pbt_call_checked(&r);
    c.label("engine " + e.name);
    c.nontrivial();
    c.say("engine " + e.name + ", " + std::to_string(n) + " blocks, mxcsr " + std::to_string(r.mxcsr));
    auto what = "engine " + e.name + ", " + std::to_string(n) + " blocks: after the call, ";
    check(r.rsp_before == r.rsp_after, what + "rsp differs");
    check(r.rbx == want.rbx, what + "rbx differs");
    check(r.rbp == want.rbp, what + "rbp differs");
    check(r.r12 == want.r12, what + "r12 differs");
    check(r.r13 == want.r13, what + "r13 differs");
    check(r.r14 == want.r14, what + "r14 differs");
    check(r.r15 == want.r15, what + "r15 differs");
    check(!(r.flags & 0x400), what + "the direction flag is set");
    check((r.mxcsr & ~0x3fu) == (r.mxcsr_after & ~0x3fu), what + "mxcsr differs");
    check(r.cw == r.cw_after, what + "the x87 control word differs");
    check(r.tag == 0xffff, what + "the x87 register stack is not empty");
    check(!std::memcmp(r.canary, want.canary, sizeof r.canary), what + "the caller's stack frame differs");
    compare(e.name, out.data() + ao, in.data() + ai, n);
}
PROPERTY("C02", "calling convention", 60) { calling_convention(c, 60); }
PROPERTY("C02", "calling convention, long inputs", 0.1) { calling_convention(c, 40000); }

// ---------------------------------------------------------------------------------------------------------------- C03
// The instructions of one hashing call are run one by one; after the chosen ones a signal handler, on the same stack,
// does another hashing call. Both results must be right.
namespace {
struct Step {
    const Hasher *inner;
    const u8 *in;
    const u8 *expect;
    u8 *out;
    u64 n, steps, from, every, nested, bad;
} volatile g_step;
volatile bool g_stepping;
}  // namespace

static void on_trap(int, siginfo_t *, void *ctx) {
    auto *u = static_cast<ucontext_t *>(ctx);
    if (!g_stepping) {
        u->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
        return;
    }
    auto i = g_step.steps;
    g_step.steps = i + 1;
    if (i < g_step.from || (i - g_step.from) % g_step.every) return;
    std::memset(g_step.out, 0x33, 32 * g_step.n);
    g_step.inner->hash_64b_blocks(g_step.out, g_step.in, g_step.n);
    g_step.nested = g_step.nested + 1;
    if (std::memcmp(g_step.out, g_step.expect, 32 * g_step.n)) g_step.bad = g_step.bad + 1;
}

extern "C" __attribute__((noinline)) void pbt_stepped(u8 *out, const u8 *in, u64 n) {
    g_stepping = true;
    asm volatile("lea -128(%%rsp), %%rsp; pushfq; orq $0x100, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "memory", "cc");
    g_hasher->hash_64b_blocks(out, in, n);
    asm volatile("lea -128(%%rsp), %%rsp; pushfq; andq $~0x100, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "memory", "cc");
    g_stepping = false;
}

static void install_trap() {
    struct sigaction sa {};
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, nullptr);
}

static void reentrancy(Ctx &c, std::size_t max_outer, bool everywhere, bool long_too = false) {
    static const bool once = (install_trap(), true);
    (void)once;
    auto &eo = c.pick(engines()), &ei = c.chance(1, 2) ? eo : c.pick(engines());
    auto n = 1 + c.upto(max_outer - 1), m = 1 + c.upto(long_too && c.chance(3, 4) ? max_outer - 1 : c.coin() ? 3 : 16);
    Bytes in(64 * n), out(32 * n, 0x11), in2(64 * m), out2(32 * m), expect(32 * m);
    gen_input(c, in.data(), n);
    gen_input(c, in2.data(), m);
    for (u64 i = 0; i < m; ++i) {
        auto d = ref::sha256(in2.data() + 64 * i, 64);
        std::copy(d.begin(), d.end(), expect.begin() + 32 * i);
    }
    g_step.inner = &ei.hasher;
    g_step.in = in2.data();
    g_step.out = out2.data();
    g_step.expect = expect.data();
    g_step.n = m;
    g_step.steps = 0;
    g_step.nested = 0;
    g_step.bad = 0;
    u64 at = everywhere ? 0 : c.upto(long_too ? 400000 : 9000);
    g_step.from = everywhere ? 0 : at;
    g_step.every = everywhere ? 1 : long_too ? 20000 + c.upto(100000) : 1000000;
    g_hasher = &eo.hasher;
    pbt_stepped(out.data(), in.data(), n);
    if (!everywhere && g_step.nested == 0) {  // the call was shorter: choose again within it
        std::memset(out.data(), 0x11, out.size());
        u64 len = g_step.steps;
        g_step.from = len ? at % len : 0;
        g_step.steps = 0;
        pbt_stepped(out.data(), in.data(), n);
    }
    count("instructions stepped", g_step.steps);
    count("nested hashing calls", g_step.nested);
    c.label("interrupted " + eo.name + " by " + ei.name);
    c.say("call of " + eo.name + " on " + std::to_string(n) + " blocks (" + std::to_string(g_step.steps) + " instructions) interrupted " +
          (everywhere ? "at every instruction" : "at instruction " + std::to_string(g_step.from)) + " by " + ei.name + " on " +
          std::to_string(m) + " blocks");
    if (g_step.nested) c.nontrivial();
    check(g_step.steps > 20, "single stepping does not work here");
    check(!g_step.bad, "engine " + ei.name + ", called from a handler that interrupts engine " + eo.name + ", gives wrong digests");
    try {
        compare(eo.name, out.data(), in.data(), n);
    } catch (const Fail &f) {
        fail("interrupted by a call of engine " + ei.name + ": " + f.what());
    }
}
PROPERTY("C03step", "interrupted at every instruction", 4) { reentrancy(c, 20, true); }
PROPERTY("C03step", "interrupted at one instruction", 12) { reentrancy(c, 20, false); }
PROPERTY("C03step", "interrupted, long inputs", 4) { reentrancy(c, 600, false, true); }
