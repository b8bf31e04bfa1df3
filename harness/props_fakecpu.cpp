// C04 on CPUs that were made up: a program whose library sources ask their CPUID of a table (see fakecpu.hpp) is run
// once for each of them. Questions the library asks in another way are not seen: such runs are skipped.
#include <fcntl.h>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>

#include "gen.hpp"

extern char **environ;
namespace {
using namespace pbt;
std::string run(const std::string &cpu) {
    const char *exe = std::getenv("MAMMON_FAKECPU");
    if (!exe) fail("the environment does not say where the program is");
    int p[2];
    if (pipe2(p, O_CLOEXEC)) throw Discard{};
    std::vector<char *> env;
    for (char **e = environ; *e; ++e) env.push_back(*e);
    std::string mine = "FAKE_CPU=" + cpu;
    env.push_back(mine.data());
    env.push_back(nullptr);
    char *argv[] = {const_cast<char *>(exe), nullptr};
    posix_spawn_file_actions_t a;
    posix_spawn_file_actions_init(&a);
    posix_spawn_file_actions_adddup2(&a, p[1], 1);
    posix_spawn_file_actions_adddup2(&a, p[1], 2);
    pid_t pid;
    int r = posix_spawn(&pid, exe, &a, nullptr, argv, env.data());
    posix_spawn_file_actions_destroy(&a);
    close(p[1]);
    std::string out;
    char buf[512];
    if (!r)
        for (ssize_t k; (k = read(p[0], buf, sizeof buf)) > 0;) out.append(buf, k);
    close(p[0]);
    if (r) throw Discard{};
    int status;
    waitpid(pid, &status, 0);
    if (WIFSIGNALED(status)) out += " killed by signal " + std::to_string(WTERMSIG(status));
    return out;
}
}  // namespace

PROPERTY("C04fake", "CPUs made up", 1) {
    const bool avx = c.chance(3, 4), sha = avx ? c.coin() : true, avx2 = avx && c.chance(2, 3), wide = avx2 && c.coin();
    const unsigned max = !avx2 && !sha && c.coin() ? unsigned(1 + c.upto(5)) : unsigned(7 + c.upto(c.coin() ? 2 : 25));
    constexpr unsigned AVX = 1u << 28, FMA = 1u << 12, F16C = 1u << 29, OSX = 3u << 26, SSE = 1u << 9 | 1u << 19 | 1u << 20 | 1;
    unsigned set1 = SSE, clear1 = 0;
    // what there is in any case, and what may be missing
    if (avx) set1 |= AVX | OSX;
    else clear1 |= AVX | FMA | F16C;
    for (unsigned bit : {12u, 29u, 22u, 23u, 25u, 1u, 30u, 31u, 17u, 13u})
        if (c.chance(1, 3)) clear1 |= 1u << bit;
        else if (avx || (bit != 12 && bit != 29)) set1 |= 1u << bit;
    set1 &= ~clear1;
    constexpr unsigned W = 1u << 16 | 1u << 17 | 1u << 21 | 1u << 26 | 1u << 27 | 1u << 28 | 1u << 30 | 1u << 31, A2 = 1u << 5, SHA = 1u << 29;
    unsigned b7 = unsigned(c.seed()) & ~(W | A2 | SHA);
    if (c.chance(1, 4)) b7 = 0;
    else if (c.chance(1, 4)) b7 = ~(W | A2 | SHA);
    b7 |= (sha ? SHA : 0) | (avx2 ? A2 : 0);
    if (wide) {
        b7 |= 1u << 16;
        for (unsigned i = 17; i < 32; ++i)
            if (W >> i & 1 && c.chance(2, 3)) b7 |= 1u << i;
    }
    // families and models: the processors that were made, and any
    static const unsigned eax[] = {0x506e3, 0x306c3, 0x206a7, 0x50657, 0x806f8, 0x906a3, 0xb06a2, 0x50671, 0x80650, 0x506c9, 0x706a8, 0x906c0,
                                   0x800f11, 0x830f10, 0xa20f10, 0xa10f11, 0x600f20, 0x610f01, 0x900f22, 0x006fd, 0xb40f40};
    unsigned eax1 = c.chance(2, 3) ? c.pick(std::vector<unsigned>(std::begin(eax), std::end(eax))) : unsigned(c.seed()) & 0x0fff3fff;
    unsigned c7 = c.chance(1, 3) ? 0 : unsigned(c.seed()), d7 = c.chance(1, 3) ? 0 : unsigned(c.seed());
    unsigned vendor = unsigned(c.upto(4));
    u64 noise = c.seed();
    char text[200];
    std::snprintf(text, sizeof text, "%u %x %x %x %x %x %x %u %lx", max, eax1, set1, clear1, b7, c7, d7, vendor, noise);
    const int features = (max >= 7 && sha ? 8 : 0) | (max >= 7 && avx2 ? 4 : 0) | (avx ? 3 : 0);
    auto what = std::string("a CPU ") + (features & 8 ? "with" : "without") + " SHA, " + (features & 2 ? "with" : "without") + " AVX, " +
                (features & 4 ? "with" : "without") + " AVX2, " + (wide ? "with some of" : "without") + " AVX-512, CPUID up to " + std::to_string(max) +
                ", " + hex(reinterpret_cast<u8 *>(&eax1), 4) + " of vendor " + std::to_string(vendor);
    c.say(what + " (" + text + ")");
    auto out = run(text);
    int reported, start, def, none, tree, one, seven;
    if (out.rfind("unknown", 0) == 0 || (std::sscanf(out.c_str(), "reported %d start %d default %d none %d tree %d asked %d %d", &reported, &start, &def, &none, &tree, &one, &seven) == 7 && !(one && seven))) {
        c.label("asked in another way: skipped");
        return;
    }
    if (std::sscanf(out.c_str(), "reported %d start %d default %d none %d tree %d", &reported, &start, &def, &none, &tree) != 5)
        fail("on " + what + ", hashing ends with: " + out.substr(0, 300));
    c.nontrivial();
    c.label(std::string("engines ") + std::to_string(features) + (wide ? ", some AVX-512" : ""));
    check(reported == features, "on " + what + " the engines reported are " + std::to_string(reported) + " instead of " + std::to_string(features));
    check(!(start & ~features), "on " + what + " the engine " + std::to_string(start) + " is called at the start");
    check(!(def & ~features), "on " + what + " the engine " + std::to_string(def) + " is called by default");
    check(!(tree & ~features), "on " + what + " the engine " + std::to_string(tree) + " is called by hash trees");
    check(!(none & ~features), "on " + what + " the engine " + std::to_string(none) + " is called by the hasher of no engine or of all those reported");
}
