// The benchmark program: C24. It is run on generated files; its path is given in the environment.
#include <fcntl.h>
#include <grp.h>
#include <spawn.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cctype>
#include <csignal>
#include <cstdlib>
#include <filesystem>
#include <fstream>

#include "core.hpp"
#include "spec.hpp"

extern char **environ;

namespace {
using namespace core;
namespace fs = std::filesystem;

// a scratch directory for one case
struct Scratch {
    std::string path;
    Scratch() {
        auto base = std::getenv("TMPDIR");
        path = std::string(base ? base : "/tmp") + "/mammon-bench-XXXXXX";
        if (!mkdtemp(path.data())) throw pbt::Discard{};
        chmod(path.c_str(), 0755);
    }
    ~Scratch() {
        std::error_code e;
        fs::remove_all(path, e);
    }
};
struct Outcome {
    int status;  // as from wait
    std::string out;
};
std::string program(const std::string &engine) {
    auto p = std::getenv(("MAMMON_BENCH_" + engine).c_str());
    if (!p) fail("the environment does not say where the benchmark is");
    return p;
}
bool supported(const std::string &engine) {
    if (engine == "SHA") {
        unsigned a = 7, b, cc = 0, d;
        asm volatile("cpuid" : "+a"(a), "=b"(b), "+c"(cc), "=d"(d));
        return b >> 29 & 1;
    }
    if (engine == "AVX2") return __builtin_cpu_supports("avx2");
    return __builtin_cpu_supports("avx");
}
// runs the program; nobody: without the privileges that let it read everything
Outcome run(const std::string &exe, const std::vector<std::string> &args, const std::string &dir, bool nobody, unsigned seconds = 60) {
    int p[2];
    if (pipe(p)) throw pbt::Discard{};
    std::vector<char *> argv{const_cast<char *>(exe.c_str())};
    for (auto &a : args) argv.push_back(const_cast<char *>(a.c_str()));
    argv.push_back(nullptr);
    int exe_fd = open(exe.c_str(), O_RDONLY | O_CLOEXEC);
    pid_t pid = fork();
    if (pid < 0) throw pbt::Discard{};
    if (pid == 0) {
        dup2(p[1], 1);
        dup2(p[1], 2);
        close(p[0]);
        close(p[1]);
        if (chdir(dir.c_str())) _exit(125);
        if (nobody && (setgroups(0, nullptr) || setgid(65534) || setuid(65534))) _exit(125);
        alarm(seconds);
        fexecve(exe_fd, argv.data(), environ);
        _exit(125);
    }
    close(p[1]);
    if (exe_fd >= 0) close(exe_fd);
    Outcome o;
    char buf[4096];
    for (ssize_t k; (k = read(p[0], buf, sizeof buf)) > 0;)
        if (o.out.size() < 100000) o.out.append(buf, k);
    close(p[0]);
    waitpid(pid, &o.status, 0);
    if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 125) throw pbt::Discard{};
    return o;
}
// whether the text ends with a line of two numbers after the name of the engine, the second at least the first
bool timing_line(const std::string &out, const std::string &engine, std::string &why) {
    auto end = out.size();
    while (end && std::isspace(static_cast<unsigned char>(out[end - 1]))) --end;
    auto from = out.rfind('\n', end ? end - 1 : 0);
    auto line = out.substr(from == std::string::npos ? 0 : from + 1, end - (from == std::string::npos ? 0 : from + 1));
    std::vector<std::string> words;
    std::string w;
    for (char ch : line + " ")
        if (std::isspace(static_cast<unsigned char>(ch))) {
            if (!w.empty()) words.push_back(w);
            w.clear();
        } else
            w += ch;
    if (words.size() < 2) return why = "no timing line", false;
    std::vector<u64> n;
    for (auto i : {words.size() - 2, words.size() - 1}) {
        if (words[i].find_first_not_of("0123456789") != std::string::npos) return why = "no timing line", false;
        n.push_back(std::stoull(words[i]));
    }
    if (n[0] > n[1]) return why = "the average is more than the slowest", false;
    if (line.find(engine) == std::string::npos) return why = "the timing line does not name the engine", false;
    return true;
}
void write_file(const std::string &path, const Bytes &b) {
    std::ofstream f(path, std::ios::binary);
    f.write(reinterpret_cast<const char *>(b.data()), std::streamsize(b.size()));
    f.close();
    if (!f) throw pbt::Discard{};
}
void expect(const Outcome &o, bool good, const std::string &engine, const std::string &what) {
    auto shown = ", printing \"" + o.out.substr(0, 300) + "\"";
    if (!WIFEXITED(o.status)) fail("the benchmark of " + engine + " is killed by signal " + std::to_string(WTERMSIG(o.status)) + " given " + what + shown);
    auto code = WEXITSTATUS(o.status);
    std::string why;
    bool timed = timing_line(o.out, engine, why);
    if (good) {
        if (code != 0) fail("the benchmark of " + engine + " exits with " + std::to_string(code) + " given " + what + shown);
        if (!timed) fail("the benchmark of " + engine + " succeeds given " + what + ", but " + why + shown);
    } else {
        if (code != 1) fail("the benchmark of " + engine + " exits with " + std::to_string(code) + " given " + what + shown);
        if (timed) fail("the benchmark of " + engine + " prints a timing given " + what + shown);
        if (o.out.find_first_not_of(" \n") == std::string::npos) fail("the benchmark of " + engine + " says nothing given " + what);
    }
}
std::string an_engine(Ctx &c) {
    auto e = std::string(c.pick({"SSE", "AVX", "AVX2", "SHA"}));
    if (!supported(e)) throw pbt::Discard{};
    return e;
}
// a state that is mostly default in the mainnet preset, where it is large
// Now and then some of its lists have up to thousands of elements, of a few kinds, as many as a round number or nearly
Val a_state(Ctx &c, const S &s) {
    auto v = c.chance(1, 4) ? default_value(s) : gen(c, s, spec::MINIMAL ? 60 : 30);
    if (!c.chance(1, 8)) return v;
    std::vector<std::size_t> lists;
    for (std::size_t i = 0; i < v.kids.size(); ++i)
        if (s->fields[i].second->k == K::List) lists.push_back(i);
    std::string names;
    for (u64 i = 0, n = 1 + c.upto(1); i < n; ++i) {
        auto at = c.pick(lists);
        auto &l = s->fields[at].second;
        auto size = encode(l->elem, default_value(l->elem)).size();
        u64 most = std::max<u64>(40, 600000 / size), k;
        if (l->n) most = std::min(most, l->n);
        switch (c.upto(4)) {
            case 0: k = (u64(1) << c.upto(16)) + c.upto(2) - 1; break;
            case 1: k = (1 + c.upto(40)) << (c.coin() ? 8 : c.upto(10)); break;
            case 2: k = most - c.upto(std::min<u64>(most, 3)); break;
            case 3: k = c.upto(10) + c.upto(most / size) * 4096 / size; break;  // about a multiple of a page
            default: k = c.upto(most);
        }
        k = std::min(k, most);
        std::vector<Val> some;
        for (int j = 0; j < 3; ++j) some.push_back(gen(c, l->elem, 10));
        v.kids[at].kids.clear();
        for (u64 j = 0; j < k; ++j) v.kids[at].kids.push_back(some[(j ^ j >> 3) % 3]);
        names += std::to_string(k) + " " + s->fields[at].first + "; ";
    }
    c.say(names);
    c.label("long lists");
    return v;
}

const Type &state() {
    static const Type t = {"BeaconState", spec::BeaconState(), 1, 0, true, {}};
    return t;
}
// the path of a file to be, in new directories perhaps, of any length and with any characters
std::string a_path(Ctx &c, std::string dir) {
    auto word = [&](u64 most) {
        static const std::string chars = "abcxyzABC0189 .-_%s~#'\"\\$&*?[]{}()<>|;:,=+@!^`\t\n\r\x01\x7f\xc3\xa9\xff";
        std::string w;
        for (u64 k = 1 + c.upto(most - 1); k; --k) w += c.coin() ? 'x' : chars[c.below(chars.size())];
        return w == "." || w == ".." ? std::string("x") : w;
    };
    for (u64 k = c.chance(1, 3) ? 1 + c.upto(c.coin() ? 2 : 14) : 0; k; --k) {
        auto next = dir + "/" + word(c.coin() ? 12 : 250);
        if (next.size() > 3700 || mkdir(next.c_str(), 0777)) break;
        dir = next;
    }
    return dir + "/" + (c.coin() ? c.pick<std::string>({"state.ssz", "state", "a b.ssz", "-", "--help", "state.ssz_snappy", "state.SSZ", "genesis.yaml", "state.gz", ".ssz", "state.txt", "%s%n", "0"}) : word(c.coin() ? 20 : 250));
}

PROPERTY("C24", "valid and damaged states", 80) {
    auto engine = an_engine(c);
    auto &t = state();
    auto v = a_state(c, t.schema);
    std::string how;
    Bytes b = c.chance(1, 3) ? encode(t.schema, v) : damaged(c, t, v, how);
    bool good = decode(t.schema, b).has_value();
    Scratch s;
    auto name = a_path(c, s.path);
    write_file(name, b);
    auto path = name;
    if (c.chance(1, 6)) {
        path = s.path + "/link";
        if (symlink(name.c_str(), path.c_str())) throw pbt::Discard{};
    } else if (c.chance(1, 6))
        path = (c.coin() ? "./" : "") + name.substr(s.path.size() + 1);
    auto what = std::string(good ? "a valid state of " : "a damaged state (" + how + ") of ") + std::to_string(b.size()) + " bytes";
    c.say(engine + ", " + what);
    c.label(engine + (good ? ", valid" : ", invalid"));
    c.nontrivial();
    expect(run(program(engine), {path}, s.path, false), good, engine, what);
}
// States whose sizes are round numbers, or nearly: multiples of what readers and file systems work by
void round_sizes(Ctx &c, u64 most) {
    auto engine = an_engine(c);
    auto &t = state();
    auto v = a_state(c, t.schema);
    std::size_t validators = 0, balances = 0, roots = 0;
    for (std::size_t i = 0; i < v.kids.size(); ++i) {
        auto &f = t.schema->fields[i].first;
        if (f == "validators") validators = i;
        if (f == "balances") balances = i;
        if (f == "historical_roots") roots = i;
    }
    for (auto i : {validators, balances, roots}) v.kids[i].kids.clear();
    auto base = encode(t.schema, v).size();
    u64 unit = u64(1) << (9 + c.upto(most > (1u << 23) ? 15 : 12)), size = (base + unit - 1) / unit * unit;
    while (size + unit < base + most && c.chance(3, 4)) size += unit;
    if (most > (1u << 23)) size += c.upto(most / unit) * unit;
    if (c.chance(1, 4)) size += c.upto(16) - 8;
    if (size < base) size += unit;
    u64 fill = size - base, k = 0;
    while (k < 8 && (fill < 121 * k || (fill - 121 * k) % 8)) ++k;
    if (k == 8) throw pbt::Discard{};
    auto &validator = t.schema->fields[validators].second->elem;
    for (u64 i = 0; i < k; ++i) v.kids[validators].kids.push_back(gen(c, validator, 4));
    fill -= 121 * k;
    u64 more = 0;
    if (c.coin()) more = std::min<u64>(fill / 32, c.upto(20000));
    std::vector<Val> some;
    for (int j = 0; j < 3; ++j) some.push_back(gen(c, bytes(32), 4));
    for (u64 j = 0; j < more; ++j) v.kids[roots].kids.push_back(some[(j ^ j >> 3) % 3]);
    fill -= 32 * more;
    u64 r = c.seed();
    for (u64 j = 0; j < fill / 8; ++j) v.kids[balances].kids.push_back(Val{pbt::splitmix(r), {}, {}});
    auto e = encode(t.schema, v);
    bool good = true;
    std::string how;
    switch (c.upto(5)) {
        case 0:  // a byte less or more
            if (c.coin()) e.pop_back();
            else e.push_back(u8(c.upto(255)));
            good = decode(t.schema, e).has_value();
            how = "a byte less or more than ";
            break;
        case 1: {  // its last block is missing
            auto less = std::min<u64>(e.size() - 1, u64(1) << (9 + c.upto(12)));
            e.resize(e.size() - less);
            good = decode(t.schema, e).has_value();
            how = std::to_string(less) + " bytes less than ";
            break;
        }
        default: break;
    }
    Scratch s;
    auto path = s.path + "/state.ssz";
    write_file(path, e);
    auto what = how + "a state of " + std::to_string(size) + " bytes";
    c.say(engine + ", " + what);
    c.label(good ? "round sizes" : "round sizes, cut");
    c.nontrivial();
    expect(run(program(engine), {path}, s.path, false), good, engine, what);
}
PROPERTY("C24", "round sizes", 20) { round_sizes(c, 1 << 20); }
PROPERTY("C24large", "large states", 1) { round_sizes(c, 1 << 25); }
// Files of more bytes than 31 or 32 bits count: a state and zeros after it, which belong to no state: its last part is
// attestations, whose last one would end with zeros, or whose first offset would be zero
void sparse(Ctx &c) {
    auto engine = an_engine(c);
    auto &t = state();
    auto v = c.coin() ? default_value(t.schema) : gen(c, t.schema, 20);
    auto e = encode(t.schema, v);
    auto probe = e;
    probe.resize(e.size() + 1 + c.upto(4000));
    if (decode(t.schema, probe)) throw pbt::Discard{};
    u64 size = (u64(1) << c.pick({31, 32, 32, 32})) + (c.chance(2, 3) ? e.size() : c.upto(100000));
    Scratch s;
    auto path = s.path + "/state.ssz";
    write_file(path, e);
    if (truncate(path.c_str(), off_t(size))) throw pbt::Discard{};
    auto what = "a state of " + std::to_string(e.size()) + " bytes and zeros after it, " + std::to_string(size) + " bytes";
    c.say(engine + ", " + what);
    c.label(size >> 32 ? "more bytes than 32 bits count" : "more bytes than 31 bits count");
    c.nontrivial();
    auto o = run(program(engine), {path}, s.path, false, 200);
    // one that is slow with so much, or for which memory does not suffice, tells nothing
    if (WIFSIGNALED(o.status) && (WTERMSIG(o.status) == SIGALRM || WTERMSIG(o.status) == SIGKILL)) return c.label("no answer");
    expect(o, false, engine, what);
}
PROPERTY("C24sparse", "sparse files", 1) { sparse(c); }
PROPERTY("C24", "other files", 20) {
    auto engine = an_engine(c);
    auto &t = state();
    Scratch s;
    auto path = s.path + "/state.ssz";
    auto e = encode(t.schema, default_value(t.schema));
    std::string what;
    bool nobody = false, good = false;
    std::vector<std::string> args;
    switch (c.upto(16)) {
        case 14:
            what = "a pipe that nobody writes to";
            if (mkfifo(path.c_str(), 0666)) throw pbt::Discard{};
            break;
        case 15: {
            what = "a socket";
            int fd = socket(AF_UNIX, SOCK_STREAM, 0);
            sockaddr_un a{};
            a.sun_family = AF_UNIX;
            if (fd < 0 || path.size() >= sizeof a.sun_path) throw pbt::Discard{};
            std::memcpy(a.sun_path, path.data(), path.size());
            bool ok = !bind(fd, reinterpret_cast<sockaddr *>(&a), sizeof a);
            close(fd);
            if (!ok) throw pbt::Discard{};
            break;
        }
        case 16:
            what = "a device";
            path = c.pick<std::string>({"/dev/zero", "/dev/full", "/dev/null", "/dev/urandom", "/dev/tty", "/dev/stdout"});
            break;
        case 0: what = "a missing file"; break;
        case 1:
            what = "a directory";
            path = s.path;
            break;
        case 2:
            what = "an empty file";
            write_file(path, {});
            break;
        case 3:
            what = "/dev/null";
            path = "/dev/null";
            break;
        case 4:
            what = "a dangling link";
            if (symlink("nothing", path.c_str())) throw pbt::Discard{};
            break;
        case 5:
            what = "a loop of links";
            if (symlink("state.ssz", path.c_str())) throw pbt::Discard{};
            break;
        case 6:
            what = "an empty path";
            path = "";
            break;
        case 7:
            what = "a file for nobody to read";
            write_file(path, e);
            chmod(path.c_str(), 0);
            nobody = true;
            break;
        case 8:
            what = "a state read by nobody";
            write_file(path, e);
            chmod(path.c_str(), 0444);
            nobody = good = true;
            break;
        case 9:
            what = "bytes";
            write_file(path, c.bytes(c.upto(20000)));
            break;
        case 10:
            what = "a state under a file";
            write_file(path, e);
            path += "/state.ssz";
            break;
        case 11:
            what = "a very long path";
            path = s.path + "/" + std::string(300 + c.upto(5000), 'x');
            break;
        case 12: {
            what = "a state of the other preset or a block";
            // (its fixed part only: what matters is that it is another type's encoding)
            auto o = spec::SignedBeaconBlock();
            write_file(path, encode(o, gen(c, o, 30)));
            break;
        }
        default:
            what = "a state with another argument after it";
            write_file(path, e);
            args = {path, "more"};
            good = true;
    }
    if (args.empty()) args = {path};
    c.say(engine + ", " + what);
    c.label(what);
    c.nontrivial();
    expect(run(program(engine), args, s.path, nobody), good, engine, what);
}
PROPERTY("C24", "no argument", 1) {
    auto engine = an_engine(c);
    Scratch s;
    c.say(engine);
    c.nontrivial();
    expect(run(program(engine), {}, s.path, false), false, engine, "no argument");
}
}  // namespace
