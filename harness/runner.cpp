// Runs the registered checks of a property: several forked workers, each executing its share of the cases; shrinks
// and confirms the first failure. Prints a JSON report on the file given with --out.
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <unordered_set>

#include "gen.hpp"

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define PBT_SANITIZED 1
#endif
#endif

extern "C" const char *__asan_default_options() {
    return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2048:"
           "detect_stack_use_after_return=1:handle_segv=1:symbolize=1";
}
extern "C" const char *__ubsan_default_options() { return "abort_on_error=1:halt_on_error=1:print_stacktrace=1"; }
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1"; }

namespace pbt {
std::vector<Property> &registry() {
    static std::vector<Property> r;
    return r;
}
std::vector<u64> &dictionary() {
    static std::vector<u64> d = [] {
        std::vector<u64> r;
        const char *e = getenv("MAMMON_LITERALS");
        std::istringstream s(e ? e : "");
        for (u64 x; s >> x;) r.push_back(x);
        return r;
    }();
    return d;
}
static std::map<std::string, u64> g_labels, g_counts;
void label_add(const std::string &l) { ++g_labels[l]; }
void count(const std::string &w, u64 n) { g_counts[w] += n; }
}  // namespace pbt

using namespace pbt;

static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static int g_case_seconds = 60;

static Shared *map_shared() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(3);
    }
    return static_cast<Shared *>(p);
}

static void set_text(Shared *sh, const std::string &s) {
    auto n = std::min(s.size(), TEXT_MAX - 1);
    std::memcpy(sh->text, s.data(), n);
    sh->text[n] = 0;
}

// Runs one case in this process. Returns false if it failed (the message is in sh->text)
static bool run_case(const Property &p, Ctx &c, Shared *sh) {
    sh->failed = 0;
    sh->text[0] = 0;
    sh->running = 1;
    itimerval tv{{0, 0}, {g_case_seconds, 0}};
    setitimer(ITIMER_REAL, &tv, nullptr);
    bool ok = true;
    try {
        p.body(c);
    } catch (const Fail &f) {
        set_text(sh, f.what());
        ok = false;
    } catch (const Discard &) {
    } catch (const std::exception &e) {
        set_text(sh, std::string("unexpected exception: ") + e.what());
        ok = false;
    }
    itimerval off{};
    setitimer(ITIMER_REAL, &off, nullptr);
    sh->running = 0;
    sh->failed = ok ? 0 : 1;
    return ok;
}

static std::string describe_status(int st) {
    std::ostringstream o;
    if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGALRM)
            o << "no result within " << g_case_seconds << " s";
        else
            o << "killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
    } else
        o << "exit status " << WEXITSTATUS(st);
    return o.str();
}

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += char(ch);
        } else if (ch == '\n')
            o += "\\n";
        else if (ch < 32 || ch > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else
            o += char(ch);
    }
    return o + "\"";
}

struct Outcome {
    bool failed;
    std::string text;
    std::vector<u64> tape;
};

static std::string g_stderr_path;

static std::string tail_of_stderr() {
    std::ifstream f(g_stderr_path);
    std::string line, out;
    int n = 0;
    while (std::getline(f, line) && n < 40) {
        if (line.find("ERROR:") != std::string::npos || line.find("runtime error") != std::string::npos ||
            line.find("WARNING: ThreadSanitizer") != std::string::npos || line.find("SUMMARY") != std::string::npos ||
            line.find("    #") != std::string::npos) {
            out += line + "\n";
            ++n;
        }
    }
    return out;
}

// Runs a tape in a child process
static Outcome run_tape(const Property &p, const std::vector<u64> &tape, bool keep_err = false) {
    static Shared *sh = map_shared();
    std::vector<u64> copy = tape;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(keep_err ? g_stderr_path.c_str() : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0) dup2(fd, 2);
        int nul = open("/dev/null", O_WRONLY);
        if (nul >= 0) dup2(nul, 1);
        Ctx c = Ctx::replay(copy.data(), copy.size(), sh);
        bool ok = run_case(p, c, sh);
        _exit(ok ? 0 : 1);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {
    }
    Outcome o;
    o.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (o.failed) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && sh->failed)
            o.text = sh->text;
        else
            o.text = describe_status(st) + (keep_err ? "\n" + tail_of_stderr() : "");
    }
    o.tape.assign(sh->tape, sh->tape + std::min<u64>(u64(sh->n), TAPE_MAX));
    return o;
}

// One case of a history: a sub check and the index its choices are seeded by
struct Item {
    const Property *p;
    u64 seed, index;
};

static u64 case_seed(const Property &p, u64 seed, u64 i) { return mix(mix(seed, fnv(p.id + "/" + p.name)), i); }

// Runs the cases of a history one after another in a child process; fails if one of them does
static Outcome run_items(const std::vector<Item> &items, bool keep_err = false) {
    static Shared *sh = map_shared();
    sh->failed = 0;
    sh->cases_done = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(keep_err ? g_stderr_path.c_str() : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0) dup2(fd, 2);
        for (std::size_t k = 0; k < items.size(); ++k) {
            sh->cases_done = k + 1;
            Ctx c = Ctx::random(case_seed(*items[k].p, items[k].seed, items[k].index), sh);
            if (!run_case(*items[k].p, c, sh)) _exit(1);
        }
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {
    }
    Outcome o;
    o.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (o.failed) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && sh->failed)
            o.text = sh->text;
        else
            o.text = describe_status(st) + (keep_err ? "\n" + tail_of_stderr() : "");
        o.tape = {sh->cases_done};
    }
    return o;
}

static bool smaller(const std::vector<u64> &a, const std::vector<u64> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
}

static void shrink(const Property &p, std::vector<u64> &best, double budget, u64 &attempts) {
    double end = now() + budget;
    attempts = 0;
    auto attempt = [&](const std::vector<u64> &t) {
        if (now() > end || attempts > 20000) return false;
        ++attempts;
        auto o = run_tape(p, t);
        if (!o.failed) return false;
        auto tape = o.tape;
        while (!tape.empty() && tape.back() == 0) tape.pop_back();
        if (!smaller(tape, best)) return false;
        best = tape;
        return true;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        // truncate
        for (std::size_t keep = best.size() / 2; keep < best.size();) {
            auto t = best;
            t.resize(keep);
            if (attempt(t)) {
                progress = true;
                keep = best.size() / 2;
            } else {
                auto step = (best.size() - keep) / 2;
                if (!step || best.size() - keep <= 1) break;
                keep += step;
            }
        }
        // delete and zero blocks
        for (std::size_t k : {64, 16, 8, 4, 2, 1}) {
            for (std::size_t i = 0; i < best.size() && now() < end;) {
                auto t = best;
                auto e = std::min(t.size(), i + k);
                t.erase(t.begin() + i, t.begin() + e);
                if (attempt(t)) {
                    progress = true;
                    continue;
                }
                t = best;
                bool any = false;
                for (auto j = i; j < e; ++j) {
                    any |= t[j] != 0;
                    t[j] = 0;
                }
                if (any && attempt(t)) progress = true;
                i += k;
            }
        }
        // lower values
        for (std::size_t i = 0; i < best.size() && now() < end; ++i) {
            u64 lo = 0;
            while (i < best.size() && lo < best[i] && now() < end) {
                auto t = best;
                t[i] = lo + (best[i] - lo) / 2;
                if (attempt(t))
                    progress = true;
                else {
                    lo = t[i] + 1;
                }
            }
        }
    }
}

struct WorkerReport {
    u64 cases = 0;
    std::map<std::string, u64> labels, counts;
    std::vector<std::string> samples;
};

// The cases of each sub check are run in this many rounds, so that a time limit cuts all of them alike
static const u64 ROUNDS = 16;
// the first case of a round that is worker w's: the least i >= cases * round / ROUNDS with i = w modulo W (w: shifted for each sub check)
static u64 round_start(u64 cases, u64 round, u64 w, u64 W) {
    u64 a = cases * round / ROUNDS;
    return a + (w % W + W - a % W) % W;
}

// The worker: runs the cases i = w, w + W, ... of each sub check, until a failure
static void worker(int w, int W, const std::vector<const Property *> &props, const std::vector<u64> &cases, u64 seed,
                   double deadline, Shared *sh, const std::string &base) {
    int fd = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) dup2(fd, 2);
    std::unordered_set<u64> distinct;
    u64 done = 0, nontrivial = 0;
    std::map<std::string, std::pair<u64, u64>> per;  // name -> cases, nontrivial
    std::vector<std::string> samples;
    bool failed = false, timed_out = false;
    auto flush = [&]() {
        std::ofstream f(base + ".rep");
        f << "cases " << done << "\nnontrivial " << nontrivial << "\n";
        if (timed_out) f << "timeout 1\n";
        for (auto &[n, v] : per) f << "per " << v.first << " " << v.second << " " << n << "\n";
        for (auto &[n, v] : g_labels) f << "label " << v << " " << n << "\n";
        for (auto &[n, v] : g_counts) f << "count " << v << " " << n << "\n";
        for (auto &s : samples) f << "sample " << s << "\n";
        std::ofstream d(base + ".dis", std::ios::binary);
        for (auto h : distinct) d.write(reinterpret_cast<const char *>(&h), 8);
    };
    std::map<std::size_t, u64> sampled;
    for (u64 round = 0; round < ROUNDS && !failed && !timed_out; ++round)
    for (std::size_t k = 0; k < props.size() && !failed && !timed_out; ++k) {
        u64 ps = fnv(props[k]->id + "/" + props[k]->name);
        u64 &nsamples = sampled[k];
        for (u64 i = round_start(cases[k], round, w + k, W); i < cases[k] * (round + 1) / ROUNDS; i += W) {
            if (now() > deadline) {
                timed_out = true;
                break;
            }
            sh->case_index = (u64(k) << 40) | i;
            Ctx c = Ctx::random(case_seed(*props[k], seed, i), sh);
            bool ok = run_case(*props[k], c, sh);
            ++done;
            auto &pr = per[props[k]->name];
            ++pr.first;
            if (c.nontrivial_) {
                u64 n = std::min<u64>(u64(sh->n), TAPE_MAX);
                u64 h = fnv(sh->tape, n * 8, ps);
                if (distinct.insert(h).second) {
                    ++nontrivial;
                    ++pr.second;
                    if (w == 0 && nsamples < 4 && (i / W) % 3 == 0 && !c.text_.empty()) {
                        auto t = props[k]->name + ": " + c.text_;
                        std::replace(t.begin(), t.end(), '\n', ' ');
                        samples.push_back(t);
                        ++nsamples;
                    }
                }
            }
            if (!ok) {
                failed = true;
                break;
            }
            sh->cases_done = done;
        }
    }
    flush();
    _exit(failed ? 1 : 0);
}

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerRunDriver(int *argc, char ***argv, int (*)(const uint8_t *, size_t));
// Coverage-guided: libFuzzer's inputs are the choices. A case that fails ends the process like in worker()
static struct {
    const std::vector<const Property *> *props;
    std::vector<u64> share;  // of the first byte, cumulative
    Shared *sh;
    std::string base;
    std::unordered_set<u64> distinct;
    std::map<std::string, std::pair<u64, u64>> per;
    std::vector<std::string> samples;
    u64 done = 0, nontrivial = 0, executed = 0;
} F;
static void fuzz_flush() {
    std::ofstream f(F.base + ".rep");
    f << "cases " << F.done << "\nnontrivial " << F.nontrivial << "\n";
    for (auto &[n, v] : F.per) f << "per " << v.first << " " << v.second << " " << n << "\n";
    for (auto &[n, v] : g_labels) f << "label " << v << " " << n << "\n";
    for (auto &[n, v] : g_counts) f << "count " << v << " " << n << "\n";
    for (auto &s : F.samples) f << "sample " << s << "\n";
    std::ofstream d(F.base + ".dis", std::ios::binary);
    for (auto h : F.distinct) d.write(reinterpret_cast<const char *>(&h), 8);
}
static void fuzz_case(std::size_t k, Ctx &c) {
    auto &p = *(*F.props)[k];
    F.sh->case_index = (u64(k) << 40) | F.done;
    bool ok = run_case(p, c, F.sh);
    ++F.done;
    ++F.per[p.name].first;
    if (c.nontrivial_) {
        u64 h = fnv(F.sh->tape, std::min<u64>(u64(F.sh->n), TAPE_MAX) * 8, fnv(p.id + "/" + p.name));
        if (F.distinct.insert(h).second) {
            ++F.nontrivial;
            ++F.per[p.name].second;
            if (F.samples.size() < 4 && F.nontrivial % 997 == 500 && !c.text_.empty()) {
                auto t = p.name + ": " + c.text_;
                std::replace(t.begin(), t.end(), '\n', ' ');
                F.samples.push_back(t);
            }
        }
    }
    if (!ok) {
        fuzz_flush();
        _exit(1);
    }
    F.sh->cases_done = F.done;
}
static int fuzz_one(const uint8_t *data, size_t size) {
    if (!size) return 0;
    std::size_t k = 0;
    while (k + 1 < F.share.size() && data[0] >= F.share[k]) ++k;
    Ctx c = Ctx::fuzz(data + 1, size - 1, F.sh);
    fuzz_case(k, c);
    return 0;
}
static void fuzz_worker(int w, const std::vector<const Property *> &props, u64 seed, double deadline, Shared *sh,
                        const std::string &base, const std::string &corpus) {
    int fd = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) dup2(fd, 2);
    F.props = &props;
    F.sh = sh;
    F.base = base;
    double sum = 0, at = 0;
    for (auto *p : props) sum += p->weight;
    for (auto *p : props) F.share.push_back(u64((at += p->weight) / sum * 256 + 0.5));
    // random cases to start from
    double half = now() + (deadline - now()) / 4;
    for (int i = 0; i < 120 && now() < half; ++i) {
        u64 r = mix(mix(seed, 0xf022ull + w), i), first = r & 255;
        std::size_t k = 0;
        while (k + 1 < F.share.size() && first >= F.share[k]) ++k;
        Bytes b{u8(first)};
        Ctx c = Ctx::random(mix(r, 1), sh);
        c.record(&b);
        fuzz_case(k, c);
        if (b.size() > 6000) continue;
        std::ofstream(corpus + "/" + std::to_string(w) + "." + std::to_string(i), std::ios::binary)
            .write(reinterpret_cast<const char *>(b.data()), b.size());
    }
    std::vector<std::string> a{"fuzz", "-seed=" + std::to_string(1 + mix(seed, w) % 1000000007),
                               "-max_total_time=" + std::to_string(std::max(1, int(deadline - now()))), "-timeout=0",
                               "-rss_limit_mb=0", "-malloc_limit_mb=0", "-max_len=8192", "-handle_abrt=0", "-handle_segv=0",
                               "-handle_bus=0", "-handle_ill=0", "-handle_fpe=0", "-handle_int=0", "-handle_term=0", "-detect_leaks=0",
                               "-reload=1", "-print_final_stats=0", "-artifact_prefix=" + base + ".", "-use_value_profile=" + std::to_string(w & 1),
                               corpus};
    std::vector<char *> v;
    for (auto &x : a) v.push_back(x.data());
    v.push_back(nullptr);
    int n = int(a.size());
    char **av = v.data();
    atexit(fuzz_flush);
    LLVMFuzzerRunDriver(&n, &av, fuzz_one);
    exit(0);
}
#endif

int main(int argc, char **argv) {
    std::string id, out, replay, sub, tmp = "/tmp";
    u64 seed = 1, cases = 1000;
    int W = 8;
    double tlimit = 300, shrink_s = 60;
    bool list = false, single = false, fuzz = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--prop") id = val();
        else if (a == "--sub") sub = val();
        else if (a == "--seed") seed = std::stoull(val());
        else if (a == "--cases") cases = std::stoull(val());
        else if (a == "--workers") W = std::stoi(val());
        else if (a == "--time") tlimit = std::stod(val());
        else if (a == "--shrink") shrink_s = std::stod(val());
        else if (a == "--case-seconds") g_case_seconds = std::stoi(val());
        else if (a == "--out") out = val();
        else if (a == "--tmp") tmp = val();
        else if (a == "--replay") replay = val();
        else if (a == "--list") list = true;
        else if (a == "--fuzz") fuzz = true;
        else if (a == "--single") single = true;
        else {
            std::cerr << "unknown option " << a << "\n";
            return 3;
        }
    }
    if (list) {
        for (auto &p : registry()) std::cout << p.id << " " << p.name << " " << p.weight << "\n";
        return 0;
    }
    std::sort(registry().begin(), registry().end(),
              [](const Property &a, const Property &b) { return std::tie(a.id, a.name) < std::tie(b.id, b.name); });
    std::vector<const Property *> props;
    for (auto &p : registry())
        if (p.id == id && (sub.empty() || p.name == sub)) props.push_back(&p);
    if (props.empty()) {
        std::cerr << "no such property " << id << "\n";
        return 3;
    }
    g_stderr_path = tmp + "/replay." + std::to_string(getpid()) + ".err";

    if (!replay.empty()) {  // lines "tape <sub check>" + choices, or "case <seed> <index> <sub check>"
        std::ifstream f(replay);
        std::string line;
        std::vector<Item> items;
        while (std::getline(f, line)) {
            std::istringstream s(line);
            std::string kind, name;
            s >> kind;
            u64 sd = 0, ix = 0;
            if (kind == "case") s >> sd >> ix;
            std::getline(s, name);
            if (!name.empty()) name = name.substr(1);
            const Property *p = nullptr;
            for (auto *q : props)
                if (q->name == name) p = q;
            if (!p) {
                std::cerr << "no such sub check " << name << "\n";
                return 3;
            }
            if (kind == "case") {
                items.push_back({p, sd, ix});
                continue;
            }
            std::vector<u64> tape;
            std::getline(f, line);
            std::istringstream t(line);
            u64 v;
            while (t >> v) tape.push_back(v);
            if (single) {  // in this process, for a debugger
                Shared *sh = map_shared();
                Ctx c = Ctx::replay(tape.data(), tape.size(), sh);
                bool ok = run_case(*p, c, sh);
                std::cout << c.text_ << "\n" << (ok ? "passed" : sh->text) << "\n";
                return ok ? 0 : 1;
            }
            auto o = run_tape(*p, tape, true);
            std::cout << (o.failed ? "FAILED: " + o.text : std::string("passed")) << "\n";
            unlink(g_stderr_path.c_str());
            return o.failed ? 1 : 0;
        }
        auto o = run_items(items, true);
        std::cout << (o.failed ? "FAILED: " + o.text : std::string("passed")) << "\n";
        unlink(g_stderr_path.c_str());
        return o.failed ? 1 : 0;
    }

    double wsum = 0;
    for (auto *p : props) wsum += p->weight;
    std::vector<u64> n;
    for (auto *p : props) n.push_back(std::max<u64>(1, u64(double(cases) * p->weight / wsum + 0.5)));

    double start = now(), deadline = start + tlimit;
    std::vector<pid_t> pids(W);
    std::vector<Shared *> sh(W);
    std::vector<std::string> base(W);
    std::vector<bool> alive(W, true);
    for (int w = 0; w < W; ++w) {
        sh[w] = map_shared();
        base[w] = tmp + "/w" + std::to_string(getpid()) + "." + std::to_string(w);
    }
    fflush(stdout);
    std::string corpus = tmp + "/corpus" + std::to_string(getpid());
    if (fuzz) mkdir(corpus.c_str(), 0700);
    for (int w = 0; w < W; ++w) {
        pids[w] = fork();
#ifdef PBT_FUZZ
        if (pids[w] == 0 && fuzz) fuzz_worker(w, props, seed, deadline, sh[w], base[w], corpus);
#endif
        if (pids[w] == 0) worker(w, W, props, n, seed, deadline, sh[w], base[w]);
    }
    int bad = -1, left = W;
    std::string badtext, error;
    while (left) {
        int st;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        for (int w = 0; w < W; ++w)
            if (pids[w] == p) {
                alive[w] = false;
                --left;
                bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
                bool fail = WIFEXITED(st) && WEXITSTATUS(st) == 1 && sh[w]->failed;
                bool killed = bad >= 0 && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
                if (ok || killed) continue;
                if (!fail && !sh[w]->running) {
                    error = "worker died outside a case: " + describe_status(st);
                    continue;
                }
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
                    error = "worker killed";
                    continue;
                }
                if (bad < 0) {
                    bad = w;
                    badtext = fail ? std::string(sh[w]->text) : describe_status(st);
                    for (int v = 0; v < W; ++v)
                        if (alive[v]) kill(pids[v], SIGKILL);
                }
            }
    }

    // collect
    u64 total = 0;
    bool timed_out = false;
    std::unordered_set<u64> distinct;
    std::map<std::string, u64> labels, counts;
    std::map<std::string, std::pair<u64, u64>> per;
    std::vector<std::string> samples;
    for (int w = 0; w < W; ++w) {
        std::ifstream f(base[w] + ".rep");
        std::string line;
        bool have = false;
        while (std::getline(f, line)) {
            have = true;
            std::istringstream s(line);
            std::string k, rest;
            s >> k;
            if (k == "sample") {
                std::getline(s, rest);
                samples.push_back(rest.substr(1));
                continue;
            }
            u64 v;
            s >> v;
            if (k == "cases") total += v;
            else if (k == "timeout") timed_out = true;
            else if (k == "per") {
                u64 v2;
                s >> v2;
                std::getline(s, rest);
                per[rest.substr(1)].first += v;
                per[rest.substr(1)].second += v2;
            } else if (k == "label") {
                std::getline(s, rest);
                labels[rest.substr(1)] += v;
            } else if (k == "count") {
                std::getline(s, rest);
                counts[rest.substr(1)] += v;
            }
        }
        if (!have) total += sh[w]->cases_done;
        std::ifstream d(base[w] + ".dis", std::ios::binary);
        u64 h;
        while (d.read(reinterpret_cast<char *>(&h), 8)) distinct.insert(h);
        std::ifstream err(base[w] + ".err");
        while (fuzz && std::getline(err, line)) {  // "#123 DONE cov: 1 ft: 2 corp: 3/4b ..."
            if (line.find(" cov: ") == std::string::npos) continue;
            for (auto what : {"cov: ", "ft: ", "corp: "})
                if (auto at = line.find(what); at != std::string::npos) {
                    auto &x = counts[std::string("libFuzzer ") + what + "most of a worker"];
                    x = std::max<u64>(x, strtoull(line.c_str() + at + strlen(what), nullptr, 10));
                }
        }
        for (auto e : {".rep", ".dis", ".err"}) unlink((base[w] + e).c_str());
    }

    std::string violation;
    if (bad >= 0) {
        u64 ci = sh[bad]->case_index;
        const Property &p = *props[ci >> 40];
        std::vector<u64> tape(sh[bad]->tape, sh[bad]->tape + std::min<u64>(u64(sh[bad]->n), TAPE_MAX));
        auto first = tape;
        std::vector<Item> items;
        // Does the failing case fail again, alone? If not, after the cases that preceded it?
        int again = 0, confirmed = 0;
        u64 attempts = 0;
        Outcome o{};
        double t0 = now();
        o = run_tape(p, tape, true);
        again += o.failed;
        const bool slow = now() - t0 > 5;  // too expensive to repeat it many times
        for (int i = 0; i < 2 && !slow; ++i) again += run_tape(p, tape).failed;
        if (slow && again) {
            confirmed = 1;
        } else if (fuzz && !again) {  // the random cases look for what depends on earlier cases
        } else if (again == 3 || fuzz) {
            shrink(p, tape, shrink_s, attempts);
            for (int i = 0; i < 3; ++i) confirmed += run_tape(p, tape).failed;
            if (confirmed < 3) {
                tape = first;
                confirmed = 3;
            }
            o = run_tape(p, tape, true);
        } else {
            std::vector<Item> all;
            bool there = false;
            for (u64 round = 0; round < ROUNDS && !there; ++round)
                for (std::size_t k = 0; k < props.size() && !there; ++k)
                    for (u64 i = round_start(n[k], round, bad + k, W); i < n[k] * (round + 1) / ROUNDS && !there; i += W) {
                        all.push_back({props[k], seed, i});
                        there = k == (ci >> 40) && i == (ci & ((u64(1) << 40) - 1));
                    }
            if (all.size() > 200000) all.erase(all.begin(), all.end() - 200000);
            std::vector<Item> best;
            for (std::size_t len = 10;; len *= 10) {
                if (len > all.size()) len = all.size();
                std::vector<Item> t(all.end() - len, all.end());
                if (run_items(t).failed && run_items(t).failed) {
                    best = t;
                    break;
                }
                if (len == all.size()) break;
            }
            if (!best.empty()) {  // remove what is not needed
                double end = now() + shrink_s;
                for (std::size_t k = best.size() / 2; k >= 1 && now() < end; k /= 2)
                    for (std::size_t i = 0; i + k < best.size() && now() < end;) {
                        auto t = best;
                        t.erase(t.begin() + i, t.begin() + i + k);
                        ++attempts;
                        if (run_items(t).failed)
                            best = t;
                        else
                            i += k;
                    }
                for (int i = 0; i < 3; ++i) confirmed += run_items(best).failed;
                if (confirmed) {
                    items = best;
                    o = run_items(best, true);
                }
            }
            if (items.empty()) {  // a race, perhaps: how often does it fail?
                again = 0;
                for (int i = 0; i < 10; ++i) again += run_tape(p, tape).failed;
                confirmed = std::min(again, 3);
                o = run_tape(p, tape, true);
            }
        }
        std::ostringstream v;
        v << "{\"sub\":" << jstr(p.name) << ",\"case\":" << (ci & ((u64(1) << 40) - 1)) << ",\"seed\":" << seed
          << ",\"first_message\":" << jstr(badtext) << ",\"message\":" << jstr(o.failed ? o.text : badtext)
          << ",\"confirmed\":" << confirmed << ",\"replays\":" << again << ",\"original_length\":" << first.size()
          << ",\"shrink_attempts\":" << attempts << ",\"tape\":[";
        for (std::size_t i = 0; i < tape.size() && items.empty(); ++i) v << (i ? "," : "") << tape[i];
        v << "],\"history\":[";
        for (std::size_t i = 0; i < items.size(); ++i)
            v << (i ? "," : "") << "[" << jstr(items[i].p->name) << "," << items[i].seed << "," << items[i].index << "]";
        v << "]}";
        violation = v.str();
    }
    unlink(g_stderr_path.c_str());

    std::ostringstream j;
    j << "{\"prop\":" << jstr(id) << ",\"seed\":" << seed << ",\"evaluations\":" << total
      << ",\"distinct_nontrivial\":" << distinct.size() << ",\"time_limit_hit\":" << (timed_out ? "true" : "false")
      << ",\"wall_s\":" << (now() - start) << ",\"checks\":{";
    bool firstp = true;
    for (auto &[k, v] : per) {
        j << (firstp ? "" : ",") << jstr(k) << ":{\"cases\":" << v.first << ",\"distinct_nontrivial\":" << v.second << "}";
        firstp = false;
    }
    j << "},\"labels\":{";
    firstp = true;
    for (auto &[k, v] : labels) {
        j << (firstp ? "" : ",") << jstr(k) << ":" << v;
        firstp = false;
    }
    j << "},\"counts\":{";
    firstp = true;
    for (auto &[k, v] : counts) {
        j << (firstp ? "" : ",") << jstr(k) << ":" << v;
        firstp = false;
    }
    j << "},\"samples\":[";
    for (std::size_t i = 0; i < samples.size(); ++i) j << (i ? "," : "") << jstr(samples[i]);
    j << "],\"error\":" << jstr(error) << ",\"violation\":" << (violation.empty() ? "null" : violation) << "}";
    if (out.empty())
        std::cout << j.str() << "\n";
    else
        std::ofstream(out) << j.str() << "\n";
    if (!violation.empty()) return 1;
    return error.empty() ? 0 : 3;
}
