"""Builds the harness programs from the sources of the repository's working tree.

Objects are kept under /verif/build, named after the hash of everything they are made from (the command, the whole of
the repository's sources, the harness), never after modification times.
"""
import concurrent.futures
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MAMMON_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 4


class BuildError(Exception):
    pass


def read(path):
    with open(path, "rb") as f:
        return f.read()


def repo_files():
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build"))
        for f in sorted(files):
            p = os.path.join(base, f)
            if f.endswith((".cpp", ".hpp", ".h", ".asm", ".inc", ".in", ".c", ".cc", ".S", ".s")):
                if os.path.relpath(p, REPO) != "include/config.hpp":  # generated by the build
                    out.append(p)
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in repo_files():
        h.update(os.path.relpath(p, REPO).encode() + b"\0" + read(p) + b"\0")
    for base, dirs, files in os.walk(HARNESS):
        dirs.sort()
        for f in sorted(files):
            h.update(f.encode() + b"\0" + read(os.path.join(base, f)) + b"\0")
    for f in ("build.py", "plan.py"):
        h.update(read(os.path.join(VERIF, "driver", f)))
    return h.hexdigest()[:20]


def literals():
    """the integers the library's sources mention: a dictionary for the generators"""
    found = set()
    for p in repo_files():
        rel = os.path.relpath(p, REPO)
        if not rel.endswith((".cpp", ".hpp", ".h", ".cc", ".in")) or "/test" in "/" + rel or rel.startswith("bench/"):
            continue
        text = re.sub(r"//[^\n]*|/\*.*?\*/", "", read(p).decode(errors="replace"), flags=re.S)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|0[bB][01']+|[0-9][0-9']*)(?=[uUlLzZ]*\b)", text):
            t = m.group(1).replace("'", "")
            try:
                v = int(t, 8 if re.fullmatch("0[0-7]+", t) else 0)
            except ValueError:
                continue
            if v < 1 << 64:
                found.add(v)
    return " ".join(map(str, sorted(found)[:4000]))


def is_test_or_main(path):
    text = read(path).decode(errors="replace")
    return "acutest.h" in text or re.search(r"^\s*int\s+main\s*\(", text, re.M) is not None


def library_cpp():
    """The library's sources: every .cpp of its directories that is neither a test nor a program"""
    out = []
    for p in repo_files():
        rel = os.path.relpath(p, REPO)
        if not rel.endswith((".cpp", ".cc")) or rel.startswith("bench/") or "/test" in "/" + os.path.dirname(rel):
            continue
        if not is_test_or_main(p):
            out.append(rel)
    return out


def library_asm():
    """The assembly sources that are not included by another one"""
    asm = [os.path.relpath(p, REPO) for p in repo_files() if p.endswith(".asm")]
    included = set()
    for a in asm:
        for m in re.finditer(r'^\s*%include\s+"([^"]+)"', read(os.path.join(REPO, a)).decode(errors="replace"), re.M):
            included.add(os.path.basename(m.group(1)))
    return [a for a in asm if os.path.basename(a) not in included]


# what each kind of program takes of the library
LIBS = {
    "hash": lambda rel: os.path.basename(rel).startswith("hasher"),
    "all": lambda rel: True,
    "none": lambda rel: False,
}

FLAVOURS = {
    # as the repository builds, and with the sanitizers
    "release": ["-O3", "-m64", "-ffast-math"],
    "checked": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
    "debug": ["-O0", "-m64"],
    "ubsan": ["-O1", "-g1", "-fsanitize=undefined", "-fno-sanitize-recover=undefined"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}
# ... with the CPU made up (the library's sources only)
FLAVOURS["fakecpu"] = ["-O1", "-include", os.path.join(HARNESS, "fakecpu.hpp")]
# ... and with what coverage-guided fuzzing follows
FLAVOURS["fuzz"] = FLAVOURS["checked"] + ["-fsanitize=fuzzer-no-link", "-fsanitize-coverage-allowlist=" + os.path.join(HARNESS, "fuzz_allow.txt"),
                                         "-DPBT_FUZZ=1"]
LINK = {"fuzz": ["-fsanitize=address,undefined,fuzzer-no-link"], "checked": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"], "ubsan": ["-fsanitize=undefined"], "release": [], "debug": [],
        "fakecpu": ["-Wl,--wrap=" + f for f in ("sha256_shani", "sha256_8_avx2", "sha256_4_avx", "sha256_1_avx")]}
HARNESS_FLAVOUR = {"release": ["-O1"], "fakecpu": ["-O1"], "debug": ["-O1"], "ubsan": ["-O1"], "checked": FLAVOURS["checked"], "tsan": FLAVOURS["tsan"],
                   "fuzz": FLAVOURS["fuzz"]}


def fuzzer_library():
    r = subprocess.run(["clang++", "-print-file-name=libclang_rt.fuzzer_no_main-x86_64.a"], stdout=subprocess.PIPE, text=True)
    return r.stdout.strip()


class Builder:
    def __init__(self, log=sys.stderr):
        self.log = log
        self.hash = tree_hash()
        self.dir = os.path.join(BUILD, self.hash)
        self.work = {}  # output -> command
        self.links = {}
        self.partial = {}  # output -> what registers it with the whole library
        os.makedirs(self.dir, exist_ok=True)
        self.prune()

    def prune(self):
        """keep the newest few trees"""
        try:
            ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
            ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime, reverse=True)
            for d in ds[4:]:
                if d != self.dir:
                    shutil.rmtree(d, ignore_errors=True)
        except OSError:
            pass

    def gen(self, preset):
        """the configured headers of a preset; returns the directory to include"""
        g = os.path.join(self.dir, "gen-" + preset)
        inc = os.path.join(g, "include")
        if not os.path.exists(os.path.join(inc, "config.hpp")):
            os.makedirs(inc, exist_ok=True)
            t = read(os.path.join(REPO, "config", preset + ".hpp.in")).decode()
            t = t.replace("@CMAKE_SOURCE_DIR@", REPO)
            tmp = os.path.join(inc, "config.hpp.%d" % os.getpid())
            with open(tmp, "w") as f:
                f.write(t)
            os.replace(tmp, os.path.join(inc, "config.hpp"))
        return g

    def obj(self, key, cmd):
        out = os.path.join(self.dir, key + "-" + hashlib.sha256(" ".join(cmd).encode()).hexdigest()[:10] + ".o")
        self.work[out] = cmd + ["-o", out]
        return out

    def cxx(self, src, preset, flavour, defines, harness, std="c++20"):
        g = self.gen(preset)
        flags = HARNESS_FLAVOUR[flavour] if harness else FLAVOURS[flavour]
        cmd = ["clang++", "-std=" + std, "-w", "-pthread", *flags, "-I" + g, "-I" + os.path.join(g, "include"), "-I" + REPO,
               "-I" + os.path.join(REPO, "include"), "-I" + HARNESS,
               "-DPRESET_%s=1" % preset.upper(), *defines, "-c", src]
        name = os.path.relpath(src, HARNESS if harness else REPO).replace("/", "_")
        return self.obj("%s-%s-%s" % (name, preset, flavour), cmd)

    def program(self, name, units, lib="all", preset="minimal", flavour="release", defines=(), repo_units=()):
        """registers a program; returns its path. units: harness sources; lib: which part of the library"""
        objs = [self.cxx(os.path.join(HARNESS, u), preset, flavour, list(defines), True) for u in units]
        for rel in library_cpp():
            if LIBS[lib](rel):
                objs.append(self.cxx(os.path.join(REPO, rel), preset, flavour, list(defines), False))
        for rel in repo_units:
            objs.append(self.cxx(os.path.join(REPO, rel) if not os.path.isabs(rel) else rel, preset, flavour,
                                 list(defines), False))
        for rel in library_asm():
            src = os.path.join(REPO, rel)
            objs.append(self.obj(rel.replace("/", "_"), ["yasm", "-f", "elf64", "-I" + REPO + "/", "-I" + os.path.dirname(src), src]))
        out = os.path.join(self.dir, "%s-%s-%s" % (name, preset, flavour))
        if lib != "all":
            self.partial[out] = lambda: self.program(name, units, "all", preset, flavour, defines, repo_units)
        libs = [] if lib == "hash" else ["-lyaml-cpp", "-lsnappy"]
        if flavour == "fuzz":
            libs.append(fuzzer_library())
        self.links[out] = ["clang++", "-pthread", *LINK[flavour], "-z", "noexecstack", *objs, *libs, "-o", out]
        return out

    @staticmethod
    def run_one(cmd):
        out = cmd[-1]
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(cmd[:-1] + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=REPO)
        if r.returncode:
            return "%s\n%s" % (" ".join(cmd), r.stdout[-4000:])
        os.replace(tmp, out)
        return None

    def build(self):
        def batch(cmds):
            todo = [c for o, c in cmds.items() if not os.path.exists(o)]
            # the longest first
            todo.sort(key=lambda c: ("props_" not in " ".join(c), "fuzz" not in " ".join(c)))
            with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
                errors = [e for e in ex.map(self.run_one, todo) if e]
            if errors:
                raise BuildError("\n".join(errors))
        batch(self.work)
        try:
            batch(self.links)
        except BuildError:  # a program with a part of the library may need all of it by now
            if not self.partial:
                raise
            for whole in list(self.partial.values()):
                whole()
            batch(self.work)
            batch(self.links)
