"""Which programs and how many cases decide each property."""
import os

import build

TYPES = ["types_consensus.cpp", "types_building.cpp", "types_bytes.cpp", "types_bits.cpp", "types_vectors.cpp"]
CORE = ["runner.cpp", "props_consensus.cpp", "props_building.cpp", "props_constants.cpp", "props_limits.cpp"] + TYPES
MATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "props_math.cpp")
PROGRAMS = {
    "hash": {"units": ["runner.cpp", "props_hash.cpp"], "lib": "hash"},
    "core": {"units": CORE},
    "robust": {"units": ["runner.cpp", "props_robust.cpp"] + TYPES},
    "threads": {"units": ["runner.cpp", "props_threads.cpp"] + TYPES},
    "tree": {"units": ["runner.cpp", "props_tree.cpp"]},
    "tree-custom": {"units": ["runner.cpp", "props_tree.cpp"], "defines": ["-DCUSTOM_HASHER"]},
    "consensus": {"units": ["runner.cpp", "props_consensus.cpp", "props_constants.cpp", "types_consensus.cpp"]},
    "predicates": {"units": ["runner.cpp", "props_predicates.cpp"]},
    "bytes": {"units": ["runner.cpp", "props_bytes.cpp", "props_bytes2.cpp"]},
    "values": {"units": ["runner.cpp", "props_values.cpp"]},
    "fakecpu": {"units": ["runner.cpp", "props_fakecpu.cpp"], "lib": "none"},
    "math": {"units": ["runner.cpp"], "repo_units": [MATH], "lib": "none"},
    "bench": {"units": ["runner.cpp", "props_bench.cpp"], "lib": "none"},
}

ASSUMPTIONS = [
    "the compiler, yasm, yaml-cpp and the C++ library are correct",
    "the reference SHA-256, merkleization, SSZ codec and consensus schemas of /verif/harness are right (written from the specifications)",
]


# the benchmark, one program for each engine
BENCH_ENGINES = ("SSE", "AVX", "AVX2", "SHA")


def bench_program(b, engine, preset):
    d = os.path.join(b.dir, "gen-bench")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "bench_sha256_%s.cpp" % engine)
    if not os.path.exists(src):
        with open(os.path.join(build.REPO, "bench", "bench_sha256.cpp.in")) as f:
            text = f.read().replace("@CMAKE_HASHER_IMPL@", engine)
        with open(src + ".%d" % os.getpid(), "w") as f:
            f.write(text)
        os.replace(src + ".%d" % os.getpid(), src)
    return b.program("bench-" + engine, [], "all", preset, "release", ["-DCUSTOM_HASHER"], ["bench/bench_sha256_impl.cpp", src])


def prepare(what, b):
    """registers what a job needs beside its program: the benchmark of a preset"""
    if what == "fakecpu":
        b.program("fakecpu-child", ["fakecpu_main.cpp"], "all", "minimal", "fakecpu")
        return
    for e in BENCH_ENGINES:
        bench_program(b, e, what)


def prepared_env(what, b):
    if what == "fakecpu":
        return {"MAMMON_FAKECPU": b.program("fakecpu-child", ["fakecpu_main.cpp"], "all", "minimal", "fakecpu")}
    return {"MAMMON_BENCH_" + e: bench_program(b, e, what) for e in BENCH_ENGINES}


def job(name, program, prop, quick, thorough, **kw):
    return dict(name=name, program=program, prop=prop, quick=quick, thorough=thorough, **kw)


CHECKS = {}

CHECKS["C01"] = dict(
    jobs=[
        job("2^26 blocks, " + e, "hash", "C01huge" + e, 1, 2, background=True, workers=1, case_seconds=600, time_quick=120, time_thorough=1200)
        for e in ("SSE", "AVX", "AVX2", "SHA")
    ] + [
        job("2^32 blocks, " + e, "hash", "C01giant" + e, 0, 1, background=True, workers=1, case_seconds=7200, time_thorough=7200)
        for e in ("SSE", "AVX", "AVX2", "SHA")
    ] + [
        job("long inputs", "hash", "C01mid", 200, 4000, workers=4, time_quick=45, time_thorough=400, case_seconds=120),
        job("engines", "hash", "C01", 600000, 30000000, time_quick=30, time_thorough=900),
    ],
    rule="random engine, number of blocks (multiples of 1, 2, 4, 8 and remainders, up to 2^23, and 2^26 or more in windows mapped "
    "repeatedly), alignment and contents (random, sparse, extreme words, equal blocks but for a bit, cut in several calls), compared "
    "with a reference SHA-256; non-trivial: at least one block is hashed",
)
CHECKS["C02"] = dict(
    jobs=[job("engines", "hash", "C02", 1500000, 30000000, time_quick=30, time_thorough=600)],
    rule="random engine, number of blocks, contents, alignment and distance of the buffers to unmapped or read-only pages; calls through "
    "an assembly trampoline with random callee-saved registers, mxcsr and x87 control word, read back after the call; non-trivial: every "
    "case that calls an engine (no blocks: with inaccessible buffers)",
)


def objects(prop, quick, thorough, main_quick=None, main_thorough=None, **kw):
    """jobs over the objects of the minimal preset with the building blocks, and over those of the mainnet preset"""
    r = [job("minimal", "core", prop, quick, thorough, time_quick=30, time_thorough=600, **kw)]
    if main_quick is not None:
        r.append(job("mainnet", "consensus", prop, main_quick, main_thorough, preset="mainnet", time_quick=30, time_thorough=600, **kw))
    return r


TSAN = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:ignore_noninstrumented_modules=1"}
CHECKS["C03"] = dict(
    jobs=[
        job("interrupted hashing", "hash", "C03step", 700, 30000, time_quick=20, time_thorough=600),
        job("threads", "threads", "C03", 3000, 200000, workers=4, time_quick=20, time_thorough=600),
        job("first calls, race detector", "threads", "C03first", 40, 400, workers=40, flavour="tsan", time_quick=30, time_thorough=300,
            case_seconds=120, env=TSAN),
        job("threads, race detector", "threads", "C03race", 1200, 60000, workers=4, flavour="tsan", time_quick=30, time_thorough=900,
            case_seconds=120, env=TSAN),
    ],
    rule="single-stepped hashing calls interrupted, at every instruction or at a random one, by a handler that hashes with a random engine; "
    "2 to 5 threads (sometimes hundreds) with random calls on objects of their own and read-only calls on shared ones, every result compared with the model, and "
    "again under ThreadSanitizer; non-trivial: something overlapped",
    assumptions=["the threads' schedules are those that happen; ThreadSanitizer sees races of accesses that were made, in any schedule"],
)


def trees(prop, quick, thorough):
    r = [job(name, "tree", prop + sub, 1, 6, background=True, workers=1, case_seconds=600, time_quick=120, time_thorough=900)
         for name, sub in (("2^26 chunks", "huge"), ("2^31 bytes", "bytes"))]
    r.append(job("default engine", "tree", prop, quick, thorough, time_quick=25, time_thorough=600))
    for e in ("SHA", "AVX2", "AVX", "SSE"):
        r.append(job(e + " engine", "tree-custom", prop, quick // 3, thorough // 3, env={"MAMMON_ENGINE": e}, time_quick=15, time_thorough=300))
    r.append(job("sanitizers", "tree", prop, quick // 6, thorough // 6, flavour="checked", time_quick=20, time_thorough=300))
    r.append(job("2^27 chunks", "tree", prop + "giant", 0, 4, workers=1, case_seconds=900, time_thorough=1200))
    return r


# what is emulated: (SHA, AVX, AVX2); AVX2 without AVX does not exist
CPUS = [(1, 1, 1), (1, 1, 0), (1, 0, 0), (0, 1, 1), (0, 1, 0)]
FEW = ",bmi1=off,bmi2=off,adx=off,fma=off,movbe=off,abm=off,popcnt=off,f16c=off,aes=off,pclmulqdq=off,rdrand=off,rdseed=off"

MODELS = {
    (0, 1, 0): ["SandyBridge", "IvyBridge", "Opteron_G4", "Opteron_G5"],
    (0, 1, 1): ["Haswell", "Broadwell", "Skylake-Client", "Skylake-Server", "Cascadelake-Server", "KnightsMill", "Dhyana"],
    (1, 1, 1): ["EPYC", "EPYC-Rome", "EPYC-Milan", "EPYC-Genoa", "SapphireRapids"],
    (1, 0, 0): ["Denverton", "Snowridge"],
}


def emulated():
    r = []
    for sha, avx, avx2, few in [c + (0,) for c in CPUS] + [c + (1,) for c in CPUS[1:]]:
        cpu = "max" + ("" if sha else ",sha-ni=off") + ("" if avx else ",avx=off") + ("" if avx2 else ",avx2=off") + (FEW if few else "")
        name = "emulated" + (" SHA" if sha else "") + (" AVX" if avx else "") + (" AVX2" if avx2 else "") + (", nothing else" if few else "")
        r.append(job(name, "tree", "C04", 6000, 100000, wrap=["qemu-x86_64", "-cpu", cpu], case_seconds=120,
                     env={"MAMMON_CPU": "SHA=%d AVX=%d AVX2=%d" % (sha, avx, avx2)}, time_quick=25, time_thorough=400))
    # older still: CPUID ends before the leaf that has SHA and AVX2
    for flavour in ("release", "debug"):
        r.append(job("emulated AVX, short CPUID" + (", unoptimized" if flavour == "debug" else ""), "tree", "C04", 600, 30000,
                     wrap=["qemu-x86_64", "-cpu", "max,level=6,sha-ni=off,avx2=off"], case_seconds=120, flavour=flavour,
                     env={"MAMMON_CPU": "SHA=0 AVX=1 AVX2=0"}, time_quick=25, time_thorough=400))
    # CPUs that were made, and others whose CPUID ends here or there after that leaf
    some = [(m, c) for c, ms in MODELS.items() for m in ms] + [("max,level=%d" % n, (1, 1, 1)) for n in range(7, 15)]
    some += [("max,level=%d,sha-ni=off" % n, (0, 1, 1)) for n in (7, 10, 13)]
    for cpu, (sha, avx, avx2) in some:
        r.append(job("emulated " + cpu, "tree", "C04", 600, 20000, wrap=["qemu-x86_64", "-cpu", cpu], case_seconds=120, background=True,
                     workers=1, env={"MAMMON_CPU": "SHA=%d AVX=%d AVX2=%d" % (sha, avx, avx2)}, time_quick=25, time_thorough=400))
    return r


CHECKS["C04"] = dict(
    jobs=[job("this CPU", "tree", "C04", 20000, 500000, time_quick=20, time_thorough=300),
          job("this CPU, unoptimized", "tree", "C04", 5000, 100000, flavour="debug", time_quick=15, time_thorough=200),
          job("CPUs made up", "fakecpu", "C04fake", 6000, 300000, prepare="fakecpu", time_quick=20, time_thorough=300)] + emulated(),
    rule="on the CPU at hand and on CPUs emulated by qemu, with and without SHA, AVX and AVX2, of every length of CPUID and some 18 models: the engines reported, each reported engine and the "
    "default one on random blocks, roots of random trees; non-trivial: all",
    assumptions=["qemu-x86_64 8.2 raises an invalid-opcode fault for instructions of the extensions switched off"],
)
CHECKS["C05"] = dict(
    jobs=trees("C05", 60000, 3000000),
    rule="random chunks or byte strings (1 to 1.5 million chunks, and 2^26 or more, sizes around powers of two, zero and repeated chunks), limits 0 to 2^64-1, up to 3 "
    "lengths mixed in, each engine: root compared with a recursive model; non-trivial: all",
)
CHECKS["C06"] = dict(
    jobs=trees("C06", 60000, 3000000),
    rule="as C05, every node of the tree compared with a level by level model; non-trivial: all",
)
CHECKS["C07"] = dict(
    jobs=objects("C07", 60000, 3000000, 20000, 600000) + [job("large states", "core", "C07large", 12, 300, workers=4, time_quick=30, time_thorough=600, case_seconds=120)],
    rule="random values of every consensus type, of both presets (the mainnet state as a check of its own), loaded over other values and "
    "out of the middle of larger buffers, or set field by field; every case compares complete encodings and values with the model: non-trivial",
)
CHECKS["C08"] = dict(
    jobs=objects("C08", 60000, 3000000, 20000, 600000) + [job("large states", "core", "C08large", 12, 300, workers=4, time_quick=30, time_thorough=600, case_seconds=120)],
    rule="random values of every consensus type, of both presets, reached by SSZ, YAML, setting fields, copies, moves or assignments; the "
    "root is compared with the model's: non-trivial",
)
ASAN = {"ASAN_OPTIONS": "detect_leaks=0:max_allocation_size_mb=4096:allocator_may_return_null=0:detect_stack_use_after_return=1:strict_string_checks=1",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}
CHECKS["C09"] = dict(
    jobs=[job("sanitizers", "robust", "C09", 40000, 3000000, flavour="checked", env=ASAN, time_quick=40, time_thorough=1200, case_seconds=60),
          job("long inputs", "robust", "C09long", 4000, 200000, flavour="checked", env=ASAN, time_quick=30, time_thorough=1200, case_seconds=120)],
    rule="arbitrary bytes, arbitrary offsets, encodings of other types, damaged encodings, deserialized as every type (and containers of random "
    "schemas) over fresh and used objects under AddressSanitizer and UBSan with the heap watched; then the object is encoded, hashed, "
    "compared, printed and loaded again against the model; non-trivial: the input is not empty",
)
CHECKS["C12"] = dict(
    jobs=[job("sanitizers", "robust", "C12", 40000, 1500000, flavour="checked", env=ASAN, time_quick=40, time_thorough=1200, case_seconds=60),
          job("long documents", "robust", "C12long", 400, 20000, flavour="checked", env=ASAN, time_quick=40, time_thorough=1200, case_seconds=120)],
    rule="documents with one or two nodes changed (by kinds that must be refused and kinds that may), damaged text, other documents and nodes that "
    "are none, documents with scalars or sequences of up to millions of characters or elements on a thread with a small stack, decoded as every type under AddressSanitizer and UBSan; what is accepted must encode, hash and round-trip like the model says; "
    "non-trivial: the text is YAML",
)
CHECKS["C10"] = dict(
    jobs=objects("C10", 2400000, 60000000, 600000, 10000000),
    rule="valid encodings of random values, and damaged ones (cut, extended, offsets, booleans, delimiters and unused bits changed, parts "
    "removed, repeated or inserted, gaps with all offsets adjusted, other bytes), of all consensus types and building blocks: accepted iff "
    "the strict decoder of the model accepts; non-trivial: the bytes are not empty",
)
CHECKS["C11"] = dict(
    jobs=objects("C11", 60000, 600000, 20000, 150000)
    + [job("long lists", "core", "C11long", 60, 4000, time_quick=30, time_thorough=400, case_seconds=120)],
    rule="random values written in random YAML styles (flow or block, quotes, upper case, key order, comments), decoded, compared, encoded, "
    "decoded again: non-trivial",
)
CHECKS["C13"] = dict(
    jobs=objects("C13", 150000, 3000000, 30000, 400000) + [job("large states", "core", "C13large", 12, 300, workers=4, time_quick=30, time_thorough=600, case_seconds=120)],
    rule="pairs of objects reached by random routes: equal values, values differing in one leaf, element or length, independent values; "
    "non-trivial: all",
)
CHECKS["C14"] = dict(
    jobs=objects("C14", 60000, 800000, 8000, 150000)
    + [job("sanitizers", "core", "C14", 4000, 200000, flavour="checked", env=ASAN, time_quick=30, time_thorough=600)],
    rule="random histories of up to 12 operations on three objects (loads, failed loads, copies, moves, assignments, changes, reads) with "
    "the model value of each checked after every step and compared with freshly built objects: non-trivial",
)
CHECKS["C18"] = dict(
    jobs=[job("2^%d bits%s" % (n, ", sanitizer" if f == "ubsan" else ""), "values", "C18huge%d" % n, 1, 4, background=True, workers=1, case_seconds=600,
              time_quick=120, time_thorough=1200, flavour=f) for n, f in ((31, "ubsan"), (32, "release"))]
    + objects("C18", 3000000, 60000000)
    + [job("hexadecimal", "values", "C18", 1000000, 20000000, time_quick=15, time_thorough=300),
       job("long bitfields", "values", "C18long", 1000, 60000, time_quick=20, time_thorough=400, case_seconds=60)],
    rule="bitlists of many limits and bitvectors of many sizes, random bits, and bitlists of 2^31 and 2^32 bits, bitfields of up to millions of bits: print, encode, hash, decode, hexadecimal, strictness: non-trivial",
)
CHECKS["C19"] = dict(
    jobs=objects("C19", 20000, 600000, 8000, 150000)
    + [job("chunks", "tree", "C19tree", 500000, 10000000, time_quick=20, time_thorough=300)]
    + [job("chunks, sanitizers", "tree", "C19tree", 100000, 2000000, flavour="checked", time_quick=20, time_thorough=300)]
    + [job("minimal, large limits", "core", "C19large", 4, 40, workers=4, time_quick=60, time_thorough=300, case_seconds=120),
       job("mainnet, large limits", "consensus", "C19large", 4, 40, workers=4, preset="mainnet", time_quick=60, time_thorough=300, case_seconds=120)]
    + [job("far over the limit", "core", "C19far", 350, 40000, time_quick=30, time_thorough=600, case_seconds=120)]
    + [job("minimal, sanitizers", "core", "C19", 4000, 150000, flavour="checked", time_quick=30, time_thorough=600)],
    rule="every list and bitlist of a limit up to 4200, alone and inside all objects, with lengths around the limit, from SSZ and YAML, "
    "and the state's list of up to 2^24 elements: non-trivial",
)
CHECKS["C21"] = dict(
    jobs=objects("C21", 60000, 800000, 8000, 150000),
    rule="blocks, bodies and states whose fields of equal type hold different values, loaded from SSZ or YAML; every accessor compared with "
    "the field decoded, with the encodings and the root: non-trivial",
)
CHECKS["C22"] = dict(
    jobs=[job("2^31 bytes", "core", "C22huge", 1, 4, background=True, workers=1, case_seconds=600, time_quick=120, time_thorough=900)]
    + objects("C22", 150000, 3000000),
    rule="containers of random schemas (up to 150 fields of the building blocks, nested) composed at run time from the library's types: "
    "serialization, strict decoding, roots, YAML and histories compared with the model: non-trivial",
)
CHECKS["C23"] = dict(
    jobs=objects("C23", 100000, 1000000, 20000, 100000),
    rule="default-constructed objects, T and T{}, in memory filled with a random byte: non-trivial",
)
CHECKS["C15"] = dict(
    jobs=[job("release", "predicates", "C15", 800000, 20000000, time_quick=20, time_thorough=600),
          job("sanitizers", "predicates", "C15", 100000, 2000000, flavour="checked", env=ASAN, time_quick=20, time_thorough=300)],
    rule="validators with equal, adjacent and extreme epochs and balances next to the maximum, asked at all of those epochs and their "
    "neighbours; pairs of attestation data alike but for a field, with epochs next to each other; index lists of every length up to the limit, "
    "sorted or not quite: all non-trivial",
)
CHECKS["C16"] = dict(
    jobs=[job("release", "bytes", "C16", 5000000, 100000000, time_quick=20, time_thorough=600),
          job("sanitizers", "bytes", "C16", 400000, 10000000, flavour="checked", env=ASAN, time_quick=20, time_thorough=300)],
    rule="byte strings of 17 lengths from 1 to 121: integers of all types, hexadecimal strings (spellings, lengths, refusals), every "
    "operation against a vector of bytes: all non-trivial",
)
CHECKS["C17"] = dict(
    jobs=[job("release", "math", "C17", 1500000, 60000000, time_quick=20, time_thorough=600),
          job("sanitizers", "math", "C17", 200000, 5000000, flavour="checked", env=ASAN, time_quick=20, time_thorough=300)],
    rule="all 8- and 16-bit integers in each of many cases, 32- and 64-bit integers at and between squares, powers of two, the ends and where "
    "floating point rounds up, checked with 128-bit integers; digits and strings of digits; little-endian integers at any address: non-trivial",
)
CHECKS["C20"] = dict(
    jobs=[job("minimal", "core", "C20", 120000, 1200000, time_quick=25, time_thorough=300),
          job("mainnet", "consensus", "C20", 50000, 600000, preset="mainnet", time_quick=30, time_thorough=600)],
    rule="every constant of both presets (picked at random: each many times), and values of every type with default, random and limit-long "
    "lists, whose sizes, acceptance and roots depend on them: all non-trivial",
)
CHECKS["C24"] = dict(
    jobs=[job("sparse files", "bench", "C24sparse", 3, 60, prepare="minimal", workers=1, time_quick=40, time_thorough=400, case_seconds=240),
          job("large states", "bench", "C24large", 16, 400, prepare="minimal", workers=4, time_quick=40, time_thorough=600, case_seconds=120),
          job("minimal", "bench", "C24", 4000, 200000, prepare="minimal", time_quick=30, time_thorough=600, case_seconds=90),
          job("mainnet", "bench", "C24", 120, 4000, preset="mainnet", prepare="mainnet", time_quick=30, time_thorough=600, case_seconds=90)],
    rule="the benchmark of each engine run on generated files: valid states, states damaged like in C10, other contents, links, directories, "
    "devices, missing and unreadable files, no file: all non-trivial",
)
CHECKS["C25"] = dict(
    jobs=[job("release", "values", "C25", 8000000, 200000000, time_quick=20, time_thorough=300),
          job("sanitizers", "values", "C25", 500000, 10000000, flavour="checked", env=ASAN, time_quick=20, time_thorough=300)],
    rule="random sequences of arithmetic on a slot next to a 64-bit integer, comparisons with equal, adjacent and other values, conversions; "
    "booleans: non-trivial",
)


def fuzzing(program, prop, seconds=600, quick=0, **kw):
    """coverage-guided: libFuzzer makes the choices, following the library's branches and comparisons"""
    return job("libFuzzer, " + program, program, prop, 1 if quick else 0, 1, flavour="fuzz", fuzz=True, env=ASAN, time_quick=quick,
               time_thorough=seconds, case_seconds=120, **kw)


for _pid in ("C07", "C08", "C10", "C11", "C13", "C14", "C18", "C19", "C21", "C22", "C23"):
    CHECKS[_pid]["jobs"].append(fuzzing("core", _pid))
for _pid, _program, _prop in (("C05", "tree", "C05"), ("C06", "tree", "C06"), ("C19", "tree", "C19tree"), ("C15", "predicates", "C15"),
                              ("C16", "bytes", "C16"), ("C17", "math", "C17"), ("C18", "values", "C18"), ("C25", "values", "C25")):
    CHECKS[_pid]["jobs"].append(fuzzing(_program, _prop))
for _pid in ("C09", "C12"):
    for _j in CHECKS[_pid]["jobs"]:
        _j["flavour"] = "fuzz"
    CHECKS[_pid]["jobs"].append(fuzzing("robust", _pid, 1200, 15))
NOT_APPLICABLE = {}
