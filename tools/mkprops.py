#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})
ASM = ["ssz/sha256_shani.asm", "ssz/sha256_avx2.asm", "ssz/sha256_avx.asm", "ssz/sha256_avx_one_block.asm", "ssz/transpose_avx2.asm"]
TYPES = ["common/containers.hpp", "common/bytes.hpp", "common/slot.hpp", "common/boolean.hpp", "common/bitlist.cpp",
         "common/bitvector.hpp", "beacon-chain/attestation.cpp", "beacon-chain/beacon_block.hpp",
         "beacon-chain/beacon_state.hpp", "beacon-chain/deposits.hpp", "beacon-chain/eth1data.hpp",
         "beacon-chain/validator.cpp", "ssz/ssz_container.cpp"]

prop("C01", "Every hashing engine computes SHA-256 of each 64-byte block",
     "For every hashing engine the library offers, and for the one it picks by itself, hashing a run of n consecutive 64-byte blocks (any n >= 0, any contents) produces the n 32-byte SHA-256 digests of those blocks, in order. All engines therefore agree with each other bit for bit.",
     ["inputs", "configurations"], "all block contents, all block counts (including those that mix the 8-, 4-, 2- and 1-block paths and the switches between them), all four engines and the default one",
     "The stable tests hash fixed vectors with 1, 4, 8 blocks: no remainders (2, 3, 5, 6, 7, 9, 12...), no long runs, one input.",
     ["ssz/hasher.cpp", "ssz/hasher.hpp"] + ASM,
     [("8-lane loop then 4-lane then single block", "ssz/sha256_avx2.asm"), ("4-lane loop then single block", "ssz/sha256_avx.asm"),
      ("2-block loop then 1 block, precomputed padding schedule", "ssz/sha256_shani.asm"), ("engine selection", "ssz/hasher.cpp")])
prop("C02", "Hashing touches only its own buffers and obeys the calling convention",
     "Hashing n 64-byte blocks reads nothing outside the 64*n input bytes, writes nothing outside the 32*n output bytes, leaves the input unchanged, and does so whatever the alignment of either buffer; n = 0 reads and writes nothing. On return every callee-saved register, the stack pointer, the direction flag and the floating point control state are as before the call.",
     ["inputs"], "all engines, all block counts, all alignments of input and output, buffers ending or starting at an unmapped page, any values in the callee-saved registers",
     "The tests compare digests only, in aligned static arrays with room around them; a stray read or write, or a clobbered register the test does not use, goes unseen.",
     ["ssz/hasher.hpp"] + ASM, [("unaligned loads and stores, stack frame, saved registers", "ssz/*.asm")])
prop("C03", "Hashing and hash tree roots are re-entrant and thread safe",
     "Independent hashing calls may overlap in time in any interleaving (threads, or a call that interrupts another at any instruction), and so may, in threads, root, encoding, decoding and comparing calls on distinct objects and read-only calls on the same object; each still produces the result it produces alone.",
     ["schedules"], "all pairs of engines and block counts, all points at which one call is preempted by another; concurrent roots, encodings and decodings of consensus objects on several threads",
     "All existing tests are single threaded, so shared scratch storage is invisible to them.",
     ["ssz/sha256_shani.asm", "ssz/sha256_avx2.asm", "ssz/sha256_avx.asm", "ssz/sha256_avx_one_block.asm", "ssz/hashtree.cpp", "ssz/ssz_container.cpp"],
     [("all state in registers or on the stack", "ssz/*.asm"), ("no mutable static storage", "ssz/hashtree.cpp")],
     state=[("zero hashes", "precomputed roots of empty subtrees, written once before main", "ssz/hashtree.cpp")])
prop("C04", "The automatic engine runs and is correct on every supported CPU",
     "On any x86-64 CPU with SHA extensions or with AVX, whether or not it has AVX2 or AVX-512 too, the reported set of available engines is exactly what the CPU supports, every reported engine computes correct digests, and default hashing and hash tree roots work without executing an unsupported instruction.",
     ["configurations"], "all combinations of CPU feature flags among SHA, AVX2, AVX in the supported set, and generated inputs on each",
     "The tests pass vacuously for an engine the CPU lacks and never exercise the automatic choice.",
     ["ssz/hasher.cpp", "ssz/hashtree.cpp"], [("CPUID detection and preference order", "ssz/hasher.cpp")])
prop("C05", "Merkle roots equal the SSZ specification's merkleization",
     "For every non-empty sequence of 32-byte chunks, every limit (none, or any 64-bit value at least the number of chunks) and every length mixed in, the computed root equals the SSZ specification's merkleize (zero padding to the next power of two of the limit) followed by mix-in-length; a byte string is first packed into zero-padded chunks, an empty one giving one zero chunk. The result does not depend on the hashing engine.",
     ["inputs", "configurations"], "all chunk counts including powers of two and their neighbours, all chunk contents, all limits, with and without mix-in, all engines",
     "No stable test builds a hash tree; the spec vectors the other tests need are not available.",
     ["ssz/hashtree.cpp", "ssz/hashtree.hpp", "helpers/math.hpp"],
     [("level by level pass over the non-empty part", "ssz/hashtree.cpp merkleize"), ("zero-hash ladder up to the depth of the limit", "ssz/hashtree.cpp"), ("length mix-in", "ssz/hashtree.cpp mix_in")])
prop("C06", "The exposed hash tree holds exactly the interior nodes, bottom up",
     "The tree returned for a sequence of chunks lists, from the parents of the leaves to the root, exactly the interior nodes that cover the non-empty part of each level (odd ends completed with the root of an empty subtree of that height), then one node per level up to the depth of the limit, then one node per mixed-in length; the root is the last entry. Each node is the SHA-256 of its two children; a single chunk with no larger limit is its own tree.",
     ["inputs"], "all chunk counts, contents, limits and mixed-in lengths",
     "No test looks at the tree; only its last entry is ever used.",
     ["ssz/hashtree.cpp", "assets/design.md"], [("cache layout", "ssz/hashtree.cpp merkleize")])
prop("C07", "Serialization of consensus objects is the SSZ encoding, both ways",
     "For every value of every phase-0 consensus object, in both presets, serializing yields exactly the bytes the SSZ and consensus specifications prescribe for its field values, deserializing those bytes succeeds and yields an object whose fields hold those values, and serializing that again gives the same bytes. The size reported for fixed-size types is the length of the encoding.",
     ["inputs", "configurations"], "all consensus types, all field values including empty and full lists, both presets",
     "The only tests for it need spec vectors that are absent, and are not in the stable set; even then a handful of samples per type.",
     TYPES, [("fixed part, offsets, variable part", "ssz/ssz_container.cpp serialize_/deserialize_"), ("field lists of each type", "beacon-chain/*.hpp")])
prop("C08", "The hash tree root of consensus objects is the specification's",
     "For every value of every phase-0 consensus object, in both presets, the hash tree root equals the one the SSZ and consensus specifications prescribe for its field values: containers over the roots of their fields in order, lists with their limit and length mixed in, basic values packed.",
     ["inputs", "configurations"], "all consensus types, all field values, list lengths from empty to full, both presets",
     "As for C07: no spec vectors, and nothing in the stable tests computes a root.",
     TYPES + ["ssz/hashtree.cpp"], [("roots of fields merkleized", "ssz/ssz_container.cpp hash_tree_"), ("limits of lists", "beacon-chain/*.hpp"), ("chunk limit of packed lists and bitlists", "common/containers.hpp, common/bitlist.cpp")])
prop("C09", "Malformed SSZ input is never memory-unsafe and always terminates",
     "Deserializing any byte string whatsoever as any type returns success or failure without reading or writing out of bounds, undefined behaviour, crash, or non-termination, and without memory use out of proportion to the input. Whatever the outcome, the object can afterwards be encoded, hashed, compared, reused and destroyed, and destroying it gives back all the memory that was taken.",
     ["inputs", "fault_sequences"], "all byte strings, in particular truncated, extended and bit-flipped valid encodings and encodings with hostile offsets; all types, both presets",
     "No test feeds a malformed input.",
     TYPES, [("length and offset checks", "ssz/ssz_container.cpp deserialize_, common/containers.hpp, common/bitlist.cpp")])
prop("C10", "Exactly the canonical SSZ encodings are accepted",
     "A byte string is accepted as a given type if and only if it is a valid SSZ encoding of some value of that type (exact lengths, offsets starting at the end of the fixed part and non-decreasing, no left-over bytes, booleans 0 or 1, bitlist delimiter present, unused bits zero, no list over its limit). An accepted byte string is reproduced exactly by serializing the object.",
     ["inputs"], "all byte strings, in particular small mutations of valid encodings; all types, both presets",
     "No test feeds an invalid encoding, and the reject rules only show on specific malformed inputs.",
     TYPES, [("strictness checks", "ssz/ssz_container.cpp deserialize_, common/*.hpp, common/bitlist.cpp")])
prop("C11", "YAML encoding and decoding round-trip every consensus object",
     "For every value of every consensus object, encoding to YAML gives the consensus test-vector form of its fields (field names in specification order, integers in decimal, bytes and bitfields as lower-case 0x hex of their SSZ bytes, booleans true/false, lists as sequences), and decoding that form, also with other key order, upper-case digits, quoting, or block or flow style, succeeds and yields exactly that value.",
     ["inputs"], "all consensus types and field values, both presets, all those formatting variants",
     "Needs the absent spec vectors, and the encoding direction is never tested.",
     TYPES + ["helpers/bytes_to_int.hpp", "helpers/bytes_to_string.hpp"], [("field name tables", "beacon-chain/*.hpp encode/decode"), ("hex conversion", "common/bytes.hpp, common/bitlist.cpp, common/bitvector.hpp")])
prop("C12", "Malformed YAML is rejected or read cleanly, never crashes",
     "Decoding any YAML document as any type ends with success, failure or an exception, never with out-of-bounds access, undefined behaviour, crash or non-termination. Documents of the wrong shape (a missing field, a scalar for a container, a null for a list, a sequence for a vector of another length, a list over its limit, a byte string too long or without its 0x prefix, a bitlist without delimiter, a bitvector with more bits than it has, an integer out of range) are not accepted, and after acceptance the object encodes, hashes and round-trips like any other.",
     ["inputs", "fault_sequences"], "all YAML trees, in particular small mutations of valid ones (deleted or renamed keys, wrong kinds, odd and non-hex strings, wrong lengths); all types",
     "No test decodes a malformed document.",
     TYPES + ["helpers/bytes_to_int.hpp"], [("shape checks", "ssz/ssz_container.cpp decode_, common/*.hpp")])
prop("C13", "Objects compare equal exactly when all their fields are equal",
     "For any two objects of the same type, equality holds if and only if every field (element, bit, byte) of one equals that of the other, whatever histories produced the objects; inequality is its negation, and both are symmetric.",
     ["inputs", "histories"], "all types; equal pairs built by different routes, pairs differing in one leaf field, one element or one length; both presets",
     "The ssz tests use equality only to confirm expected matches, so an equality that is always true passes.",
     TYPES, [("memberwise comparison", "common/*.hpp, beacon-chain/*.hpp operator==")])
prop("C14", "An object's behaviour depends only on its current value, not its history",
     "After any sequence of loads (SSZ or YAML, successful or failed), copies, moves, assignments, field and list changes and read-only calls, an object with a given value encodes, hashes, compares and prints exactly like a freshly built object with that value. Changing a copy never affects the original, and read-only calls change nothing.",
     ["histories"], "all sequences of those operations over several objects of a type, all types",
     "Tests build each object once and use it once.",
     TYPES + ["ssz/hashtree.cpp"], [("loads replace the whole value", "common/containers.hpp deserialize, common/bitlist.cpp"), ("value semantics", "all types")])
prop("C15", "Validator and attestation predicates agree with the specification",
     "A validator is active in an epoch iff activation <= epoch < exit, slashable iff not slashed and activation <= epoch < withdrawable, eligible for the activation queue iff its eligibility epoch is unset and its effective balance is the maximum. Two attestations' data are slashable iff they differ with equal target epochs (double vote) or the first surrounds the second; an indexed attestation is structurally valid iff its indices are non-empty and strictly increasing.",
     ["inputs"], "all field values including 0, equal and adjacent epochs and 2^64-1; all index lists up to the limit",
     "None of the predicates is called by any test.",
     ["beacon-chain/validator.cpp", "beacon-chain/attestation.cpp", "config/constants.hpp"], [("predicates", "beacon-chain/validator.cpp, beacon-chain/attestation.cpp")])
prop("C16", "Fixed-size byte strings behave as plain byte values",
     "A fixed-size byte string built from an integer holds its little-endian bytes zero-extended and converts back to it; built from a 0x hex string (either case, at most its length) it holds those bytes followed by zeros, and longer or unprefixed strings are refused. Printing gives 0x lower-case hex and reads back to the same value; concatenation, exclusive or, indexing, iteration, comparison with another one or a byte vector, and encoding act byte by byte.",
     ["inputs"], "all lengths used (1 to 96 and others), all contents, all integer types and values, all hex spellings",
     "The (unstable) bytes tests check five integer conversions.",
     ["common/bytes.hpp", "helpers/bytes_to_int.hpp", "helpers/bytes_to_string.hpp"], [("conversions", "common/bytes.hpp")])
prop("C17", "Integer helper functions are exact over their whole domain",
     "The integer square root of every unsigned integer x is the largest r with r*r <= x, at run time as at compile time; the ceiling base-2 logarithm of every n >= 1 is the least k with 2^k >= n, and 0 for n = 0; hex digits and hex strings convert to their value in either case, and little-endian bytes to the integer they denote.",
     ["inputs"], "all 8- and 16-bit values, all 32- and 64-bit values by sampling concentrated at squares, powers of two and the maximum, under the optimisation flags of the release build",
     "No test calls them.",
     ["helpers/math.hpp", "helpers/bytes_to_int.hpp"], [("floating-point estimate corrected by integer steps", "helpers/math.hpp integer_squareroot")])
prop("C18", "Bitlists and bitvectors keep exactly their bits and length",
     "A bitlist of any length up to its limit and a bitvector of any size print, encode to SSZ and to hex (bit i in byte i/8 at position i mod 8; a bitlist with one delimiting bit after the last), decode, and hash (a bitlist without its delimiter, with its length mixed in) so that every bit and the length survive each round trip.",
     ["inputs"], "all lengths 0 to 2048 and beyond, up to 2^32, all multiples of 8 and 256 and their neighbours, all bit patterns, bitvector sizes 1 to 513",
     "No stable test uses bitfields; lengths that are multiples of 8 or 256 are special cases that samples miss.",
     ["common/bitlist.cpp", "common/bitlist.hpp", "common/bitvector.hpp"], [("delimiting bit, packing", "common/bitlist.cpp")])
prop("C19", "Collections over their limit are refused and never corrupt memory",
     "A list or bitlist with more elements than its limit is refused when loaded from SSZ or YAML, alone or inside any object, while one with exactly the limit is accepted; merkleizing more chunks than the limit is refused with an exception. None of these writes out of bounds.",
     ["inputs"], "all list and bitlist types, lengths from limit-2 to well over the limit, all limits including 1, non-powers of two and limits that share a chunk",
     "No test reaches a limit.",
     ["common/containers.hpp", "common/bitlist.cpp", "ssz/hashtree.cpp"], [("limit checks", "common/containers.hpp deserialize/decode, common/bitlist.cpp, ssz/hashtree.cpp")])
prop("C20", "The presets hold the consensus specification's constants",
     "In the minimal and in the mainnet preset every constant the library defines has the value the phase-0 specification gives it, and the sizes and limits of the types follow from them.",
     ["configurations"], "both presets, every constant, every preset-dependent vector length and list limit",
     "No test reads a constant, and the tests are built for one preset only.",
     ["config/minimal.hpp.in", "config/mainnet.hpp.in", "config/constants.hpp", "beacon-chain/*.hpp"], [("preset headers", "config/*.hpp.in")])
prop("C21", "Accessors of blocks and states report the field they name",
     "For every beacon block, block body and beacon state, in both presets, each accessor returns the value of the field of that name: the value that was decoded for it from SSZ or YAML, that its encodings contain and that its root commits to.",
     ["inputs"], "all block and state values with pairwise distinguishable fields, each accessor, both load routes",
     "No test calls an accessor.",
     ["beacon-chain/beacon_state.hpp", "beacon-chain/beacon_block.hpp"], [("accessors", "beacon-chain/beacon_state.hpp, beacon-chain/beacon_block.hpp")])
prop("C22", "Containers composed of library types follow SSZ whatever their schema",
     "Any container a user composes from the library's basic values, byte strings, bitfields, vectors, lists and other containers, in any order and nesting, encodes, decodes (accepting exactly the canonical encodings), hashes and round-trips through YAML as the SSZ specification prescribes for that schema.",
     ["programs", "inputs"], "all schemas over those building blocks (mixes of fixed- and variable-size fields in any position, one field to dozens, nesting), and all values of them",
     "Tests know only the consensus schemas, whose field counts and orders exercise few of the combinations.",
     ["ssz/ssz_container.cpp", "ssz/ssz_container.hpp", "common/containers.hpp", "common/bitlist.cpp", "common/bitvector.hpp", "ssz/hashtree.cpp"],
     [("generic helpers over a list of parts", "ssz/ssz_container.cpp")])
prop("C23", "Default-constructed objects hold the specification's default value",
     "A default-constructed object of any type, whatever the memory it is built in held before, has every number zero, every flag and bit false, every byte zero and every list empty: its encoding, its root and its YAML form are those of the specification's default value, and it equals any other default-constructed object.",
     ["inputs", "histories"], "all types and both presets, with arbitrary previous contents of the memory",
     "Fresh memory is mostly zero in tests, and no test uses a default object before loading it.",
     TYPES, [("member initializers", "common/*.hpp, beacon-chain/*.hpp")])
prop("C24", "The benchmark tool accepts exactly valid beacon state files",
     "Given a path, the benchmark entry point succeeds (status 0) and prints its timing line exactly when the file exists, is readable and is a regular file containing a valid SSZ beacon state of the configured preset; otherwise it prints a diagnostic and returns status 1, without crashing, whichever engine it was built for.",
     ["inputs", "fault_sequences"], "valid states, truncated, extended, mutated, empty and missing files that fit in memory, links, directories, devices, pipes, sockets; all four engine builds",
     "It is not run by any test.",
     ["bench/bench_sha256_impl.cpp", "bench/bench_sha256.cpp.in"], [("file and format checks", "bench/bench_sha256_impl.cpp")])
prop("C25", "Slots and the other integers behave as uint64, booleans as bool",
     "A slot (epoch, index, balance, time) built from, assigned and converted to 64-bit unsigned integers keeps the value; arithmetic, order, equality and truth value are those of 64-bit unsigned integers, wrapping around; it converts to its eight little-endian bytes, prints and encodes in YAML in decimal, and reads from YAML the decimals below 2^64 and no negative, fractional or larger number. A boolean likewise keeps and compares its value, is the byte 0 or 1, and reads no other byte.",
     ["inputs", "histories"], "all 64-bit values, all sequences of assignments and arithmetic, both booleans",
     "No stable test uses them.",
     ["common/slot.hpp", "common/boolean.hpp"], [("conversions to a reference to the value", "common/slot.hpp, common/boolean.hpp")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
