#!/usr/bin/env python3
"""Writes scenarios.json (what each check explores, for the evidence) and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
POOL = "One seed makes one plan: a few simulated processes in turn, 1 to 6 threads each, every thread a list of library calls with generated arguments; the scheduler switches threads at any instrumented block, load or store of the library and at every system call and allocation, and injects faults at rates the seed chooses. "
WORLD = "One seed makes one world: 2 to 4 nodes running the real library, with a simulated clock, network (loss, duplication, delay, reordering, partitions, damage), disks (lost, torn, unsynced writes, rot) and crashes at any point of a call; after a faulty phase all faults stop and the world must finish. "
ENG = ["libsecp256k1, glibc's stdio/string code and the compiler are trusted", "a preemption is possible at instrumented blocks, loads and stores of the library (sequentially consistent memory; no weak-memory effects)",
       "seeded search: schedules and inputs not drawn are not covered"]
S = {}
def s(id, rule, extra=(), note="", **kw):
    S[id] = dict(rule=rule, assumptions=list(extra) + ENG, note=note, **kw)

s("C01", POOL + "Calls ask for 0 to some thousand random bytes, and now and then for more than 2^31 or 2^32 (a short piece of memory mapped repeatedly); the simulated device splits reads anywhere and interrupts them; every delivered byte is logged and must land, in order, in exactly one request's buffer.",
  ["the simulated random source hands out distinct bytes, so that a byte identifies its delivery"])
s("C02", POOL + "The random device fails at open, at any read, by end of file or by endless errors, in random-bytes calls, key generation and initialisation, with other threads at work and standard error failing too; the call must not return, and the exit status and diagnostic are checked.",
  ["'never retries forever' is checked as a bound on system calls and preemption points per call"])
s("C03", POOL + "Keys are generated while the source delivers zero, the group order and larger values, in split and interrupted reads; each key must be one whole, valid draw belonging to its call alone, over threads and process restarts.")
s("C04", POOL + "All operations of the library, with entropy failures, failing allocations and corrupted inputs; at the end of every call and every process the descriptor table and the heap of the simulated process are compared with what they were.",
  ["a descriptor or block counts as leaked when it was acquired inside a call and is still held when the call returns (library contexts between initialisation and release excepted)"])
s("C05", POOL + "Every allocation may fail; results are compared with the reference: a call either gives the right result or reports failure, and touches nothing else.",
  ["failure inside libsecp256k1's own allocation ends the process, as that library documents"])
s("C06", POOL + "Initialise, release and re-initialise in all orders with split and interrupted entropy; the blinding seed is taken at the interface to libsecp256k1, and the results of operations before and after are compared with the reference.")
s("C07", POOL + "Digests of every hash and HMAC over generated messages at any alignment, several threads at once, against independent reference implementations. Half of the workers run a build without instrumentation on messages, keys and block counts of more than 2^29, 2^31 and 2^32 bytes (short pieces mapped repeatedly; reference digests continue from precomputed states).",
  ["reference implementations were checked against published test vectors at the start of every run (selftest)"])
s("C08", POOL + "Hex, base32, base58, base64, varint, zigzag: encoding and decoding of generated data and mutated texts against reference codecs, several threads at once. Half of the workers run a build without instrumentation on inputs and outputs beyond 2^31 and 2^32 bytes; their last megabyte is compared.")
s("C09", POOL + "Addresses, base58check, bech32, WIF and extended key texts on standard and made-up networks, encoded, decoded and mutated, against reference implementations, several threads at once.",
  ["WIF and extended key texts whose scalar is out of range are accepted by the library as text; only text coding is judged"])
s("C10", POOL + "Public keys, identifiers, DER forms, signatures, verification and HD derivation with generated, edge-case and corrupted arguments, against a reference curve implementation, several threads at once.",
  ["RFC 6979 signatures are compared with the reference's"])
s("C11", POOL + "Inputs lie in memory whose neighbourhood is poisoned or unmapped, or filled with bytes that would change the result if read; outputs have exactly the documented size; AddressSanitizer watches the library, and the bytes around every buffer are compared.",
  ["accesses inside libsecp256k1 itself are not instrumented"])
s("C12", WORLD + "Payees send addresses; damage includes substitutions, swaps, insertions, truncation, case and texts that only part of a checksum notices; a payer must never accept a damaged text as another destination, and undamaged ones must get through.",
  ["the harness computes from the reference whether a damaged text is itself a valid address of another destination (chance 2^-30) and does not judge that case"])
s("C13", WORLD + "Nodes store keys as WIF or extended key files, are crashed in the middle of calls and between writes, restart and load them: the key read is one that was stored there, or the loss is reported.")
s("C14", WORLD + "Integers are streamed over a connection that cuts, loses, repeats and reorders pieces, receivers crash and resume; hostile peers send arbitrary encodings; every prefix decodes as the reference says.")
s("C15", WORLD + "Signers and watchers of the same accounts derive random paths, keep intermediate keys in memory and on disk, crash, and compare results over the network, and with the reference.", quick=28)
s("C16", WORLD + "Nodes sign, send signatures that the network may damage, verify and sign the same again elsewhere and after restarts; results must be identical and never verify for altered data.", quick=28)
s("C17", POOL + "Secrets given to and made by each call are known to the harness; when a call returns or fails, its dead stack and every heap block it freed are searched for 16 to 24-byte windows of them.",
  ["registers and the dead stack of libsecp256k1 below its entry points are treated as the library's dead stack as well", "windows shorter than 16 bytes are not looked for"])
s("C18", POOL + "Hex dumps by several threads to streams that stall, write short or fail, in every buffering mode; the bytes that arrive must be the digits of each buffer in order. A quarter of the workers run a build without instrumentation on buffers of more than 2^31 and 2^32 bytes, comparing the text as it streams.")
s("C19", POOL + "Fatal errors with generated messages, positions and pending system errors, on several threads and with a standard error that stalls, writes short or fails; exit status, diagnostic and no return.")
s("C20", WORLD + "Nodes of several networks exchange genuine and forged addresses (other padding, version, length, case, prefix, checksum kind); whatever a node accepts must be the one canonical text of its destination on that network; key texts under right, foreign and nearly right prefixes must be taken exactly on the networks whose prefix and lengths they have.")

s("C21", POOL + "Each call is made with one secret to warm up and then with several related and unrelated secrets on the same buffers and the same stack, faults off, other threads running between its steps; every basic block, load, store, memory function, comparison and allocation of the library's code is recorded with its address, and the records must be equal. A difference is believed when both secrets reproduce their own record.",
  ["what the compilers of these two builds emit is what is looked at; instructions that take operand-dependent time are not seen", "steps inside libsecp256k1 are not recorded"])
WINSIDE = ["the library is compiled as on Windows except for the size of `long` (8 bytes here; the library uses it for line numbers only) and by clang for this machine; Windows' headers and functions are stand-ins written from their documentation"]
s("C22", POOL + "The Windows branches run: random bytes (now and then more than 2^31 or 2^32), key generation, initialisation and fatal errors over stand-ins of both provider generations, which fail at opening or at any request, leave rubbish behind when they fail, count with 32 bits, and track handles; every byte delivered is logged and must land in exactly one request's buffer; a failure must end the process and be named.", WINSIDE)
s("C23", POOL + "Every operation of the library, built as Windows' compilers see it (own byte-order, cleansing and entropy code), against the same references as the Unix build.", WINSIDE)

s("C24", POOL + "Every operation of the library, built as the compilers of macOS, OpenBSD and FreeBSD see it and with an unsigned char, against the same references as the build for Linux on x86.",
  ["the library is compiled by clang for this machine; the byte-order headers of the other systems are stand-ins written from their manuals", "no big-endian or 32-bit processor is looked at"])
s("C25", POOL + "Encodings and decodings of generated and mutated texts (with bytes that other locales call blanks, letters or digits) while the process has one of seven single-byte locales, or another thread changes it between any two uses of it, against the same references.",
  ["the character tables of the locales are the simulator's; ASCII's classes are the same in all of them, as POSIX demands"])

# keep only what belongs to properties that exist
props = {}
for l in open(os.path.join(V, "properties.jsonl")):
    j = json.loads(l)
    props[j["id"]] = j
NA = {}
json.dump(S, open(os.path.join(V, "scenarios.json"), "w"), indent=1)
checks = []
for id in sorted(S):
    assert id in props
    checks.append(dict(property=id, quick_cmd="python3 check.py " + id, thorough_cmd="VERIF_TIER=thorough python3 check.py " + id,
        technique="deterministic simulation with fault injection: seeded search over schedules, inputs and faults, judged by reference models",
        level="exploration",
        level_note="The real library (two builds, and a third for huge buffers where the property concerns them) runs under a simulator that owns threads, system calls, memory and, where the property needs them, network, clock and disks. Explores as many seeds as the time allows; every violation is replayed in fresh processes and minimised before it is reported. Assumes: " + "; ".join(S[id]["assumptions"]) + "."))
for id in props:
    assert id in S or id in NA, id
json.dump(dict(version=1, setup_cmd="python3 build.py", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
    notes="No hooks in /repo: every seam is made at link time from the unmodified sources (see DESIGN.md)."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
