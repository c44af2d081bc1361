#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Random buffers are completely filled with fresh OS random bytes",
 "When a request for random bytes returns, every byte of the caller's buffer comes from the operating system's random source and was delivered for this request, in order, and nothing outside the buffer is touched. This holds for any size, however the source splits its deliveries (short reads) or interrupts them (signals), and however many threads ask at once: no delivered byte reaches two requests and no part of a buffer keeps its old contents.",
 ["fault_sequences", "schedules", "inputs"],
 "every request size, every sequence of short and interrupted reads, every interleaving of concurrent requests",
 "The only test asks twice and compares the two buffers; the kernel never shortens or interrupts those reads, so the loop's second iteration never runs.",
 ["src/random.c", "include/fingera_libc/random.h"],
 [("read loop until the request is complete", "src/random.c fingera_os_rand_bytes")],
 observe=["caller's buffer after return", "bytes handed out by the simulated source"])

prop("C02", "Missing entropy stops the process, visibly, and never yields weak bytes",
 "If the random source cannot be opened, ends early or keeps failing, neither the random-bytes call nor key generation nor library initialisation returns to its caller: the process terminates with a nonzero status after a diagnostic on standard error. No caller ever sees a buffer or key that was not completely supplied by the source, and the library never waits or retries forever.",
 ["fault_sequences", "schedules", "histories"],
 "every point at which the source can fail (open, first, middle or last read; error, end of file; transient or permanent), in every caller, with concurrent callers",
 "No test makes the source fail.",
 ["src/random.c", "src/error.c", "src/btc/key.c"],
 [("fatal error on every failed system call", "src/random.c fingera_os_rand_bytes"), ("diagnostic and exit", "src/error.c fingera_fatal")],
 observe=["return of the call", "exit status", "standard error"])

prop("C03", "Generated private keys are valid, fresh and exactly the source's bytes",
 "A generated private key is always a valid curve scalar (1 to n-1) and equals one complete 32-byte draw from the random source that belongs to that call alone, whatever invalid draws (zero, the group order, larger values) precede it and however the draws are split or interrupted. Two generated keys never share a draw, across concurrent threads, re-initialisation and process restarts.",
 ["fault_sequences", "schedules", "histories"],
 "every sequence of source contents including out-of-range blocks, every split of the reads, every interleaving of generating threads, every restart",
 "An out-of-range draw has probability 2^-127, so no test run ever sees the retry; the tests generate one key on one thread.",
 ["src/btc/key.c", "src/random.c"],
 [("draw until the scalar is valid", "src/btc/key.c fingera_btc_key_new")],
 observe=["generated key", "bytes handed out by the simulated source"])

prop("C04", "No call leaks or wrongly closes descriptors or memory, even when it fails",
 "After any history of calls, including calls that failed or rejected their input, every file descriptor the library opened is closed exactly once, no descriptor of anyone else is closed, and every heap block it allocated is freed exactly once. The only memory it may keep is what initialisation sets up, and uninitialisation gives all of that back.",
 ["histories", "fault_sequences", "schedules"],
 "every sequence of calls, inputs (valid, malformed, longer than the internal stack buffers), injected allocation and system-call failures, and thread interleavings",
 "Tests run mostly successful calls on short inputs that never leave the stack buffers and do not look at descriptors or the heap.",
 ["src/random.c", "src/base58.c", "src/btc/base58_check.c", "src/btc/address.c", "src/btc/key.c", "src/btc/exkey.c", "include/fingera_libc/sl/buffer.h"],
 [("stack-or-heap scratch buffer with a release on every path", "include/fingera_libc/sl/buffer.h DECLARE_BUFFER/FREE_BUFFER"), ("close after reading", "src/random.c"), ("context destroy", "src/btc/key.c fingera_btc_key_uninit")],
 observe=["simulated descriptor table", "simulated heap"])

prop("C05", "Running out of memory gives a reported failure, never a wrong result",
 "When any memory allocation fails, at any point of any call, the call either still gives its correct result, or reports failure through its documented failure value, or terminates the process with a nonzero status; it never crashes on the missing block, corrupts memory, or reports success with wrong output. After a reported failure the same call works again as soon as memory is available.",
 ["fault_sequences", "inputs", "histories"],
 "every allocation of every call as the one that fails, alone or with others, for all inputs long enough to need the heap",
 "Tests never make an allocation fail, and almost all their inputs fit the stack buffers.",
 ["src/base58.c", "src/btc/base58_check.c", "src/btc/address.c", "src/btc/key.c", "src/btc/exkey.c", "include/fingera_libc/sl/buffer.h"],
 [("scratch buffer checked after allocation", "src/base58.c, src/btc/base58_check.c, src/btc/address.c, src/btc/key.c, src/btc/exkey.c")],
 observe=["return value and output of the call", "memory errors", "exit status"])

prop("C06", "Initialisation blinds with fresh OS entropy and never changes any result",
 "Every initialisation protects the context used for secret keys with 32 bytes freshly drawn from the operating system for that initialisation alone, in every build configuration. Any number of initialise/uninitialise cycles, restarts and different blinding values leaves the results of all key, signature and derivation calls unchanged, and uninitialisation returns the library to its starting state.",
 ["histories", "configurations", "schedules", "fault_sequences"],
 "every sequence of initialisation cycles and process restarts, every blinding value, short and interrupted entropy reads, builds with and without assertions",
 "Tests initialise once per case and cannot see whether blinding took place; they only build with assertions on.",
 ["src/btc/key.c", "src/random.c"],
 [("context randomisation", "src/btc/key.c fingera_btc_key_init"), ("context teardown", "src/btc/key.c fingera_btc_key_uninit")],
 [("signing and verification contexts", "shared by every key call of the process", "src/btc/key.c")],
 ["seed given to the curve library", "results before and after each cycle"])

prop("C07", "Hashes and HMACs are exact and independent on every thread",
 "SHA-1, SHA-256, SHA-512, RIPEMD-160, HMAC-SHA256/512, the Bitcoin double hashes (HASH160, HASH256, the 64-byte-block HASH256) and the BIP32 hash equal their standards for every message and key length. Calls on different threads never influence each other, whatever the interleaving.",
 ["schedules", "inputs"],
 "every interleaving of concurrent calls at memory-access granularity; message and key lengths around and far beyond every block boundary",
 "Tests hash a few fixed messages on one thread.",
 ["src/hash/sha1.c", "src/hash/sha2.c", "src/hash/ripemd160.c", "src/btc/hash.c"],
 [("per-call state on the stack, constant tables", "src/hash/*.c")],
 observe=["digest"])

prop("C08", "Text and integer codecs are exact inverses on every thread",
 "Hex, Base64 (standard and URL-safe), Base32 (text and raw), Base58, the compressed integers and the fixed-width integers of either byte order encode every value to its defined text and decode exactly that text back, with output lengths equal to the advertised ones; white space around Base58 text is ignored; other malformed text is rejected or decoded only up to the malformed place, and never silently altered. Concurrent calls on different threads never influence each other.",
 ["schedules", "inputs"],
 "every interleaving of concurrent calls; all values, lengths (including above the internal stack buffer), all 64-bit integers, all malformed texts",
 "Tests check a small table per codec on one thread.",
 ["src/hex.c", "src/base64.c", "src/base32.c", "src/base58.c", "src/compress_integer.c", "include/fingera_libc/endian.h"],
 [("per-call buffers", "src/base58.c"), ("constant tables", "src/*.c")],
 observe=["output bytes, output length"])

prop("C09", "Address, Bech32 and key text coding is exact on every thread",
 "Base58Check, Bech32, all address kinds, WIF keys and extended-key strings are encoded exactly as their standards define for any network parameters, and decoding an encoded text returns the original kind, payload and flags. Concurrent calls on different threads, for the same or different networks, never influence each other.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of concurrent calls; all payloads, witness versions, networks including user-defined prefixes",
 "Tests check fixed vectors on one thread with the three built-in networks.",
 ["src/btc/address.c", "src/btc/bech32.c", "src/btc/base58_check.c", "src/btc/key.c", "src/btc/exkey.c", "src/btc/chain_parameters.c"],
 [("per-call buffers", "src/btc/address.c, src/btc/base58_check.c")],
 observe=["text", "decoded kind, payload, flags"])

prop("C10", "Key, signature and HD operations are exact on every thread",
 "Public keys, key identifiers and fingerprints, DER key and signature coding, signing, verification and BIP32 derivation give the results their standards define for every valid input. After initialisation any number of threads may call them at once, and no interleaving changes any result.",
 ["schedules", "inputs"],
 "every interleaving of concurrent calls after one initialisation; all keys, hashes, child numbers, chain codes",
 "Tests are single-threaded and use a handful of keys.",
 ["src/btc/key.c", "src/btc/exkey.c", "src/btc/hash.c"],
 [("shared contexts only read after initialisation", "src/btc/key.c")],
 [("signing and verification contexts", "shared by all threads", "src/btc/key.c")],
 ["return value and output of the call"])

prop("C11", "Decoders look at nothing but the bytes they are given",
 "The result of every decoding call is determined by the bytes of its input alone: it does not depend on what lies before or behind the input, on a terminator, on old contents of the output, or on what earlier calls left in memory. For any input whatever, well-formed or hostile and of any length, a decoder reads only its input, writes at most the advertised output size, and returns.",
 ["inputs", "histories", "schedules"],
 "every byte string as input at every position of a receive buffer, every content of neighbouring and stale memory, every preceding call",
 "Tests pass NUL-terminated, well-formed strings in generous buffers.",
 ["src/hex.c", "src/base64.c", "src/base32.c", "src/base58.c", "src/compress_integer.c", "src/btc/bech32.c", "src/btc/address.c", "src/btc/base58_check.c", "src/btc/key.c", "src/btc/exkey.c"],
 [("explicit input lengths", "all decoders"), ("advertised output lengths", "include/fingera_libc/*.h")],
 observe=["decoder result with differing surroundings", "out-of-bounds accesses"])

prop("C12", "Addresses damaged in transit are never taken for another destination",
 "An address text that was damaged on its way is either rejected or decodes to exactly the destination that was sent. Up to four changed characters of a Bech32 address are always detected; a Base58 text is accepted only if all four checksum bytes match its payload, and Bech32 only if all six checksum characters do.",
 ["fault_sequences", "inputs"],
 "every address of every kind, every pattern of substituted, dropped, duplicated, truncated or case-changed characters, every single wrong checksum byte, with retransmission, duplication and reordering of messages",
 "Tests decode a few fixed invalid strings.",
 ["src/btc/bech32.c", "src/btc/base58_check.c", "src/btc/address.c"],
 [("BCH checksum verification", "src/btc/bech32.c verify_checksum"), ("double-SHA256 checksum verification", "src/btc/base58_check.c fingera_from_base58_check")],
 observe=["decoded kind and payload at the receiver"])

prop("C13", "Stored keys survive crashes intact or are reported as lost",
 "A private key, extended private key or extended public key written as text (WIF, xprv, xpub) and read back after a crash decodes either to exactly the stored key with all its attributes or not at all, whatever part of the write was torn, lost, overwritten by older data or bit-flipped. A completely written record, in text or in DER or raw form, always decodes to exactly what was stored, in any later process, and a truncated DER record is never accepted.",
 ["crash_points", "fault_sequences", "histories"],
 "every record kind, every crash point during a write, every torn, lost or mixed sector pattern and flipped bit, every sequence of restarts and re-initialisations",
 "Tests only decode intact strings in the process that made them.",
 ["src/btc/key.c", "src/btc/exkey.c", "src/btc/base58_check.c", "src/base58.c"],
 [("checksum over prefix and payload", "src/btc/base58_check.c"), ("length and prefix checks", "src/btc/key.c fingera_btc_key_from_string, src/btc/exkey.c")],
 observe=["decoded key after restart"])

prop("C14", "Integers stream losslessly through any fragmentation of the byte stream",
 "A sequence of compressed integers, signed or unsigned, decodes to exactly the same sequence however the byte stream is cut into pieces: an incomplete integer is reported as incomplete and never yields a value, and a complete one consumes exactly its own bytes. Every 64-bit value survives, no two different byte encodings of the stream give the same value, and over-long or overflowing encodings from a hostile peer are rejected.",
 ["fault_sequences", "inputs", "histories"],
 "every sequence of 64-bit integers, every fragmentation, delay, truncation or connection loss of the stream, every hostile byte sequence",
 "Tests decode single complete integers from a table.",
 ["src/compress_integer.c"],
 [("continuation bit, bijective numbering", "src/compress_integer.c")],
 observe=["decoded values and consumed lengths"])

prop("C15", "Watch-only and signing wallets always derive the same keys",
 "For every path of non-hardened children, deriving public keys from an extended public key gives exactly the public keys of the private keys derived from the corresponding extended private key, with equal chain code, depth, child number and fingerprint, in any order of derivation, across serialisation, restarts and different machines. A hardened child or a child below depth 255 is refused where it cannot exist and never yields some other key, and both sides equal BIP32.",
 ["histories", "crash_points", "fault_sequences", "inputs"],
 "every seed and derivation path, every interleaving of requests between wallets, every loss, duplication and reordering of their messages, every crash and reload from the stored strings",
 "Tests check three fixed BIP32 chains in one process.",
 ["src/btc/exkey.c", "src/btc/key.c", "src/btc/hash.c"],
 [("private and public tweak by the same hash", "src/btc/key.c fingera_btc_key_derive, fingera_btc_pubkey_derive"), ("extension metadata", "src/btc/exkey.c")],
 observe=["derived keys on all nodes"])

prop("C16", "Signatures are reproducible everywhere and never verify for altered data",
 "Signing the same hash with the same key gives the same signature on every machine, in every process and at every retry: the RFC 6979 signature with the smallest counter whose R is below 2^255, S low, at most 71 bytes of DER. It verifies wherever it is delivered intact, and a message, key or signature value altered in transit never verifies.",
 ["fault_sequences", "histories", "schedules"],
 "every key and hash, every replica, blinding value, restart and duplicated request, every alteration of hash, public key or signature on the network",
 "Tests sign a few fixed hashes in one process and compare with vectors.",
 ["src/btc/key.c"],
 [("deterministic nonce and low-R grinding", "src/btc/key.c fingera_btc_key_sign"), ("lax DER parsing and S normalisation", "src/btc/key.c")],
 observe=["signature bytes on all nodes", "verification results"])

prop("C17", "No call leaves secret bytes behind in freed or dead memory",
 "After any call that handles a secret (private key, seed, MAC key, key text, blinding seed, secret message given to SHA-2), successful or failed, no copy of the secret made by the library remains in freed heap blocks or in stack memory the call has left, in builds with and without optimisation. The same holds when the call fails half-way because of bad input or lack of memory.",
 ["fault_sequences", "inputs", "configurations"],
 "every secret and every secret-handling call, every failure point (malformed text, wrong network, failed allocation), debug and optimised builds",
 "Tests cannot look at memory that is no longer reachable.",
 ["src/cleanse.c", "src/base58.c", "src/btc/base58_check.c", "src/btc/key.c", "src/btc/exkey.c", "src/btc/hash.c", "src/hash/sha2.c", "src/hash/sha1.c", "src/hash/ripemd160.c"],
 [("explicit wiping that the optimiser cannot drop", "src/cleanse.c fingera_cleanse")],
 observe=["heap blocks at the moment they are freed", "dead stack after return"])

prop("C18", "A hex dump prints exactly its bytes, whatever the output stream does",
 "A hex dump of any buffer, of any length, writes exactly its documented text to standard output: the bytes in order, grouped and broken into lines, ending with one newline. When the stream buffers, accepts only part of a write or fails, what arrives is a piece-by-piece prefix-faithful part of that text without alteration, repetition or reordering, the call returns, and dumps of concurrent threads lose or alter nothing of each other.",
 ["fault_sequences", "schedules", "inputs"],
 "every buffer length and content, every buffering mode, every pattern of short and failing writes, every interleaving of dumping threads",
 "The only test dumps one short buffer and does not look at the output.",
 ["src/hex.c"],
 [("chunked output buffer", "src/hex.c fingera_hex_dump")],
 observe=["bytes received by the simulated standard output"])

prop("C19", "A fatal error always ends the process and names its cause",
 "Reporting a fatal error never returns and ends the process with a nonzero exit status, whatever state standard error is in (closed, full, failing, slow, buffered). When standard error works, it receives the formatted message, the source position, and the description of the system error that was pending when the report was made, and none if there was none.",
 ["fault_sequences", "schedules", "inputs"],
 "every message and argument, every pending error code, every failure of standard error at every write, several threads failing at once",
 "No test reaches the fatal path.",
 ["src/error.c"],
 [("error code saved first, then message, then exit", "src/error.c fingera_fatal")],
 observe=["standard error bytes", "exit status"])

prop("C20", "One destination has one address text; texts are bound to their network",
 "Of all texts that hostile peers may send, an address decoder accepts for one destination on one network exactly the text its encoder produces (up to letter case for Bech32 and surrounding white space for Base58), so accepting a text and encoding it again gives the same text. An address made for a network that shares no prefix with this one is never accepted, a private, extended private or extended public key text only when its prefix is exactly this network's and its length is right, and program lengths, witness versions and padding outside the standard are rejected.",
 ["inputs", "fault_sequences", "configurations"],
 "every text crafted by a peer who can compute checksums: key texts, padding, versions, lengths, case, separators, white space, prefixes of other networks; all networks",
 "Tests decode fixed valid and invalid vectors.",
 ["src/btc/address.c", "src/btc/bech32.c", "src/base32.c", "src/base58.c", "src/btc/key.c", "src/btc/exkey.c"],
 [("padding, version and length checks", "src/btc/address.c"), ("prefix comparison", "src/btc/address.c")],
 observe=["decoded kind and payload", "re-encoded text"])

prop("C21", "Secrets do not steer the library's steps or the addresses it touches",
 "For hashing, HMAC, the BIP 32 hash, wiping, and for creating a public key, key id or fingerprint, encoding, decoding (DER, 74 bytes), deriving, neutering and signing with a private key: two calls that differ only in the value of the secret (message, HMAC key, seed, private key) execute the same sequence of basic blocks of the library's own code and read and write the same addresses, relative to the blocks they allocate; for signing this holds between secrets that need the same number of attempts at a short signature. So neither branches nor table indices nor early ends of comparisons tell anything about a secret. Text conversions and everything inside libsecp256k1 are outside of this property.",
 ["inputs", "schedules"], "every pair of secrets of equal length, every message length and public argument, alone or beside other threads",
 "Tests compare outputs; a branch or table lookup that depends on a secret computes the right output.",
 ["src/btc/key.c", "src/btc/exkey.c", "src/btc/hash.c", "src/hash/sha1.c", "src/hash/sha2.c", "src/hash/ripemd160.c", "src/cleanse.c"],
 [("straight-line compression functions", "src/hash/sha2.c"), ("calls to the constant-time curve library without own tests of secret bytes", "src/btc/key.c")],
 observe=["basic blocks executed by the library's code", "addresses read and written", "sizes of allocations"])

prop("C22", "Entropy and fatal errors on Windows meet the same guarantees as on Unix",
 "On Windows, with either generation of the system's cryptographic provider, a request for random bytes of any size returns only after the provider has filled the whole buffer with bytes delivered for this request; every provider handle is closed exactly once; the same holds inside key generation and initialisation. A provider that cannot be opened or keeps failing ends the process with a failure status and a report that names the system's error, and every fatal error reports its message, place, errno cause and pending Windows error, also when no text exists for that error.",
 ["configurations", "fault_sequences", "schedules", "inputs"], "every failure of the Windows providers, both provider generations, every size, every interleaving of concurrent requests, every message, errno and last error",
 "The Windows branches are not compiled by the tests on this platform, and providers do not fail on demand.",
 ["src/random.c", "src/error.c"],
 [("fatal error on provider failure", "src/random.c, Windows branches"), ("last error captured first", "src/error.c, Windows branches")],
 observe=["caller's buffer", "exit status", "standard error", "open provider handles"])

prop("C23", "Windows builds compute the same results as Unix builds",
 "Built as for Windows (its own byte-order, cleansing and entropy code, for both compilers the sources provide for), every hash, codec (fixed-width integers of either byte order included), address, key, signature and HD operation gives exactly the defined results, the same as the Unix build, for every input and on every thread.",
 ["configurations", "inputs", "schedules"], "all operations and inputs, both Windows configurations of the sources, every interleaving of concurrent calls",
 "The Windows branches are not compiled by the tests on this platform.",
 ["include/fingera_libc/endian.h", "src/cleanse.c", "src"],
 [("byte-order macros for Windows", "include/fingera_libc/endian.h"), ("secure zeroing", "src/cleanse.c")],
 observe=["every result and output buffer"])

prop("C24", "Builds for other systems and processors compute the same results",
 "Built as for macOS, OpenBSD or FreeBSD (NetBSD and DragonFly use the same code), with the byte-order functions those systems have, or for a processor whose plain char is unsigned (ARM, POWER), every hash, codec (fixed-width integers of either byte order included), address, key, signature and HD operation gives exactly the defined results, the same as the build for Linux on x86, for every input and on every thread.",
 ["configurations", "inputs", "schedules"], "all operations and inputs, each of the four configurations of the sources, every interleaving of concurrent calls",
 "The branches for these systems are not compiled by the tests on this platform, and its char is signed.",
 ["include/fingera_libc/endian.h", "src"],
 [("byte-order macros for macOS and the BSDs", "include/fingera_libc/endian.h")],
 observe=["every result and output buffer"])

prop("C25", "Texts are read and written the same way in every locale",
 "Encoding and decoding of hex, base32, base58, base64, base58check, Bech32, address, WIF and extended key texts gives the same results whatever locale the application has selected, also when another thread selects one while the call runs: which characters are blanks, digits or letters, and how their case is changed, is what the formats define and not what the locale says.",
 ["configurations", "inputs", "schedules"], "all texts, single-byte locales (Latin-1, Turkish, KOI8 and made-up ones), a change of the locale at any use of it",
 "The tests run in the C locale, which the program that starts them never changes.",
 ["src/base58.c", "src/btc/bech32.c", "src/hex.c", "src/base32.c", "src/base64.c", "src/btc"],
 [("blanks around base58 text", "src/base58.c fingera_from_base58"), ("prefix in lower case", "src/btc/bech32.c fingera_bech32_decode")],
 observe=["every result and output buffer"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
