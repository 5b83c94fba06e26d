#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Run by hand after editing the list below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
I = ["inputs"]
prop("C01", "SHA-1, SHA-256, SHA-512 and RIPEMD-160 equal the published standards",
 "For every message of every length the four digest functions return exactly the digest the published standard (FIPS 180-4, RIPEMD-160) defines. This includes the empty message, every length around a block or padding boundary, and messages long enough that the bit length needs more than 32 bits.",
 I, "all messages, all lengths (every residue around block and padding boundaries; beyond 2^29 and 2^32 bytes)",
 "The suite hashes one fixed table of messages; it never reaches the padding boundaries systematically and has no message whose bit length exceeds 32 bits.",
 ["src/hash/sha1.c", "src/hash/sha2.c", "src/hash/ripemd160.c", "include/fingera_libc/hash/sha2.h"],
 [("block transforms and last-chunk padding", "src/hash/sha1.c fingera_sha1; src/hash/sha2.c sha256_final, sha512_final; src/hash/ripemd160.c fingera_ripemd160")],
 observe=["the digest written to the caller's buffer"])
prop("C02", "HMAC-SHA-256 and HMAC-SHA-512 equal RFC 2104",
 "For every key of every length and every message of every length, the two HMAC functions return exactly the RFC 2104 value. Keys longer than a block are hashed first, shorter keys are zero padded, and a key of exactly one block is used as it is.",
 I, "all pairs (key length, message length) around block boundaries, all byte values",
 "The suite has a handful of RFC 4231 vectors: a few key lengths, none at the exact block size with messages at the padding boundaries.",
 ["src/hash/sha2.c", "include/fingera_libc/hash/sha2.h"],
 [("key normalisation, inner and outer pass", "src/hash/sha2.c fingera_hmac_sha256, fingera_hmac_sha512")],
 observe=["the MAC written to the caller's buffer"])
prop("C03", "Bitcoin composite hashes equal their definitions, merkle step included",
 "hash160(x) = RIPEMD160(SHA256(x)), hash256(x) = SHA256(SHA256(x)), the 64-byte block function returns hash256 of each of its n independent 64-byte blocks (also when it folds a merkle level in place), and the BIP32 hash is HMAC-SHA512(chain code, header byte || 32 data bytes || big-endian child number), for every input.",
 I, "all messages and lengths, all block counts, separate and in-place buffers, all child numbers and header bytes",
 "The tests use single fixed vectors and only a few blocks; the specialised unrolled transform has constants that depend on every message word.",
 ["src/btc/hash.c", "src/hash/sha2.c", "include/fingera_libc/btc/hash.h"],
 [("specialised double-SHA transform", "src/hash/sha2.c _hash256_d64_transform"), ("composition", "src/btc/hash.c")])
prop("C04", "Hex, Base64 and Base32 encode exactly as RFC 4648 and round-trip",
 "For every byte string, hex (either case), Base64 (padded, and URL-safe unpadded), Base32 (lower-case, padded) and the raw 5-bit regrouping produce exactly the RFC 4648 text, of exactly the length the matching length function announces. Decoding that text returns the original bytes and consumes all of it.",
 I, "all byte strings of all lengths (every tail class), all byte values in every position of a group",
 "The tests round-trip a small table of strings; a wrong bit in one tail class or one byte value is invisible to them.",
 ["src/hex.c", "src/base64.c", "src/base32.c", "include/fingera_libc/hex.h", "include/fingera_libc/base64.h", "include/fingera_libc/base32.h"],
 [("encoders and decoders", "src/hex.c, src/base64.c, src/base32.c"), ("length functions", "include/fingera_libc/*.h")])
prop("C05", "Hex, Base64 and Base32 decoders never turn illegal input into data",
 "For every string, decoding stops at the first symbol outside the alphabet: every byte returned is encoded by legal symbols before it (decoding may stop at the start of the group of symbols that holds the illegal one), and the returned size equals the announced full size only if every symbol that carries those bytes is legal. Only the given number of characters is looked at: the result never depends on what follows them in memory.",
 I, "all strings over all 256 byte values, all lengths, any number and position of illegal symbols, any bytes after the string",
 "The tests try two or three bad strings; the decoders are table driven over 256 byte values with separate code per tail class.",
 ["src/hex.c", "src/base64.c", "src/base32.c"],
 [("decode tables and illegal-symbol checks", "src/hex.c HEX_MAP; src/base64.c; src/base32.c")])
prop("C06", "Base58 is a canonical bijection that preserves leading zeros",
 "For every byte string, Base58 encoding gives the unique Base58 text (one '1' per leading zero byte, then the number in base 58 with no extra digit), and decoding it gives the byte string back. A string with a character outside the alphabet, or with white space anywhere but at its ends, decodes to nothing; every accepted string, trimmed, is the encoding of what it decodes to. (A NUL character ends the string.)",
 I, "all byte strings and all character strings up to several hundred characters, all counts of leading zeros / ones, all byte values in all positions",
 "The tests use one vector file of short strings; they do not reach long inputs (heap scratch), dense leading zeros, or systematic bad characters.",
 ["src/base58.c", "include/fingera_libc/base58.h", "include/fingera_libc/sl/buffer.h"],
 [("base conversion", "src/base58.c fingera_to_base58, fingera_from_base58")])
prop("C07", "Base58Check accepts a string only if its checksum is right",
 "Encoding appends the first four bytes of hash256(prefix || payload). Decoding returns prefix || payload exactly when all four checksum bytes match, and nothing otherwise, so every single-character corruption of a valid string is rejected (unless it happens to carry a right checksum).",
 I, "all prefixes and payloads, every single-character substitution, insertion, deletion and transposition, every checksum error pattern",
 "The tests decode valid strings; corrupted checksums are hardly tried, and never one byte at a time.",
 ["src/btc/base58_check.c", "include/fingera_libc/btc/base58_check.h"],
 [("checksum creation and comparison", "src/btc/base58_check.c")])
prop("C08", "Bech32 encodes and decodes as BIP173, with its error detection",
 "Encoding gives the BIP173 string for every human-readable part and data. Decoding succeeds exactly on the strings BIP173 calls valid (length at most 90, no mixed case, the last '1' as separator, a non-empty readable part in range, legal data characters, right checksum) and returns the lower-case readable part and the 5-bit data. Any change of up to four characters in the data part of a valid string is rejected.",
 I, "all strings over all byte values up to 91 characters; all error patterns of up to two substitutions on full-length strings and up to four on short ones, up to four on full-length strings by a linear model bound to the code",
 "The tests hold the BIP173 vectors; the error-detection guarantee ranges over millions of corruptions per string.",
 ["src/btc/bech32.c", "include/fingera_libc/btc/bech32.h"],
 [("checksum polynomial, case and separator rules", "src/btc/bech32.c")])
prop("C09", "Compressed integers are a canonical, prefix-free bijection on 64 bits",
 "For every unsigned and every signed 64-bit value, encoding gives at most ten bytes and decoding them returns the value and the number of bytes used. Every byte string the decoder accepts is exactly the encoding of the value it returns; truncated encodings and encodings of values that do not fit in 64 bits are refused, and bytes after the encoding are never used.",
 I, "all 2^64 values (exhaustively near every length boundary, power of two and extreme), all byte strings up to three bytes and all boundary-byte strings up to eleven",
 "The tests sample round trips of a range of values; the length boundaries near 2^63 and 2^64, the minimum signed value and hostile encodings are not among them.",
 ["src/compress_integer.c", "include/fingera_libc/compress_integer.h"],
 [("varint and zigzag", "src/compress_integer.c")])
prop("C10", "Bitcoin addresses round-trip and are accepted only in canonical form",
 "For every hash or witness program and every network, the address written decodes to the same kind and the same bytes on that network; it is not accepted as an address of a network with other prefixes. Every accepted address is one the encoder could have written for the result (Base58Check: right prefix and checksum; segwit: BIP173 with right readable part, version 0-16, program length 2-40 and 20 or 32 for version 0, zero padding of at most four bits); an output buffer announced too small yields a failure and nothing is written.",
 I, "all five kinds x three networks x all programs; all corrupted, truncated, mixed-case, wrongly padded or wrongly sized strings; all announced buffer sizes",
 "The tests decode and re-encode a table of good addresses and three bad ones.",
 ["src/btc/address.c", "src/btc/chain_parameters.c", "include/fingera_libc/btc/address.h"],
 [("kind detection and witness rules", "src/btc/address.c"), ("network prefixes", "src/btc/chain_parameters.c")])
prop("C11", "Private key strings (WIF) round-trip per network and compression flag",
 "For every 32-byte key, both compression flags and every network, the key string decodes to the same key and flag. A string is accepted only if its checksum is right, its prefix is the network's private-key prefix, and what follows is exactly 32 bytes, or 32 bytes and the byte 01; anything else, of any length, is refused.",
 I, "all keys, flags, networks and prefix lengths; all payload sizes, all prefix bytes, all trailing bytes, strings of any length",
 "The tests use a table of valid strings only.",
 ["src/btc/key.c", "src/btc/chain_parameters.c", "include/fingera_libc/btc/key.h"],
 [("key string codec", "src/btc/key.c fingera_btc_key_to_string, fingera_btc_key_from_string")])
prop("C12", "DER private keys carry the right key and are parsed safely",
 "Encoding a valid private key gives the standard 279-byte (uncompressed) or 214-byte (compressed) DER ECPrivateKey with the secp256k1 parameters and the matching public key; an invalid key is reported as a failure. Decoding returns the key for every encoding of the accepted grammar and fails, leaving no key, for every string outside it, every truncation, and every key that is zero or not below the group order.",
 I, "all keys including 0, 1, n-1, n; every byte value in every header position; every truncation and length form",
 "The tests encode and decode one random key per format.",
 ["src/btc/key.c", "include/fingera_libc/btc/key.h"],
 [("DER import and export", "src/btc/key.c ec_privkey_import_der, ec_privkey_export_der")])
prop("C13", "BIP32 derivation equals the specification and commutes with public derivation",
 "For every seed the master key is HMAC-SHA512(\"Bitcoin seed\", seed); for every parent and child number the derived key, chain code, depth, child number and stored fingerprint are those BIP32 defines, for private, hardened and public derivation and for every path. Deriving publicly from the public part gives the public part of the private derivation; hardened children are refused from a public key, and nothing is derived below depth 255.",
 ["inputs", "histories"], "all seeds, all keys (leading zeros, 1, n-1), all child numbers, all derivation paths up to the stated depth",
 "The tests replay the published BIP32 vectors: a few fixed paths of five steps.",
 ["src/btc/exkey.c", "src/btc/key.c", "src/btc/hash.c", "include/fingera_libc/btc/exkey.h"],
 [("derivation", "src/btc/key.c fingera_btc_key_derive, fingera_btc_pubkey_derive; src/btc/exkey.c")],
 state=[("extended key", "depth, fingerprint, child number, chain code, key", "include/fingera_libc/btc/exkey.h")])
prop("C14", "Extended keys serialise canonically and never cross network or kind",
 "For every extended private or public key the 74-byte form and the string (xprv, xpub, tprv, tpub) hold depth, parent fingerprint, child number, chain code and key at the BIP32 positions and byte order, and decode to the same extended key. A string is accepted only with a right checksum, the network's prefix of the right kind, and exactly 74 bytes behind it (with a zero byte before a private key); everything else, of any length, is refused.",
 I, "all field values (every byte position, extremes), all networks and kinds, all payload sizes and prefixes, strings of any length",
 "The tests round-trip the BIP32 vector keys on their own network.",
 ["src/btc/exkey.c", "src/btc/chain_parameters.c"],
 [("74-byte codec and string codec", "src/btc/exkey.c")])
prop("C15", "ECDSA signatures are deterministic, low-R, low-S, and verify only as made",
 "For every valid key and 32-byte hash, signing gives the RFC 6979 signature with the smallest counter (in the extra entropy, little-endian) whose R is below 2^255, with low S, so its DER form is at most 71 bytes. It verifies under the matching public key; its high-S twin verifies too; with a hash that differs modulo the group order, another key, or changed R or S it does not verify.",
 I, "all keys and hashes including extremes, all counters reached, every single-bit change of signature, hash and public key",
 "The tests sign and verify a few random keys and some fixed vectors; they cannot show determinism over all keys or rejection of every tampering.",
 ["src/btc/key.c", "include/fingera_libc/btc/key.h"],
 [("low-R grinding", "src/btc/key.c fingera_btc_key_sign, SigHasLowR"), ("normalisation before verify", "src/btc/key.c fingera_btc_key_verify")])
prop("C16", "Signature DER encoding is strict and its lax decoding is total and safe",
 "Encoding any signature gives its strict DER form. Decoding accepts exactly the lax grammar Bitcoin uses (long lengths, extra zero padding, trailing bytes, negative-looking integers), returns R and S for it, maps R or S out of range to a signature that never verifies, and refuses every other string; it returns for every byte string without reading outside it.",
 I, "all signatures; all byte strings of the lax grammar with every length form, padding, truncation and corrupted byte within the stated bounds",
 "The tests round-trip well-formed signatures only.",
 ["src/btc/key.c"],
 [("lax parser", "src/btc/key.c ecdsa_signature_parse_der_lax"), ("serialiser", "src/btc/key.c fingera_btc_signature_encode")])
prop("C17", "Public keys match private keys, encode both ways and reject invalid points",
 "For every valid private key the public key is that multiple of the secp256k1 generator; its 33- and 65-byte encodings are the SEC1 ones and decode to the same public key. Encodings that are not a point of the curve in an accepted form are refused; key id and fingerprint are hash160 of the chosen encoding and its first four bytes.",
 I, "all keys including 1, n-1 and small multiples, all prefix bytes, x and y coordinates on and off the curve and above the field size",
 "The tests use a few keys; invalid encodings are not tried.",
 ["src/btc/key.c", "include/fingera_libc/btc/key.h"],
 [("public key functions", "src/btc/key.c fingera_btc_key_get_pub, fingera_btc_pubkey_encode, fingera_btc_pubkey_decode, *_keyid, *_fingerprint")])
prop("C18", "Random bytes are complete or the process stops",
 "Under every sequence of short reads and errors of the operating system's random source, a request either returns with every requested byte filled with bytes the source gave during that very call (never bytes held over from an earlier one, nor from before a fork), in the buffer and nowhere else, and the source closed, or, if the source failed, it does not return at all: the process ends with a non-zero status.",
 ["fault_sequences", "inputs"], "all request sizes, all sequences of open/read results (full, short of any length, end of file, error, interrupted) within the stated bounds",
 "The real source always gives full reads, so the tests only ever see one schedule.",
 ["src/random.c", "src/error.c", "include/fingera_libc/random.h"],
 [("read loop", "src/random.c fingera_os_rand_bytes"), ("fatal exit", "src/error.c fingera_fatal")],
 observe=["open/read/close and exit calls made by the library"])
prop("C19", "No call touches memory outside the buffers it was given",
 "For every input, valid or hostile, every function writes only inside its output buffer of the announced size and reads only the given number of input bytes (no terminator is assumed), and returns without crashing. This holds on both sides of every internal switch between stack and heap scratch memory.",
 I, "all functions x all input lengths (0 to several hundred) x hostile contents, exact-size buffers",
 "The tests use oversized buffers and NUL-terminated strings, under which overreads and small overruns are invisible.",
 ["src", "include/fingera_libc"],
 [("size functions and bounded loops", "include/fingera_libc/*.h, src/*.c"), ("stack/heap scratch", "include/fingera_libc/sl/buffer.h")])
prop("C20", "Concurrent calls behave as if each ran alone",
 "After initialisation, calls made at the same time from different threads on different output buffers return exactly what each returns alone, under every interleaving of their memory accesses; random bytes are never given out twice. (The debug dump to standard output is left out.)",
 ["schedules"], "all interleavings (up to the stated preemption bound) of all pairs of operations, and of triples, at accesses to memory both can reach",
 "The suite is single threaded.",
 ["src"],
 [("no mutable shared state besides the read-only signing and verification contexts", "src/btc/key.c secp256k1_context_sign, secp256k1_context_verify; all other state on the stack or in per-call heap blocks")],
 state=[("signing and verification contexts", "process-wide, written only by init/uninit", "src/btc/key.c")])
prop("C21", "Results do not depend on history, and nothing is leaked",
 "What a call returns depends only on its arguments: after any sequence of other calls, failed ones and repeated init/uninit cycles included, it returns what it returns in a fresh process, whatever unused memory contains. No sequence of calls leaks heap memory or file descriptors once uninitialised.",
 ["histories"], "all sequences of operations up to the stated depth over an alphabet covering the whole API, all fill patterns of fresh stack and heap memory",
 "The tests call each function in one order in one process.",
 ["src"],
 [("all working state is per call; the two contexts are recreated by init", "src/btc/key.c fingera_btc_key_init, fingera_btc_key_uninit")])
prop("C22", "Secret material is wiped from scratch memory before it is released",
 "The cleanse function overwrites exactly the bytes it is given and is never optimised away. After a call that handled a secret (a private key, a seed, a MAC key, a hashed or MACed message, or a tweak or digest made from one, a checksum aside) returns, no copy of it remains in heap blocks the call freed or in the stack area it used (single words in local variables aside), on success and on failure paths alike.",
 I, "all secret-handling text codecs and MACs, all payload sizes on both sides of the stack/heap switch, success and failure paths, several optimisation levels",
 "Dead memory is not observable through the API the tests use.",
 ["src/cleanse.c", "src/base58.c", "src/btc/base58_check.c", "src/btc/key.c", "src/btc/exkey.c", "src/hash/sha2.c"],
 [("cleanse before every release", "src/cleanse.c fingera_cleanse and its callers")])
prop("C23", "Results do not depend on placement, aliasing or build mode",
 "For every input, results are the same at every alignment of inputs and outputs, when a digest, MAC, merkle level or derived key is written over its own input, and in builds with and without assertions at every optimisation level.",
 ["inputs", "configurations"], "all alignments 0-15, all supported in-place uses, builds -O0/-O1/-O2/-O3 with and without NDEBUG",
 "The tests run one build with naturally aligned separate buffers.",
 ["src"],
 [("byte-wise loads, outputs written last", "include/fingera_libc/endian.h; src/hash/*.c; src/btc/key.c")])
prop("C24", "hex_dump prints every byte once, in order, in the fixed layout",
 "For every buffer and size, the dump on standard output is the two hex digits of every byte in order, with one space before every 4th, two before every 8th, three before every 16th byte and three spaces and a newline before every 32nd, and a final newline. Nothing is lost or duplicated where the output is flushed in pieces.",
 I, "all sizes up to several thousand (every flush position), all byte values, both cases",
 "The one test that calls it does not look at its output.",
 ["src/hex.c", "include/fingera_libc/hex.h"],
 [("1 KiB cache and flush", "src/hex.c fingera_hex_dump")])
prop("C25", "A new private key is always valid and is exactly an accepted random draw",
 "Under every sequence of random draws, key generation returns the first 32-byte draw that is a valid key (not zero, below the group order), unchanged. It skips every invalid draw, however many there are and however the bytes arrive.",
 ["fault_sequences", "inputs"], "all sequences of draws from {0, n-1, n, n+1, 2^256-1, valid keys} up to the stated length, delivered in all chunkings",
 "A real random source gives an invalid draw with probability 2^-128.",
 ["src/btc/key.c", "src/random.c"],
 [("retry loop", "src/btc/key.c fingera_btc_key_new")])
prop("C26", "A fatal error always reports and never returns",
 "The fatal-error function prints its formatted message, the function, file and line, and the text of errno if it is set, to standard error, and then ends the process with a non-zero status, for every message and state; it never returns to its caller.",
 ["inputs", "fault_sequences"], "all argument shapes, errno values, and states of standard error (open, closed, full)",
 "No test provokes a fatal error.",
 ["src/error.c", "include/fingera_libc/error.h"],
 [("fatal", "src/error.c fingera_fatal")])
prop("C27", "A failing cryptographic step is reported, never passed off as success",
 "Whichever of the elliptic-curve operations beneath a call fails, a call that can report failure never passes it off as success: derivation, encoding, decoding and verification return failure (or stop the process), and signing leaves no signature that verifies. When none fails, they succeed.",
 ["fault_sequences"], "all placements of up to three failures among the elliptic-curve calls of every operation",
 "These failures need inputs of probability 2^-127; no test can provide one.",
 ["src/btc/key.c", "src/btc/exkey.c"],
 [("return-code checks", "src/btc/key.c, src/btc/exkey.c")])
prop("C28", "Endian helpers read and write exactly the stated byte order at any address",
 "For every value and every address, aligned or not, the little- and big-endian 32- and 64-bit helpers read and write exactly the bytes of the stated order, and no other bytes.",
 I, "every value of every byte in every position, all offsets 0-15", "No test calls them directly.",
 ["include/fingera_libc/endian.h"],
 [("memcpy plus byte swap", "include/fingera_libc/endian.h")])
prop("C29", "Results do not depend on the locale, errno or other settings of the process",
 "Whatever locale the process has set, whatever errno holds, whichever floating-point rounding mode, standard descriptors, descriptor limit, environment variables, working directory, umask, user, signal settings or thread a call runs under, it returns what it returns by default. No call changes such a setting, the signal handlers, the open descriptors or the state of the program's own rand() generators.",
 ["configurations", "inputs"], "all functions x locales (Turkish, decimal-comma, multi-byte, extra white space) x every errno x rounding modes x descriptor tables x environments x users x threads",
 "The suite runs in one process under the C locale with errno zero and descriptors 0, 1 and 2 open; letter case, white space and number output of the C library change with the locale.",
 ["src/base58.c", "src/btc/bech32.c", "src/random.c", "src/error.c", "src/hex.c", "src/btc/key.c"],
 [("lower-casing and white space", "src/btc/bech32.c fingera_bech32_decode; src/base58.c fingera_from_base58"), ("descriptors", "src/random.c fingera_os_rand_bytes"), ("printed numbers", "src/error.c fingera_fatal")])
prop("C30", "Running out of memory is never passed off as a result",
 "Whichever requests for memory are refused during a call, the call returns what it always returns, or reports failure, or ends the process with a message on standard error and a non-zero status. It never uses memory it did not get, returns a wrong result or leaks what it did get, and later calls are unaffected.",
 ["fault_sequences", "inputs"], "every subset of the requests for memory a call makes, all sizes on both sides of the switch between stack and heap; inputs too large for the address space",
 "No test refuses a request for memory.",
 ["include/fingera_libc/sl/buffer.h", "src/base58.c", "src/btc/base58_check.c", "src/btc/key.c", "src/btc/exkey.c", "src/btc/address.c"],
 [("scratch buffer on the stack or the heap", "include/fingera_libc/sl/buffer.h DECLARE_BUFFER")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
