#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

API = "crypto_kem_keypair / crypto_kem_enc / crypto_kem_dec (public API)"

p("C01", "Both parties derive the same shared secret",
  "In each of the four parameter sets, for every key pair generated from any seed whose private polynomials are non-zero and for every encapsulation to its public key, decapsulating the unmodified ciphertext with the matching secret key succeeds and returns exactly the shared secret the encapsulating party obtained. NTRU round 3 has no decryption failures, so there is no exceptional key, message or randomness.",
  ["inputs", "configurations"],
  "all four parameter sets; all key-generation seeds with f,g non-zero; all encapsulation randomness",
  "The only round trip in the suite is the doc-test with one seed per variant; the key and message spaces are astronomically larger and failures of lattice schemes are typically confined to rare keys or messages.",
  ["src/kem.rs", "src/owcpa.rs", "src/poly.rs", "src/poly_lift.rs", "src/poly_mod.rs", "src/poly_s3_inv.rs", "src/poly_r2_inv.rs", "src/poly_rq_mul.rs", "src/sample.rs"],
  [("parameters chosen so that no decryption failure exists", "src/params.rs"), ("inverse computation", "src/poly.rs, src/poly_s3_inv.rs, src/poly_r2_inv.rs"), ("decryption m = f_3^-1 * (c*f mod q), r = (c - lift(m)) / h", "src/owcpa.rs owcpa_dec")],
  [API])

p("C02", "Key generation is bit-exact NTRU round 3",
  "For every randomness stream with non-zero private polynomials, key generation returns exactly the public key and secret key bytes that the NTRU round-3 specification prescribes for that parameter set: sampling, f, f^-1 mod 3, 1/h mod q and h = 3g/f in the specified packing, followed by the 32-byte rejection key drawn second. Keys are therefore interchangeable with every other conforming implementation.",
  ["inputs", "configurations"],
  "all four parameter sets; all RNG outputs with f,g non-zero",
  "One zero-seed key pair per variant is compared; every other f and g (special shapes, ties in the sort keys, sign corner cases of HRSS) is unexamined.",
  ["src/kem.rs", "src/owcpa.rs", "src/sample.rs", "src/sample_iid.rs", "src/crypto_sort_int32.rs", "src/poly.rs", "src/poly_s3_inv.rs", "src/poly_r2_inv.rs", "src/pack3.rs", "src/packq.rs"],
  [("seed to (f,g) sampling", "src/sample.rs"), ("constant-time inversions", "src/poly_s3_inv.rs, src/poly_r2_inv.rs, src/poly.rs"), ("key layout", "src/owcpa.rs owcpa_keypair, src/kem.rs crypto_kem_keypair")],
  ["crypto_kem_keypair(pk, sk, rng)"])

p("C03", "Encapsulation is bit-exact NTRU round 3",
  "For every public-key byte string (including adversarial ones with non-zero padding bits) and every randomness, encapsulation returns the ciphertext r*h + lift(m) mod (q, x^n - 1), packed with zero padding, and the secret SHA3-256(pack(r) || pack(m)), with r and m sampled exactly as the NTRU round-3 specification prescribes.",
  ["inputs", "configurations"],
  "all four parameter sets; all public-key byte strings; all RNG outputs",
  "The suite encapsulates once per variant, to the all-zero public key, so multiplication by the key is not tested at all and sampling only for one seed.",
  ["src/kem.rs", "src/owcpa.rs", "src/sample.rs", "src/sample_iid.rs", "src/crypto_sort_int32.rs", "src/poly_lift.rs", "src/poly_rq_mul.rs", "src/packq.rs", "src/pack3.rs"],
  [("sampling r and m", "src/sample.rs sample_rm"), ("ciphertext computation", "src/owcpa.rs owcpa_enc"), ("hashing", "src/kem.rs crypto_kem_enc")],
  ["crypto_kem_enc(c, k, pk, rng)"])

p("C04", "Decapsulation accepts exactly the honest ciphertexts",
  "For every well-formed secret key and every ciphertext byte string, decapsulation returns the message-derived secret SHA3-256(pack(r) || pack(m)) if the string is exactly the encryption, under the key belonging to that secret key, of some r and m from the message space; and for any other string (a coefficient of r outside {-1,0,1}, m of the wrong weight, non-zero padding bits, any modification) it never returns a secret that can be computed without the rejection key.",
  ["inputs", "configurations"],
  "all four parameter sets; all well-formed secret keys; all ciphertext byte strings",
  "One valid ciphertext per variant is decapsulated; no invalid ciphertext is ever presented, so every validity check could be dropped without a failing test.",
  ["src/owcpa.rs", "src/kem.rs", "src/cmov.rs", "src/packq.rs", "src/poly_mod.rs", "src/poly.rs"],
  [("padding check", "src/owcpa.rs owcpa_check_ciphertext"), ("r in ternary range check", "src/owcpa.rs owcpa_check_r"), ("weight check of m (HPS)", "src/owcpa.rs owcpa_check_m"), ("selection by fail flag", "src/cmov.rs")],
  ["crypto_kem_dec(k, c, sk)"])

p("C05", "Invalid ciphertexts give the implicit-rejection key",
  "For every secret key and every ciphertext byte string that is not an honest encryption, decapsulation reports success and returns SHA3-256(rejection key || ciphertext), over all 32 rejection-key bytes and all ciphertext bytes; all 32 bytes of the result are replaced, nothing of the decrypted candidate remains, and repeating the call gives the same value.",
  ["inputs", "configurations"],
  "all four parameter sets; all secret keys; all invalid ciphertext byte strings",
  "No test decapsulates an invalid ciphertext; the rejection path's output is never observed.",
  ["src/kem.rs", "src/cmov.rs", "src/owcpa.rs"],
  [("PRF over rejection key and ciphertext", "src/kem.rs crypto_kem_dec"), ("constant-time move", "src/cmov.rs")],
  ["crypto_kem_dec(k, c, sk)"])

p("C06", "The KEM never panics and does not depend on the build profile",
  "For every public-key, secret-key and ciphertext byte string and every output of a working RNG, all three KEM operations return Ok without panicking or looping, in builds with and without overflow checks and debug assertions; unoptimised, checked and release builds return identical bytes.",
  ["inputs", "configurations"],
  "all byte strings of the right length as pk, sk, ct; all RNG outputs, degenerate ones included; debug, checked-optimised and release profiles; all four parameter sets",
  "Arithmetic-overflow panics depend on rare intermediate values (one key in thousands); tests run three inputs in one profile.",
  ["src/poly.rs", "src/poly_mod.rs", "src/poly_lift.rs", "src/poly_rq_mul.rs", "src/poly_s3_inv.rs", "src/poly_r2_inv.rs", "src/sample.rs", "src/owcpa.rs", "src/kem.rs", "src/pack3.rs", "src/packq.rs"],
  [("wrapping arithmetic mod 2^16", "src/poly_rq_mul.rs, src/poly.rs, src/owcpa.rs"), ("bounded intermediate values", "src/poly_mod.rs, src/poly_lift.rs, src/pack3.rs")],
  [API])

p("C07", "RNG failures are reported and never yield keys or secrets",
  "If the caller's RNG fails at any request, key generation and encapsulation return that very error, make no further RNG request and never report success. A failed encapsulation, and a key generation whose first request fails, leave every caller buffer untouched even if the RNG had partially filled its own buffer.",
  ["fault_sequences", "inputs"],
  "a failure at every RNG request of every operation, with every kind of partial fill before the failure, in every position of a sequence of operations",
  "The shipped RNG never fails, so no test executes an error path.",
  ["src/kem.rs", "src/rng.rs"],
  [("error propagation with ?", "src/kem.rs"), ("trait contract", "src/rng.rs RNGState")],
  ["Result of crypto_kem_keypair / crypto_kem_enc and the caller's buffers"])

p("C08", "Randomness is consumed in exactly the reference pattern",
  "Key generation asks the RNG for exactly two blocks, first the (f,g) sampling seed of the parameter set's length and then 32 bytes that become the rejection key verbatim; encapsulation asks for exactly one block, the (r,m) seed; decapsulation asks for none, and none of them re-initialises the RNG. Results are a function of the explicit inputs and of those bytes only, and every bit of them that the specification uses influences the result.",
  ["inputs", "histories"],
  "all operations, all RNG outputs, every position in a history of operations on one RNG",
  "Tests see only final outputs for one RNG state; a changed draw pattern or an ignored or re-used random byte elsewhere goes unnoticed.",
  ["src/kem.rs", "src/sample.rs", "src/sample_iid.rs", "src/params.rs"],
  [("draws", "src/kem.rs"), ("splitting of the seed", "src/sample.rs")],
  ["the RNGState calls made, and the outputs"])

p("C09", "The bundled RNG is the NIST AES-256 CTR DRBG",
  "For every generator state (including 128-bit counter carries through every byte and the wrap-around), every request length and every history of initialisations and requests, the generator delivers exactly the bytes and reaches exactly the key/counter state of NIST's AES-256 CTR DRBG, counts each request, never fails and never panics. Initialisation discards all previous state, and a clone continues the same stream independently.",
  ["inputs", "histories"],
  "all states (key, v, request counter), request lengths and operation histories",
  "The test makes two 256-byte requests from one seed: no partial blocks, no empty requests, no re-initialisation, no carry beyond the lowest byte.",
  ["src/rng.rs"],
  [("counter increment", "src/rng.rs randombytes, aes256_ctr_update"), ("update after each request", "src/rng.rs aes256_ctr_update"), ("initialisation", "src/rng.rs randombytes_init")],
  ["AesState (public fields key, v, reseed_counter), randombytes, randombytes_init"],
  [dict(name="AesState", meaning="key, counter block and request counter", where="src/rng.rs")])

p("C10", "Operations carry no hidden state",
  "Every result depends only on that call's inputs and RNG bytes: not on earlier calls, on the previous contents of the output buffers, on buffers being re-used at the same address, on operations that run while this one waits for its RNG or that run at the same time on another thread, nor on the thread. Inputs passed by shared reference are never modified.",
  ["histories", "schedules", "inputs"],
  "all sequences of KEM and RNG operations over keys and ciphertexts that nearly collide, with buffers fresh or re-used and dirty, and all interleavings of operations, on one or several threads",
  "Each test performs a single call on fresh zeroed buffers in a fixed order.",
  ["src/kem.rs", "src/owcpa.rs", "src/pack3.rs", "src/packq.rs", "src/sample.rs", "src/rng.rs", "src/lib.rs"],
  [("all working state is local", "src/*.rs"), ("output buffers fully overwritten", "src/kem.rs, src/pack3.rs, src/packq.rs")],
  [API])

p("C11", "Sampled secrets always have the prescribed shape",
  "Whatever bytes the RNG delivers, f and r are ternary polynomials with zero top coefficient; in the HPS sets g and m have exactly q/16-1 coefficients +1 and as many -1; in the HRSS set f and g satisfy the non-negative correlation <x*v,v> >= 0. For HPS every arrangement of the fixed-type coefficients is the one obtained by sorting the random keys, including equal and extreme keys.",
  ["inputs", "configurations"],
  "all RNG outputs, including constant, sorted, reversed, tied and extreme patterns",
  "Tests sample from three seeds; sort keys with ties, extreme values or special orders never occur.",
  ["src/sample.rs", "src/sample_iid.rs", "src/crypto_sort_int32.rs", "src/poly_mod.rs"],
  [("sample_iid, sample_iid_plus, sample_fixed_type", "src/sample.rs, src/sample_iid.rs"), ("constant-time sorting network", "src/crypto_sort_int32.rs")],
  ["f in sk, g = f*h/3, r and m through the ciphertext and the secret"])

p("C12", "Generated keys satisfy the NTRU key equations",
  "For every generated key pair with non-zero private polynomials the stored polynomials satisfy f * f3 = 1 mod (3, Phi_n), h * hinv = 1 mod (q, Phi_n), h(1) = 0 mod q and f * h = 3g mod (q, Phi_n) with g small (times x-1 for HRSS), where h is the public key and f, f3, hinv are the parts of the secret key.",
  ["inputs", "configurations"],
  "all seeds with non-zero private polynomials, all parameter sets",
  "One key pair per variant; the inversions have data-dependent swap sequences that one key cannot exercise.",
  ["src/owcpa.rs", "src/poly.rs", "src/poly_s3_inv.rs", "src/poly_r2_inv.rs", "src/poly_rq_mul.rs"],
  [("division steps mod 2 and mod 3", "src/poly_r2_inv.rs, src/poly_s3_inv.rs"), ("Newton lifting to q", "src/poly.rs poly_r2_inv_to_rq_inv")],
  ["pk, sk of crypto_kem_keypair"])

p("C13", "Encodings are canonical and lossless at every coefficient",
  "Public keys, ciphertexts and secret keys are always emitted in canonical form: exact length, every coefficient reduced, ternary bytes below 243 (below 3^k for a final byte of k trits), all padding bits zero. Reading a public key or ciphertext recovers every coefficient value at every position exactly (padding bits of a public key are ignored), so packing and unpacking are inverse to each other.",
  ["inputs", "configurations"],
  "every coefficient position, every coefficient value and every neighbouring value; all padding-bit patterns; all parameter sets",
  "One packing test with all coefficients 7; unpacking and the group tails are only seen through three keys.",
  ["src/packq.rs", "src/pack3.rs", "src/owcpa.rs"],
  [("q-packing", "src/packq.rs"), ("ternary packing", "src/pack3.rs")],
  ["pk, sk, ct bytes; encapsulation with r = 1; decapsulation"])

p("C14", "Secrets do not influence control flow or memory addresses",
  "In an optimised build, for fixed public inputs, the sequence of executed basic blocks and of addresses read and written inside the library is the same for every secret: seed bytes and private polynomials in key generation, r and m in encapsulation, the secret key (and whether the ciphertext is accepted or rejected) in decapsulation.",
  ["inputs", "configurations"],
  "all pairs of secrets for the same public inputs, all three operations, all parameter sets",
  "Timing behaviour is a relation between two executions; the functional tests cannot express it.",
  ["src/owcpa.rs", "src/cmov.rs", "src/crypto_sort_int32.rs", "src/poly_s3_inv.rs", "src/poly_r2_inv.rs", "src/poly_mod.rs", "src/poly_lift.rs", "src/sample.rs", "src/kem.rs"],
  [("branch-free masks", "src/cmov.rs, src/crypto_sort_int32.rs, src/poly_s3_inv.rs, src/poly_r2_inv.rs"), ("flag accumulation without early exit", "src/owcpa.rs")],
  ["basic-block and memory-address trace of the compiled library"])

p("C15", "Exactly the four published parameter sets can be selected",
  "Selecting one of the four features gives the published name and the published sizes of public key, secret key, ciphertext and shared secret (699/935/699/32, 930/1234/930/32, 1230/1590/1230/32, 1138/1450/1138/32) and keys of that parameter set; selecting none gives ntruhps2048509; every combination of two or more is refused at build time.",
  ["configurations"],
  "all 16 subsets of the four variant features",
  "Tests are compiled per variant and compare with the same constants they test; conflicting selections are never built.",
  ["src/api.rs", "src/params.rs", "src/lib.rs", "build.rs", "Cargo.toml"],
  [("feature selection", "build.rs, src/api.rs, src/params.rs")],
  ["public constants, build outcome, key/ciphertext behaviour"])

p("C16", "Known-answer files are reproduced and verified",
  "For each parameter set the known-answer generator writes a request file with the 100 standard seeds and a response file whose 100 records equal, byte for byte, those of the NTRU round-3 reference for these seeds; verifying that response file succeeds, and verifying it with the seed, public key, secret key, ciphertext or shared secret of any record altered, emptied or missing, or with the file ending before any of the records, fails.",
  ["inputs", "fault_sequences", "configurations"],
  "all 100 records x all parameter sets; all single-field alterations and omissions; all truncations at a record",
  "The suite neither generates nor verifies a known-answer file.",
  ["examples/katkem.rs", "src/kem.rs", "src/rng.rs"],
  [("generation and verification", "examples/katkem.rs"), ("deterministic RNG", "src/rng.rs")],
  ["katkem example: files and exit status"])

p("C17", "Operations act on nothing but their arguments",
  "Key generation, encapsulation, decapsulation (of valid and of invalid ciphertexts), the generator AesState and the failure of a caller's RNG have no effect outside the arguments and no input besides them, for every input: nothing is printed, no file, socket, process or thread is used, the environment, the clock and the operating system's entropy are not read, and the process is not ended. Requesting and returning memory is not an effect.",
  ["inputs", "fault_sequences", "configurations"],
  "all inputs of all operations including rejected ciphertexts and failing RNGs; all parameter sets",
  "The tests look at return values only: a diagnostic that prints a secret for a rare input, or a debugging switch read from the environment, passes all of them.",
  ["src/kem.rs", "src/owcpa.rs", "src/rng.rs", "src/sample.rs", "src/poly.rs"],
  [("implicit rejection without diagnostics", "src/kem.rs crypto_kem_dec"), ("caller-supplied randomness only", "src/rng.rs RNGState")],
  ["system calls, environment and clock reads of the calling thread during the call"])

p("C18", "Operations keep no memory and need a bounded amount of it",
  "Key generation, encapsulation, decapsulation (of valid and of invalid ciphertexts) and the generator's requests, for every input and also when the caller's RNG fails or panics, give back the heap memory they take: repeating a call or making calls with many different inputs does not make the memory held by the library grow. One operation holds at most 1 MiB of heap memory and uses at most 256 KiB of stack, in optimised and in unoptimised builds, whatever the length of a request to the generator.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all inputs of all operations including rejected ciphertexts, failing and panicking RNGs; long runs of different inputs; all parameter sets",
  "The tests neither measure memory nor repeat an operation often enough to notice growth.",
  ["src/kem.rs", "src/owcpa.rs", "src/rng.rs", "src/poly.rs", "src/poly_s3_inv.rs", "src/poly_r2_inv.rs"],
  [("polynomials on the stack", "src/poly.rs, src/owcpa.rs"), ("error values of the RNG handed through", "src/rng.rs, src/kem.rs")],
  ["heap allocations and stack depth of the calling thread during the call"])

p("C19", "Generator states are plain values",
  "AesState is a value made of key, v and reseed_counter: two states compare equal exactly if all three fields are equal (in both directions, and != is the opposite); new() and default() are the all-zero state; a clone (also by clone_from) equals its original, goes on to give the same bytes and is independent of it; a state with the same fields behaves the same; the Display and the Debug text of two states are equal exactly if the states are; comparing, cloning and formatting change nothing.",
  ["inputs", "histories"],
  "all pairs of states, all requests on states and their copies",
  "One test prints no state and compares none; saved and restored generators rely on it.",
  ["src/rng.rs"],
  [("derived comparison and copying", "src/rng.rs AesState"), ("Display, Default", "src/rng.rs")],
  ["==, !=, clone, clone_from, Default, Display, Debug, randombytes of AesState"])

p("C20", "Decapsulation follows the specification for any secret-key string",
  "For every secret-key byte string, also one that no key generation produces (ternary bytes of 243 and more, zero or mutually inconsistent parts, unused bits set), and every ciphertext, decapsulation returns exactly what the NTRU round-3 algorithm computes from these bytes: SHA3-256(pack(r) || pack(m)) if the recovered r and m have the prescribed shape and the ciphertext's padding is zero, SHA3-256(rejection key || ciphertext) otherwise. Ternary bytes are read as base-3 digits, each taken modulo 3, and unused bits of the secret key are ignored.",
  ["inputs", "configurations"],
  "all byte strings as secret keys and ciphertexts, in particular keys with arbitrary f, f3 and inverse public key for which the ciphertext is accepted",
  "The tests only decapsulate with freshly generated keys; damaged or imported keys must give the same result in every implementation.",
  ["src/kem.rs", "src/owcpa.rs", "src/pack3.rs", "src/packq.rs", "src/poly_mod.rs", "src/poly_lift.rs", "src/poly_rq_mul.rs"],
  [("unpacking of ternary and mod-q polynomials", "src/pack3.rs, src/packq.rs"), ("decryption and validity tests", "src/owcpa.rs")],
  ["crypto_kem_dec"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
