#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (claims exactly the properties that have a check module)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, O = "Reference_Implementation", "Optimized_Implementation/common"
A = "Optimized_Implementation/avx2"


def two(*f):
    return [f"{b}/{x}" for x in f for b in (R, O)]


TESTS = "The existing tests run a handful of seeded round trips per parameter set"
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), note="", technique=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, observe=observe, note=note, technique=technique))


p("P01", "Every honestly produced signature verifies and returns the message",
  "For every generated key pair and every message of any length, including the empty one, signing succeeds, and verifying the signed message under the matching public key accepts and returns exactly the signed message and its length. This holds in every parameter set and implementation and for every challenge the message digest can expand to, including those that publish the largest possible number of seeds.",
  ["inputs", "configurations"], "all keys, messages and lengths, generator states and challenges; seven parameter sets, reference and AVX2",
  TESTS + " on short messages with random challenges; extreme challenges (worst-case seed path) have negligible probability at random and were in fact rejected before the fix.",
  two("lib/LESS.c", "lib/sign.c", "lib/seedtree.c", "lib/codes.c"),
  [("signature assembly and length byte", f"{R}/lib/LESS.c LESS_sign"), ("parsing of a signed message", f"{R}/lib/sign.c crypto_sign_open")],
  observe=["crypto_sign_keypair", "crypto_sign", "crypto_sign_open"], technique="property-based round trip with substituted worst-case challenges (Hypothesis)")

p("P02", "Verification accepts exactly the genuine signatures",
  "A signed message is accepted under a public key if and only if the verification equation of the scheme holds for that exact message, signature and key. In particular any alteration of the message (at any position, of any length, by truncation or extension), of the salt, digest, seeds or seed count, of the public key, or of a response makes an accepted signed message rejected; the only exceptions are those the equation itself does not see: a common nonzero factor on all coefficients of one response, public key matrices that no challenged round uses, and a published seed from which no round's seed is derived (the tree has more leaves than there are rounds).",
  ["inputs", "configurations"], "all triples (public key, message, signature), in particular every single alteration of a genuine one; messages up to beyond 4 GiB",
  TESTS + " of genuine signatures only: no test alters anything, so a verifier that ignores part of its input passes.",
  two("lib/LESS.c", "lib/sign.c", "lib/monomial.c"),
  [("comparison of the recomputed digest", f"{R}/lib/LESS.c LESS_verify"), ("validity of the received actions", f"{R}/lib/monomial.c is_monom_action_valid")],
  observe=["crypto_sign_open", "LESS_verify"], technique="differential testing of mutated signatures against an executable model (Hypothesis)")

p("P03", "Arbitrary input to verification is rejected cleanly, without memory errors",
  "Whatever bytes are given as signed message and public key, and whatever the length of the signed message, verification terminates with accept or reject, reads only the given buffers, and writes only inside the message buffer and the length output. Key generation and signing likewise stay inside their buffers for every message length.",
  ["inputs"], "arbitrary byte strings as signed message (any length, including shorter than a signature) and as public key",
  "No existing test passes malformed input; undefined behaviour on it is invisible without instrumentation. Before the fixes a short or malformed input read far outside the buffers.",
  two("lib/sign.c", "lib/LESS.c", "lib/codes.c", "lib/monomial.c", "lib/seedtree.c"),
  [("length and seed count checks", f"{R}/lib/sign.c crypto_sign_open"), ("public key and action validation", f"{R}/lib/LESS.c LESS_verify")],
  observe=["crypto_sign_open under AddressSanitizer and UndefinedBehaviorSanitizer, with page-guarded buffers"], technique="structure-aware and coverage-guided fuzzing under sanitizers (Hypothesis, libFuzzer)")

p("P04", "Each signature has a single accepted encoding",
  "Given an accepted signed message and key, no other byte string that carries the same signature content is accepted: unused bits, the seed count, the number of seeds, surplus or missing bytes, out-of-range values and alternative encodings of the public key matrices all lead to rejection. The accepted encoding is the one signing produces, and its length is determined by the seed count.",
  ["inputs"], "all re-encodings of a genuine signature and public key: padding bits, counts, lengths, out-of-range coefficients and positions",
  "No test presents a non-canonical encoding; before the fixes several were accepted.",
  two("lib/sign.c", "lib/LESS.c", "lib/codes.c", "lib/monomial.c"),
  [("seed count check", f"{R}/lib/LESS.c LESS_verify"), ("range checks", f"{R}/lib/monomial.c is_monom_action_valid")],
  observe=["crypto_sign_open"], technique="metamorphic testing: every re-encoding of a genuine signature must be rejected (Hypothesis)")

p("P05", "All implementations are interchangeable",
  "For the same generator state, keys and message, the reference and the vectorised implementations produce byte-identical keys and signatures, and they give the same verdict on every signed message and public key, genuine or not. Every internal stage with a common meaning (sampling, row reduction, canonical form, compression, seed tree, challenge) gives the same result in all of them.",
  ["inputs", "configurations"], "all inputs; reference against AVX2 (and NEON through an emulated intrinsics header) in every parameter set",
  "The existing tests run each implementation only against itself.",
  two("lib/codes.c", "lib/monomial.c", "lib/LESS.c", "include/fq_arith.h") + [f"{A}/include/macro.h", "Optimized_Implementation/neon/include/macro.h"],
  [("vectorised elimination and sorting", f"{O}/lib/codes.c"), ("vector macros", f"{A}/include/macro.h")],
  observe=["crypto_sign_keypair", "crypto_sign", "crypto_sign_open", "stage functions"], technique="differential testing between implementations (Hypothesis)")

p("P06", "Results depend only on the arguments and the random generator's state",
  "Key generation, signing and verification are functions of their arguments and of the random generator state: they give the same result whatever calls preceded them, whatever the uninitialised memory contains, and they leave inputs unmodified. Verification neither uses nor changes the generator, and signing and key generation always consume the same amount from it.",
  ["histories", "inputs"], "all histories of interleaved key generation, signing and verification calls, failed verifications included; all contents of uninitialised memory",
  TESTS + " in one order in a fresh process; dependence on leftovers of earlier calls or on stack contents does not show.",
  two("lib/LESS.c", "lib/sign.c", "lib/rng.c", "lib/codes.c"),
  [("global generator state", f"{R}/lib/rng.c")], state=[("platform generator", "the only state kept between calls", f"{R}/lib/rng.c platform_csprng_state")],
  observe=["outputs of a call in a long history compared with the same call in a fresh process"], technique="stateful (model-based) testing over call histories (Hypothesis)")

p("P07", "Keys and signatures conform byte for byte to the scheme",
  "For every generator seed, secret key and message, the public key and the signature are exactly those the scheme defines: private and ephemeral seeds derived from the generator in the documented order, commitments hashed in order with the message and the salt, responses packed in challenge order, and the published seeds and their count at the end. Verification of a conforming signature made by an independent implementation accepts it. The library's own key generation, signing and verification functions give the same results as the NIST interface.",
  ["inputs", "configurations"], "all seeds, keys and messages in every parameter set and implementation",
  TESTS + ", which any self-consistent deviation (a dropped salt, a changed domain separation, a reordered hash input) still passes.",
  two("lib/LESS.c", "lib/sign.c", "lib/monomial.c", "lib/seedtree.c", "lib/utils.c"),
  [("commitment and digest computation", f"{R}/lib/LESS.c LESS_sign")],
  observe=["crypto_sign_keypair", "crypto_sign"], technique="differential testing against an independent executable model (Hypothesis)")

p("P08", "Arithmetic modulo 127 is exact over the whole working range",
  "Reduction, multiplication, and inversion modulo 127, scalar and in every vector lane, give the canonical representative in 0..126 of the exact result for every operand the algorithms can produce, including operands at the ends of the range. The inverse of every nonzero element multiplies with it to one.",
  ["inputs"], "every operand in the range the callers produce (exhaustive for scalar functions, every lane value for vector ones)",
  "One unit test checks the inverse table at a time; reduction and lane arithmetic are only reached with random intermediate values.",
  [f"{R}/include/fq_arith.h", f"{O}/include/fq_arith.h", f"{A}/include/macro.h", "Optimized_Implementation/neon/include/macro.h"],
  [("Barrett and Mersenne reductions", f"{O}/include/fq_arith.h"), ("W_RED127_, barrett macros", f"{A}/include/macro.h")],
  observe=["fq_red, fq_inv, vector macros"], technique="exhaustive operand enumeration plus generated lane vectors, against integer arithmetic")

p("P09", "Monomial maps form a group acting consistently on codes and actions",
  "Composition of monomial maps is the composition of their actions on generator matrices, the inverse undoes a map on both sides, and the identity changes nothing; composing a map with a partial action equals selecting from the composed full map. Expanding a seed always gives a valid map: a permutation of all positions and nonzero coefficients, determined by every byte of the seed, salt and round index.",
  ["inputs"], "all monomial maps, partial actions, matrices, seeds, salts and round indices",
  "Unit tests multiply a few random maps by their inverse; structured permutations, all coefficients and the partial action law are not covered.",
  two("lib/monomial.c", "lib/codes.c"),
  [("composition and inverse", f"{R}/lib/monomial.c"), ("matrix action", f"{R}/lib/codes.c generator_monomial_mul")],
  observe=["monomial and matrix functions"], technique="algebraic-law and model-based property testing (Hypothesis)")

p("P10", "Row reduction returns the reduced row echelon form of every matrix",
  "For every full-rank generator matrix, whatever the position of its pivots, row reduction returns its unique reduced row echelon form over the field and marks exactly the pivot columns; matrices of deficient rank are reported as such. The result depends only on the row space.",
  ["inputs", "configurations"], "all K x N matrices: random, structured with late, clustered or missing pivots, duplicated, scaled and zero columns, all values including extremes",
  "The unit test reduces uniformly random matrices, whose pivots are almost always the first columns; displaced pivots and degenerate columns have negligible probability.",
  two("lib/codes.c") + [f"{A}/include/macro.h"],
  [("generator_RREF", f"{R}/lib/codes.c"), ("vectorised elimination", f"{O}/lib/codes.c")],
  observe=["generator_RREF"], technique="model-based property testing on structured matrices (Hypothesis)")

p("P11", "Signer and verifier derive the same canonical form of a committed code",
  "For every full-rank code, secret map and ephemeral map, the canonical form the signer commits to equals the one a verifier computes from the public code and the response, whichever columns repeat, are proportional, start with zeros or vanish. The canonical form has every column scaled to a leading one, is sorted in lexicographic order, and does not change when the non-information columns are permuted or scaled.",
  ["inputs"], "all full-rank codes (with repeated, proportional, zero and nearly equal columns) and monomial maps",
  "Round trips reach only uniformly random codes, where ties and long common prefixes between columns do not occur.",
  two("lib/codes.c"),
  [("lex_minimize, lex_sort_cols, prepare_digest_input", f"{R}/lib/codes.c"), ("vectorised sort", f"{O}/lib/codes.c")],
  observe=["prepare_digest_input against apply_action_to_G + generator_RREF + lex_minimize + lex_sort_cols"], technique="metamorphic and model-based property testing (Hypothesis)")

p("P12", "Compressed matrices and actions are lossless and exactly sized",
  "Compressing a reduced matrix or a partial action and expanding it returns the original for every choice of pivot columns, values and positions; expansion after compression of the expanded value returns the same bytes with all unused bits zero. Compression writes exactly the declared number of bytes, overwriting whatever the buffer held, and expansion reads no further.",
  ["inputs", "configurations"], "all reduced matrices with any pivot set, all actions, all byte patterns in the target buffer, every parameter set",
  "Unit tests compress random objects; pivot sets other than the leading columns, boundary values and stale buffer contents are not generated.",
  two("lib/codes.c", "lib/monomial.c"),
  [("compress_rref / expand_to_rref", f"{R}/lib/codes.c"), ("compress_monom_action / expand_to_monom_action", f"{R}/lib/monomial.c")],
  observe=["compression functions with guarded buffers"], technique="round-trip and model-based property testing (Hypothesis)")

p("P13", "Only well-formed partial actions pass validation",
  "A partial action is accepted if and only if all its coefficients are between 1 and 126, all its positions are inside the code length, and no position occurs twice, wherever in the action a defect sits. Verification rejects every signature containing an action that fails this.",
  ["inputs"], "all partial actions, valid or with one or several defects at any index, including every pair of indices for a duplicate",
  "No test feeds an invalid action.",
  two("lib/monomial.c", "lib/LESS.c"),
  [("is_monom_action_valid", f"{R}/lib/monomial.c")],
  observe=["is_monom_action_valid", "crypto_sign_open"], technique="enumeration of defect positions plus generated actions, against the definition")

p("P14", "The seed tree reveals exactly the unchallenged rounds' seeds",
  "For every root, salt and challenge, the seeds recovered from the published nodes equal the original seeds of all unchallenged rounds, while no published node is an ancestor of (or equal to) a challenged round's seed. The published nodes are the roots of the maximal subtrees free of challenged rounds, in a fixed order, at most the declared maximum, and every tree node depends on its parent and the salt.",
  ["inputs", "configurations"], "all roots, salts and sets of challenged rounds of the prescribed weight, random, structured and worst case, in every parameter set",
  TESTS + " with random challenges; a leak of a challenged seed does not disturb verification at all.",
  two("lib/seedtree.c"),
  [("node flags", f"{R}/lib/seedtree.c compute_seeds_to_publish"), ("path and rebuild", f"{R}/lib/seedtree.c seed_tree_path, rebuild_seed_tree_leaves")],
  observe=["seed tree functions", "published seeds in signatures"], technique="model-based property testing with exact worst cases (Hypothesis)")

p("P15", "Challenges have the prescribed weight and depend on the whole digest",
  "Every digest expands to a challenge with exactly the prescribed number of nonzero entries, each a valid key index, all positions and key indices being reachable with even probability. The challenge is the one the scheme's sampling defines and changes when any bit of the digest changes.",
  ["inputs", "configurations"], "all digests, in every parameter set",
  TESTS + ": a biased or truncated expansion still verifies because both sides share it.",
  two("lib/utils.c"),
  [("expand_digest_to_fixed_weight", f"{R}/lib/utils.c")],
  observe=["expand_digest_to_fixed_weight", "signatures"], technique="model-based and metamorphic property testing with distribution counts (Hypothesis)")

p("P16", "Hash and XOF outputs conform to FIPS 202 for every split of the data",
  "SHA3-256/384/512 and SHAKE128/256 return the standard's output for every input length, and the incremental interfaces return the same bytes whatever sequence of absorb and squeeze lengths, empty ones and block boundaries included, is used. The seeded stream returns the same bytes however it is read.",
  ["inputs", "histories"], "all messages, lengths and sequences of chunk lengths",
  "No test compares the hash functions with a reference; a wrong but self-consistent sponge passes every round trip.",
  two("lib/fips202.c", "lib/keccakf1600.c", "lib/rng.c", "include/sha3.h"),
  [("sponge", f"{R}/lib/fips202.c"), ("permutation", f"{R}/lib/keccakf1600.c")],
  observe=["sha3_*, shake*, inc interfaces"], technique="differential testing against hashlib over generated chunkings (Hypothesis)")

p("P17", "Sampled field elements and matrices are in range, unbiased and seed-determined",
  "Sampling gives values in 0..126 (or 1..126 when nonzero values are asked for), each value with even probability, exactly the requested number of them, as defined by rejection sampling from the seeded stream and independently of how much is asked for at once. The public code expanded from a seed is systematic with those values, and every seed byte matters.",
  ["inputs", "configurations"], "all seeds and counts",
  TESTS + "; bias, out-of-range values and seed truncation are self-consistent and invisible to round trips.",
  two("include/fq_arith.h", "lib/rng.c", "lib/codes.c", "include/rng.h"),
  [("rejection sampling", f"{R}/include/fq_arith.h"), ("generator_SF_seed_expand", f"{R}/lib/codes.c")],
  observe=["sampling functions", "generator_SF_seed_expand", "randombytes"], technique="model-based property testing with distribution counts (Hypothesis)")

p("P18", "Signatures and public keys never disclose secrets and are freshly randomised",
  "No byte string of a signed message or public key contains a secret seed: not the secret key, not a private map's seed, not the ephemeral root, not a challenged round's seed or an ancestor of it; nor does a response disclose more than the information set's part of the composed map. Two signing operations with different generator states use different salts and seeds, even for the same message, and generated keys depend on fresh generator output.",
  ["inputs", "histories"], "all keys, messages, challenges and sequences of signing operations",
  "Leaking or reusing secrets does not change any verdict, so no round trip can notice.",
  two("lib/LESS.c", "lib/sign.c", "lib/seedtree.c", "lib/rng.c"),
  [("LESS_sign", f"{R}/lib/LESS.c"), ("seed_tree_path", f"{R}/lib/seedtree.c")],
  observe=["bytes of public keys and signed messages, whole output buffers included"], technique="invariant testing over generated histories: output bytes scanned for every secret value (Hypothesis)")

p("P19", "Known-answer generation is reproducible and internally consistent",
  "The known-answer generator's request file is the one defined by the NIST AES-256 counter-mode generator from the fixed seed, and its response file contains, for each request, the key pair, signature length and signature the scheme defines for that seed and message. The generator's byte output equals the NIST definition for every seed and sequence of request lengths, and the seed expander's output does not depend on how it is split.",
  ["inputs", "histories"], "all seeds, personalisation strings and sequences of request lengths; the full request and response files",
  "Nothing in the tests runs the generator against a reference.",
  ["Utilities/KAT_Generation/lib/KAT_NIST_rng.c", "Utilities/KAT_Generation/lib/PQCgenKAT_sign.c", f"{R}/lib/nist/KAT_NIST_rng.c", f"{O}/lib/nist/KAT_NIST_rng.c"],
  [("KAT_NIST_randombytes", "Utilities/KAT_Generation/lib/KAT_NIST_rng.c"), ("main", "Utilities/KAT_Generation/lib/PQCgenKAT_sign.c")],
  observe=["KAT_NIST_randombytes", "PQCsignKAT_*.req / .rsp"], technique="differential testing against an independent AES-CTR generator and the scheme model (Hypothesis)")

p("P20", "Declared sizes always suffice and signature lengths follow the published formula",
  "Every signature has the length given by the fixed part plus one seed length per published seed plus one count byte, never longer than the declared maximum, and key sizes are constant; the declared maximum number of seeds covers every challenge. The size tool never prints less than the largest possible reveal for its arguments (in its sparse regime), and its output for the shipped parameter sets is the shipped constant.",
  ["inputs", "configurations"], "all challenges in every parameter set; all (rounds, weight, security) arguments of the size tool",
  "Random signatures publish fewer seeds than the maximum, so an undersized bound is not exercised.",
  two("include/parameters.h", "lib/sign.c", "lib/LESS.c") + ["Utilities/Parameter_Generation_Scripts/seed_tree_param_computer.py"],
  [("size macros", f"{R}/include/parameters.h")],
  observe=["crypto_sign", "declared sizes", "size tool output"], technique="exact worst cases by dynamic programming, realised through generated challenges")

p("P21", "Benchmark statistics equal the exact mean, deviation and Welch t",
  "For every sequence of samples, the running mean, standard deviation and Welch t statistic reported by the benchmark tools agree with the exact values of the whole sequence within rounding error, whatever the magnitude, offset and order of the samples. Every sample counts once.",
  ["inputs", "histories"], "all sample sequences of at least two values, including large offsets and long sequences",
  "The benchmarks only print their statistics; nothing checks them.",
  ["Utilities/Benchmarking/include/timing_and_stat.h", "Utilities/MemoryBenchmarking/include/timing_and_stat.h"],
  [("welford_update, welford_print, welch_t_statistic", "Utilities/Benchmarking/include/timing_and_stat.h")],
  observe=["welford_mean, welford_stddev, welford_print, welch_t_statistic"], technique="differential testing against exact rational arithmetic (Hypothesis)")

p("P22", "The memory report gives the true peak of every profile",
  "For every set of well-formed heap profiles, the memory report attributes to each parameter set and operation the largest stack value over all of its snapshots, wherever the peak is and whatever detail trees and comments the profile contains. Profiles of different parameter sets and operations are never mixed up.",
  ["inputs"], "all well-formed massif profiles and file names for the existing parameter sets and operations",
  "Nothing tests the report script.",
  ["Utilities/MemoryBenchmarking/bench.py"],
  [("massif_analyse", "Utilities/MemoryBenchmarking/bench.py")],
  observe=["the values the script prints"], technique="generated profiles against the generator's own ground truth (Hypothesis)")

p("P23", "Verifications running at the same time do not influence each other",
  "Verification may be called from several threads of one process at the same time, also while one thread signs or generates keys: every call returns the verdict, length and message it returns when nothing else runs, and a signature made meanwhile is the one made alone. Verification shares no modifiable memory between calls.",
  ["schedules", "inputs"], "all interleavings of verification calls on any signed messages and keys, with at most one thread using the process-wide generator",
  "The existing tests use a single thread, so working memory moved into static storage passes all of them.",
  two("lib/LESS.c", "lib/sign.c", "lib/codes.c", "lib/monomial.c", "lib/seedtree.c", "lib/utils.c"),
  [("working memory of verification", f"{R}/lib/LESS.c LESS_verify"), ("Keccak state", f"{R}/lib/fips202.c")],
  observe=["crypto_sign_open called from several threads"], technique="randomised concurrent execution against the sequential result, and a race detector (Hypothesis, ThreadSanitizer)")

p("P24", "Printed matrices and maps show exactly their contents",
  "For every generator matrix, compact matrix and monomial map, the diagnostic printing functions write the given name followed by exactly the object's numbers, row by row and in order: all K rows of N or N-K values, the positions of the stored columns, the positions and coefficients of a map, and for the expanded form the N by N matrix the map stands for.",
  ["inputs", "configurations"], "all matrices, compact matrices and maps of the three categories, any name",
  "No test looks at printed output.",
  two("lib/codes.c", "lib/monomial.c"),
  [("matrix printing", f"{R}/lib/codes.c generator_pretty_print_name"), ("map printing", f"{R}/lib/monomial.c monomial_mat_print_exp_name")],
  observe=["the standard error stream"], technique="property-based round trip: printed text parsed back (Hypothesis)")

p("P25", "The benchmark programs time exactly the operations they name",
  "For every sequence of durations the operations take and every start value of the clock, each benchmark program prints, for every operation it names, the mean and standard deviation in thousands of cycles of exactly the calls of that operation it made, each measured from just before to just after the call; the programs that print parameters print those of the compiled parameter set and the sizes of its keys and signatures, and the verdict is 'functional' exactly when the verification of its own signature on its own message accepted. Signing and verification are measured on genuine keys and signatures.",
  ["inputs", "configurations"], "all durations up to more than 2^32 cycles, all clock values including wrap-around, seven benchmark programs, seven parameter sets, reference and AVX2",
  "The tests do not run the benchmark programs, and a real clock gives no expected value.",
  ["Utilities/Benchmarking/lib/less_benchmark.c", "Utilities/MemoryBenchmarking/lib/less_benchmark.c", "Utilities/MemoryBenchmarking/lib/less_keygen.c", "Utilities/MemoryBenchmarking/lib/less_sign.c", "Utilities/MemoryBenchmarking/lib/less_verify.c", f"{R}/lib/bench/less_benchmark.c", f"{O}/lib/bench/less_benchmark.c"],
  [("timed loops", "Utilities/Benchmarking/lib/less_benchmark.c LESS_sign_verify_speed"), ("clock", "Utilities/Benchmarking/include/timing_and_stat.h x86_64_rtdsc")],
  observe=["what the programs print"], technique="property-based test of the unchanged programs on a generated clock against exact arithmetic (Hypothesis)")

NOT_APPLICABLE = []

with open(f"{V}/properties.jsonl", "w") as f:
    for x in P:
        d = dict(id=x["id"], title=x["title"], statement=x["statement"], quantifier=dict(over=x["over"], text=x["qtext"]), why_tests_cant=x["why"],
                 anchors=dict(files=x["files"], mechanism=[dict(name=a, where=b) for a, b in x["mech"]]))
        if x["state"]:
            d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in x["state"]]
        if x["observe"]:
            d["anchors"]["observe_at"] = list(x["observe"])
        d["anchors"]["hook_needed"] = None
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(d) + "\n")

NOTE = "Exploration: no violation among the generated cases counted in the evidence file. Trusts the compiler, the C runtime, Hypothesis and the executable model in model/model.cpp (itself cross-checked against hashlib and both implementations)."
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=list(NOT_APPLICABLE), notes="See DESIGN.md. No hooks in /repo: the checks compile /repo's sources with their own drivers.")
for x in P:
    if not os.path.exists(f"{V}/checks/{x['id'].lower()}.py"):
        m["not_applicable"].append(dict(property=x["id"], reason="check not built yet"))
        continue
    m["checks"].append(dict(property=x["id"], quick_cmd=f"./run.sh {x['id']} quick", thorough_cmd=f"./run.sh {x['id']} thorough", technique=x["technique"], level="exploration", level_note=x["note"] or NOTE))
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")
