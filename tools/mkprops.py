#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

prop("C01", "Honest one-shot proofs are correct and accepted",
 "For every valid discriminant, starting element and iteration count, the proof returned by the library's stand-alone prover carries the element obtained by exactly that many squarings of the starting element, and every verifier of the library accepts it for those parameters. The proof bytes are the same every time the prover is asked again.",
 ["inputs", "configurations"], "all challenge seeds, discriminant sizes (multiples of 8 up to 1024), starting elements (generator, identity, arbitrary group elements, either sign) and iteration counts, including the tiny ones and those around the prover's block-size changes",
 "The tests prove a handful of fixed iteration counts from the generator at 512/1024 bits; block-size, remainder and tiny-count paths are only reached by other counts and sizes.",
 ["src/prover_slow.h", "src/nucomp.h", "src/proof_common.h", "src/verifier.h"],
 [("prover parameters and block table", "src/prover_slow.h ApproximateParameters, GenerateWesolowski, GetBlock"), ("verification equation", "src/verifier.h VerifyWesolowskiProof")],
 ["ProveSlow result bytes", "CheckProofOfTimeNWesolowski verdict"])
prop("C02", "A single-part proof is accepted exactly when its equation holds",
 "A claimed result with a single-part proof is accepted if and only if the Wesolowski equation holds in the class group for the challenge prime derived from the encoded start and result, for the stated iteration count and discriminant. In particular altering the result, the proof element, the start, the iteration count or the discriminant of a good proof makes it rejected unless the altered equation itself holds.",
 ["inputs"], "all discriminants, start/result/proof elements (honest, forged, mutated, identity, inverse), and all 64-bit iteration counts",
 "Soundness quantifies over every false claim; the tests try a few bit flips of one good proof.",
 ["src/verifier.h", "src/proof_common.h"],
 [("challenge derivation", "src/proof_common.h GetB, HashPrime, SerializeForm"), ("equation", "src/verifier.h VerifyWesolowskiProof, VerifyWesoSegment; proof_common.h FastPow, FastPowFormNucomp")],
 ["verdict of verify_wesolowski and of depth-0 n-wesolowski verification"])
prop("C03", "A multi-part proof is accepted exactly when all parts chain and add up",
 "A composite proof is accepted if and only if its length matches the declared number of parts, every part is individually right for its own start element, iteration count and embedded challenge, each part starts where the previous one ended, and the part iteration counts add up to exactly the requested total. Reordering, dropping, duplicating or re-labelling parts, shifting iterations between parts, or declaring another total or number of parts makes it rejected.",
 ["inputs", "histories"], "all part counts, per-part iteration counts including zero and values near 2^64, and all edits of the parts, counts, challenges, order, length and declared depth",
 "The tests check a few composites from one prover; the acceptance set is over all ways of splitting and tampering.",
 ["src/verifier.h"],
 [("part loop", "src/verifier.h CheckProofOfTimeNWesolowski, CheckProofOfTimeNWesolowskiCommon"), ("embedded challenge binding", "src/verifier.h VerifyWesoSegment")],
 ["verdict of n-wesolowski verification"])
prop("C04", "Challenge-compressed proofs agree with full proofs",
 "For every full composite proof the challenge extracted from it equals the hash challenge of the last part's start and the claimed result, and a proof with its result removed verifies against that challenge exactly when the full proof verifies, reconstructing precisely the removed result. A challenge that is not the one of the reconstructed result is rejected and yields no result.",
 ["inputs"], "all depths, iteration splits, honest and tampered proofs, and right, wrong, zero and oversized challenges",
 "The existing test covers one honest proof per depth; it does not relate the compressed path to the full one for tampered inputs.",
 ["src/verifier.h"],
 [("compressed verification", "src/verifier.h CheckProofOfTimeNWesolowskiWithB"), ("challenge extraction", "src/verifier.h GetBFromProof")],
 ["result pair of verify_n_wesolowski_with_b", "value of get_b_from_n_wesolowski"])
prop("C05", "Discriminants are a pure function of the seed with the promised shape",
 "Deriving a discriminant from a seed and a size always gives the same value: the negative of the first pseudoprime in the counter-mode hash expansion of the seed, with exactly the requested number of bits and congruent to 7 mod 8. Every seed and size is either served this way in finite time or rejected with an error: empty seeds and sizes that are not positive multiples of 8 up to 1024 are rejected.",
 ["inputs"], "all seeds of any length and content (including those whose counter carries or wraps) and all sizes, valid and invalid",
 "Tests compare a fixed vector list; counter carries across bytes, odd seed lengths and extreme sizes are not in it.",
 ["src/create_discriminant.h", "src/proof_common.h"],
 [("hash to prime", "src/proof_common.h HashPrime"), ("parameter validation", "src/create_discriminant.h CreateDiscriminant")],
 ["value returned by create_discriminant in each binding"])
prop("C06", "The primality decision is right",
 "The primality test used for discriminants and challenges reports a positive integer as prime exactly when it is prime, for every integer that has been settled by proof or exhaustive search, including strong pseudoprimes, Carmichael numbers, Lucas pseudoprimes, squares and products of close primes, at every size up to the 1024 bits that discriminants may have.",
 ["inputs"], "all odd and even integers from tiny to 1024 bits, with known adversarial composites",
 "Tests never call the primality test on adversarial numbers; a weakened round would still pass on hash outputs.",
 ["src/primetest.h", "src/pprods.h", "src/integer_common.h"],
 [("strengthened Baillie-PSW", "src/primetest.h is_prime_bpsw, miller_rabin, is_vprp, find_lucas_v")],
 ["integer::prime"])
prop("C07", "Element encoding is lossless and decoding accepts only what it should",
 "Encoding any group element gives 100 bytes that decode, in strict and in historical mode, to the same element, and two different elements never share an encoding. Historical decoding accepts and returns exactly what the published format implies for any byte string; strict decoding in addition accepts at most one byte string per element and is never more permissive than historical decoding.",
 ["inputs"], "all elements of all discriminant sizes (special forms, a=b, shared factors, negative signs, non-multiple-of-32 sizes) and all byte strings, in particular near-miss mutations of valid encodings",
 "Tests round-trip a few random forms and a few malformed strings; uniqueness is a statement about all strings.",
 ["src/bqfc.c", "src/proof_common.h"],
 [("compression", "src/bqfc.c bqfc_compr, bqfc_serialize"), ("decompression and canonical check", "src/bqfc.c bqfc_decompr, bqfc_verify_canon, bqfc_deserialize"), ("reduced-form requirement", "src/proof_common.h DeserializeForm")],
 ["SerializeForm / DeserializeForm / bqfc_deserialize binding"])
prop("C08", "No byte string crashes or hangs a verifier; bad input is cleanly refused",
 "Whatever bytes, lengths, counts, sizes and discriminants a caller passes to the public verification, decoding and derivation entry points, the call returns or raises its documented error without reading or writing outside the given buffers, without undefined behaviour, and in time bounded by the size of the input. Input of the wrong length is refused rather than read past.",
 ["inputs", "fault_sequences"], "arbitrary byte strings and integers for every parameter of every public entry point, incl. lengths shorter or longer than the documented ones",
 "Memory safety on hostile input is a claim about all inputs; tests use well-formed buffers and few malformed ones, without sanitizers.",
 ["src/verifier.h", "src/bqfc.c", "src/c_bindings/c_wrapper.cpp", "src/python_bindings/fastvdf.cpp"],
 [("bounds checks", "src/verifier.h CheckProofOfTimeNWesolowski*, IsDiscriminantInRange"), ("binding argument handling", "src/c_bindings/c_wrapper.cpp, src/python_bindings/fastvdf.cpp")],
 ["process survival under AddressSanitizer/UBSan", "exceptions and verdicts"])
prop("C09", "Group operations agree with the class group",
 "Composing, squaring, inverting, reducing and raising to powers give the unique reduced form that the class group law prescribes, whatever valid forms go in and whichever of the library's algorithms or processor-feature variants is used. Partially reduced intermediate results always represent the right class.",
 ["inputs", "configurations"], "all pairs of forms (equal, inverse, identity, sharing factors, unreduced, tiny and huge coefficients), exponents, discriminant sizes, and both leading-zero-count variants",
 "Tests sample a few forms at one or two sizes; rare branches (shared gcd factors, partial gcd stopping points) depend on the input.",
 ["src/nucomp.h", "src/xgcd_partial.c", "src/Reducer.h", "src/vdf_new.h", "src/vdf_original.h", "src/proof_common.h"],
 [("composition/duplication", "src/nucomp.h qfb_nucomp, qfb_nudupl"), ("reduction", "src/Reducer.h Reducer::run; src/vdf_new.h reduce"), ("exponentiation", "src/proof_common.h FastPowFormNucomp")],
 ["resulting coefficients"])
prop("C10", "The fast squaring engine equals plain repeated squaring",
 "Starting from any element, the accelerated engine reports, for every iteration it claims to have done, a form of the class that the same number of plain squarings gives, in each processor-feature variant and in single and two-thread mode, and when it stops early or detects corruption it leaves a state from which the slow path continues to the same results. Every stored intermediate corresponds to its iteration number, with none skipped or repeated.",
 ["inputs", "configurations", "schedules"], "all discriminants, starting elements, batch sizes and iteration counts; AVX, AVX2 and AVX-512 code paths; single- and two-threaded operation",
 "The stress test samples a few random runs per CPU; rare quotients and fallbacks depend on the values and on the feature variant.",
 ["src/vdf_fast.h", "src/threading.h", "src/asm_main.h", "src/asm_vm.h", "src/gcd_128.h", "src/gcd_base_continued_fractions.h", "src/avx512_integer.h", "src/vdf.h", "src/vdf_original.h"],
 [("phased pipeline", "src/vdf_fast.h repeated_square_fast*, square_fast_impl"), ("fallback", "src/vdf.h repeated_square, repeated_square_original")],
 ["per-iteration listener callbacks", "final form"])
prop("C11", "Proof bytes do not depend on who produced them",
 "For the same discriminant, start element, iteration count and segmentation, every prover in the library (stand-alone, one-part, two-part, many-part, parallel, hardware-assisted) outputs proof elements that are all equal to start^(floor(2^T/B)), so results are interchangeable byte for byte.",
 ["inputs", "configurations", "schedules"], "all discriminants, starts, iteration counts and segment shapes, for each prover",
 "Tests only verify proofs; they do not compare provers to each other or to the defining formula.",
 ["src/prover_slow.h", "src/prover_impl.hpp", "src/provers.h", "src/vdf.h", "src/hw/hw_proof.cpp"],
 [("block tables", "src/prover_impl.hpp Prover::GenerateProof, ParallelProver::ProvePart"), ("stand-alone prover", "src/prover_slow.h GenerateWesolowski")],
 ["serialized proof elements"])
prop("C12", "The one-part timelord proves exactly the requested count",
 "When a one-part session is asked for a number of iterations, the engine stores the checkpoints that proof needs whatever the count, the result is the element after exactly that many squarings, and the proof built from the stored checkpoints verifies; storage is never indexed beyond what was allocated for that count.",
 ["inputs", "histories"], "all iteration counts including tiny ones, those near the checkpoint-parameter thresholds, and those not divisible by any checkpoint stride",
 "The 1-weso test runs one long count.",
 ["src/callback.h", "src/provers.h", "src/vdf.h"],
 [("checkpoint stride and capacity", "src/callback.h OneWesolowskiCallback; src/util.h ApproximateParameters"), ("prover", "src/vdf.h ProveOneWesolowski")],
 ["proof returned by the session"])
prop("C13", "The two-part timelord proves any reachable count, before and after its switch",
 "For every requested iteration count the recursive two-part prover returns a proof of the right result that verifies with the depth it declares, whether the needed checkpoints were stored before, across or after the change of checkpoint density, and whether they were requested in or out of order or concurrently. A checkpoint position read back always holds the form stored for that iteration.",
 ["inputs", "histories", "schedules"], "all iteration counts, switch points, request orders and concurrent requests",
 "The tests prove a few large counts and a few fixed positions; recursion remainders and the density switch interact over all counts.",
 ["src/callback.h", "src/vdf.h", "src/provers.h"],
 [("density switch", "src/callback.h TwoWesolowskiCallback IncreaseConstants, GetPosition, OnIteration"), ("recursive prover", "src/vdf.h ProveTwoWeso")],
 ["proof blobs", "forms read back"])
prop("C14", "The many-part prover serves every request with a valid bounded proof",
 "For any set of requested iteration counts arriving in any order, early or late, the segment manager returns for each a proof of exactly that count that the verifier accepts with the part count implied by its length, using at most 64 parts. Out-of-order completion, pausing of segment provers and late requests never mix up segments.",
 ["inputs", "histories", "schedules"], "all request sets, arrival orders relative to progress, thread counts and storage modes",
 "The prover test asks for one fixed list of counts in one order.",
 ["src/vdf.h", "src/callback.h", "src/provers.h", "src/fast_storage.h"],
 [("segment scheduling", "src/vdf.h ProverManager::RunEventLoop"), ("proof assembly", "src/vdf.h ProverManager::Prove"), ("intermediate windows", "src/callback.h FastAlgorithmCallback; src/fast_storage.h")],
 ["proof blobs returned per request"])
prop("C15", "Checkpoint storage never aliases live data or leaves its bounds",
 "Within the window that provers may still read, every (iteration, segment size) pair that must be stored has a slot of its own inside the allocated storage, a prover's lookup addresses exactly the slot written for that iteration, and progress past the documented capacity is refused rather than written out of bounds.",
 ["inputs", "configurations"], "all iteration numbers up to the capacity limits, all segment sizes and segment counts, and all density-switch points",
 "Tests check a few positions; index arithmetic must be injective and in range for all iterations.",
 ["src/callback.h", "src/fast_storage.h"],
 [("bucket layout", "src/callback.h FastAlgorithmCallback::GetPosition"), ("two-part positions", "src/callback.h TwoWesolowskiCallback::GetPositionFromSnapshot")],
 ["slot indices and forms stored"])
prop("C16", "Stopping, pausing and resuming provers never hangs, leaks or corrupts",
 "A stop request issued at any moment makes every proving thread finish within bounded time without delivering a proof for the stopped work, and any pattern of pausing and resuming a segment prover leaves its proof identical to an uninterrupted one.",
 ["schedules", "histories", "fault_sequences"], "all moments of stop, all pause/resume histories, for the one-part, two-part and many-part provers",
 "Stop timing is a schedule property; tests stop only after success.",
 ["src/provers.h", "src/vdf.h", "src/fast_storage.h"],
 [("interruptible prover", "src/provers.h InterruptableProver"), ("stop handling", "src/vdf.h ProverManager::stop, ProveOneWesolowski, ProveTwoWeso, repeated_square")],
 ["thread termination", "proof bytes"])
prop("C17", "The timelord client honours its wire protocol for every peer behaviour",
 "In each of its three modes the client accepts a well-formed session, answers each requested iteration count within its capacity with exactly one well-formed proof message that verifies (one-part sessions answer their single request; two-part sessions ignore duplicates and counts beyond their capacity, and drop the largest counts when more than their limit are pending), and on a stop request ends with the stop/ack exchange. Malformed, truncated or oversized fields, and a peer that disconnects at any point, make it end the session without crashing or sending a wrong proof.",
 ["inputs", "histories", "fault_sequences"], "all handshakes, request sequences, field lengths and contents, fragmentations of the byte stream and disconnection points",
 "Unit tests cover the handshake parser on a few malformed headers; whole sessions are not tested.",
 ["src/vdf_client.cpp", "src/vdf_client_session.h"],
 [("handshake", "src/vdf_client_session.h InitSession"), ("sessions", "src/vdf_client.cpp ReadIteration, Session*, WriteProof, FinishSession")],
 ["bytes on the socket", "exit status of the client"])
prop("C18", "The hardware path never proves values the hardware got wrong",
 "Values delivered by the hardware for an iteration are used only if they are valid elements of the group, in the right order and interval; a bad or out-of-sequence value is rejected and the computation resumes from the last good one. Every proof assembled from hardware values verifies for exactly the requested count with a bounded number of parts.",
 ["inputs", "histories", "fault_sequences", "schedules"], "all sequences of delivered values (good, corrupted, skipped, repeated, late), request sets and split points",
 "The hardware tests need a device or run one clean emulation.",
 ["src/hw/hw_proof.cpp", "src/hw/hw_proof.hpp", "src/hw/hw_interface.cpp"],
 [("value intake", "src/hw/hw_proof.cpp hw_proof_add_value, hw_proof_process"), ("proof assembly", "src/hw/hw_proof.cpp hw_compute_proof, hw_retrieve_proof")],
 ["return codes", "proof blobs"])
prop("C19", "Hardware register and job coding is exact over its whole range",
 "Encoding a job for the chip and decoding the chip's status preserves iteration counts and form coefficients of every representable size and sign, engine and address selection never overlaps another engine's registers, and frequency and voltage conversions are monotone, in range and consistent with their inverse.",
 ["inputs", "configurations"], "all form coefficients up to the register width, all engine indices, iteration counts, frequencies and voltages",
 "Only smoke tests exist, on one job; the coding must hold for every value.",
 ["src/hw/chia_driver.cpp", "src/hw/vdf_driver.cpp", "src/hw/pll_freqs.cpp", "src/hw/hw_util.cpp"],
 [("job serialisation", "src/hw/chia_driver.cpp SerializeJob, DeserializeStatus/Job"), ("PLL table", "src/hw/pll_freqs.cpp; vdf_driver.cpp SetPLLFrequency"), ("voltage coding", "src/hw/vdf_driver.cpp")],
 ["bytes written to the bus model"])
prop("C20", "All language bindings give the same answers",
 "For the same inputs the native library, the C interface, the Rust crate and the Python module derive the same discriminant, produce the same proof bytes, return the same verdicts, and treat the same inputs as errors.",
 ["inputs"], "all seeds, sizes, elements, proofs, counts and depths, valid and invalid",
 "Each binding has its own few examples; none is compared with another.",
 ["src/python_bindings/fastvdf.cpp", "src/c_bindings/c_wrapper.cpp", "rust_bindings/src/lib.rs"],
 [("wrappers", "src/c_bindings/c_wrapper.cpp, src/python_bindings/fastvdf.cpp, rust_bindings/src/lib.rs")],
 ["return values of each binding"])
prop("C21", "Cancellation by shutdown file stops a proof and only then",
 "A stand-alone proof given a shutdown-file path ends early with an empty result if and only if that file does not exist at one of its periodic checks; otherwise, or without a path, the result is the same as an unsupervised proof.",
 ["inputs", "fault_sequences"], "all moments of removing or re-creating the file, all iteration counts relative to the check period, empty, long, unusual and directory paths",
 "No test removes the file at chosen points.",
 ["src/prover_slow.h", "src/python_bindings/fastvdf.cpp"],
 [("poll", "src/prover_slow.h ProveSlow")],
 ["returned bytes"])
prop("C22", "Concurrent use does not change results",
 "Any number of threads may derive discriminants, prove, verify and decode at the same time, on the same or different inputs, and every call returns what it returns when run alone; calls do not share mutable state or modify their callers' buffers.",
 ["schedules", "inputs"], "all mixes of calls and thread counts",
 "Tests are single-threaded for these entry points.",
 ["src/verifier.h", "src/proof_common.h", "src/prover_slow.h", "src/Reducer.h", "src/python_bindings/fastvdf.cpp"],
 [("per-call state", "src/proof_common.h PulmarkReducer; src/verifier.h"), ("lock release around native code", "src/python_bindings/fastvdf.cpp")],
 ["results per thread", "ThreadSanitizer"])
prop("C23", "Multi-precision kernels compute exactly",
 "The partial and full gcd kernels, the vector integer routines (add, subtract, multiply, shift, compare, load and store) and the word-level bit helpers return the mathematically exact result for every operand in their documented range, in every processor-feature variant, and signal failure rather than return a wrong value.",
 ["inputs", "configurations"], "all operands in range: every size, sign, alignment of bits and carry pattern",
 "The kernel tests sample uniformly random operands, which rarely produce long carries, extreme quotients or boundary sizes.",
 ["src/xgcd_partial.c", "src/gcd_unsigned.h", "src/gcd_128.h", "src/gcd_base_continued_fractions.h", "src/avx512_integer.h", "src/asm_avx512_ifma.h", "src/integer.h", "src/bit_manipulation.h", "src/integer_common.h"],
 [("partial gcd", "src/xgcd_partial.c mpz_xgcd_partial"), ("Lehmer steps", "src/gcd_base_continued_fractions.h, src/gcd_128.h, src/gcd_unsigned.h"), ("AVX-512 integers", "src/avx512_integer.h, src/asm_avx512_ifma.h")],
 ["kernel outputs vs GMP"])
prop("C24", "128-bit fallback arithmetic and conversions are exact",
 "The portable 128-bit integer type behaves exactly like native unsigned 128-bit arithmetic for every operation, conversion, comparison, shift and text form on unsigned or non-negative operands, and checked narrowing either preserves the value or reports an error.",
 ["inputs"], "all pairs of 128-bit operands, shift amounts, bases, and all narrowing conversions between integer types",
 "Tests cover a few constants per operator; carries and division cases are value dependent.",
 ["src/uint128_t/uint128_t.cpp", "src/uint128_t/uint128_t.h", "src/checked_cast.h", "src/util.h"],
 [("software 128-bit integer", "src/uint128_t/uint128_t.cpp"), ("checked narrowing", "src/checked_cast.h"), ("byte order helpers", "src/util.h Int64ToBytes, BytesToInt64")],
 ["operator results vs unsigned __int128"])
prop("C25", "The software emulator computes what the chip would",
 "A job started on an engine of the emulated device makes that engine report, at every reading, an iteration count that never decreases and never exceeds the requested one together with the form of exactly that iteration, whatever the other engines do and however often jobs are stopped or replaced; a stopped engine reports nothing, and wrong values appear only when error injection is requested. A timelord served through the emulator gets the right proofs, with and without injected errors.",
 ["inputs", "schedules", "histories"], "all discriminants, starting forms and counts, all histories of starts, stops, replacements and readings on the three engines at any pace, and all error rates",
 "No test runs the emulator; whether a replaced job disturbs its successor depends on the moment of the replacement.",
 ["src/hw/emu_runner.cpp", "src/hw/emu_funcs.cpp", "src/hw/hw_interface.cpp"],
 [("job life cycle", "src/hw/emu_runner.cpp start_job, run_job, enable_engine, disable_engine"), ("register access", "src/hw/emu_runner.cpp emu_do_io, read_regs, copy_regs, update_status"), ("error injection", "src/hw/emu_runner.cpp inject_error")],
 ["values returned by read_hw_status", "proof messages of the hardware client over the emulator"])
prop("C26", "The hardware client's command line is honoured or refused",
 "A command line whose option values all lie within their documented ranges is accepted and obeyed: the board is programmed to the frequency asked for (rounded up to the clock table) and the voltage asked for (rounded down to the regulator's step), and exactly the engines selected by the count or the mask connect to the given host and port. A command line with any value outside its range, an unknown option or a missing value ends with a nonzero status before the device or the timelord is contacted; a value never silently becomes another one.",
 ["inputs"], "all command lines of documented options with decimal, exponent or hexadecimal values of any size, in any order",
 "No test starts the hardware client with options; values that wrap when narrowed look legal.",
 ["src/hw/hw_vdf_client.cpp", "src/hw/hw_interface.cpp"],
 [("option parsing", "src/hw/hw_vdf_client.cpp parse_opts, hw_vdf_client_main"), ("use of the options", "src/hw/hw_interface.cpp init_hw")],
 ["exit status", "values programmed into the device", "connections made"])
prop("C27", "Automatic clock adjustment keeps its limits and harms no session",
 "With automatic frequency the hardware client starts at the frequency asked for and then changes it only by single steps of the clock table: up, when a full period has passed since the last change and the next step does not exceed the limit, and it does so while sessions run; down, only after a wrong value of the chip. Sessions on all engines go on through every change and still get the right proofs.",
 ["inputs", "schedules", "histories", "faults"], "all start frequencies, limits, periods, histories of wrong values, and all sessions on one to three engines",
 "No test runs the hardware client; an adjustment needs hours, wrong values of a chip and several running engines.",
 ["src/hw/hw_vdf_client.cpp", "src/hw/hw_interface.cpp", "src/hw/vdf_driver.cpp"],
 [("adjustment rule", "src/hw/hw_vdf_client.cpp event_loop"), ("one step", "src/hw/hw_interface.cpp adjust_hw_freq"), ("clock generator", "src/hw/vdf_driver.cpp SetPLLFrequency")],
 ["settings of the clock generator and their times", "proof messages to the timelord"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P: assert len(p["title"]) <= 80, p["title"]
print(len(P))
