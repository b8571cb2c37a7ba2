#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept in git; this script only makes editing it less painful).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Concurrent engine copies never influence each other",
 "Encoders, encryptors, decryptors, evaluators, key switchers, basis extenders, samplers and key generators that were built separately, shallow-copied or re-keyed from one original may be driven by different callers at the same time over shared parameters, keys and inputs. Whatever the interleaving of their steps, every call returns exactly what it returns when its caller runs alone with the same randomness. A caller whose call is rejected or abandoned does not disturb the others.",
 ["schedules", "histories"],
 "for all interleavings (down to single statements) of the calls of several callers, all ways of obtaining the engines (construction, shallow copy, copy of a copy, re-keying) and all call sequences of each caller",
 "The tests run every engine on one goroutine; shallow copies are only compared structurally or used one after another, so a scratch buffer, lazily built table or random stream shared between two copies is invisible to them.",
 ["rlwe/encryptor.go", "rlwe/decryptor.go", "rlwe/keyswitch.go", "rlwe/keygen.go", "ckks/encoder.go", "ckks/encryptor.go", "ckks/decryptor.go", "ckks/evaluator.go", "frlwe/keyswitch.go", "frlwe/keygen.go", "fckks/evaluator.go", "fckks/encryptor.go", "fckks/decryptor.go", "ring/ring_basis_extension.go"],
 [("ShallowCopy/WithKey allocate fresh scratch buffers and samplers and share read-only tables", "rlwe/encryptor.go:160-200, rlwe/decryptor.go:97-114, rlwe/keyswitch.go:70, ckks/encoder.go:111,333,805, ring/ring_basis_extension.go:ShallowCopy"),
  ("each constructor allocates its own pools", "rlwe/keyswitch.go:41, ckks/evaluator.go:168, frlwe/keyswitch.go:NewKeySwitcher")],
 [("engine scratch pools", "intermediate polynomials of a call in progress", "rlwe/keyswitch.go keySwitcherBuffer, ckks/evaluator.go evaluatorBuffers, frlwe/keyswitch.go KeySwitcher")],
 ["values returned or written by every call"])

prop("C02", "Operations never modify what they were only given to read",
 "Parameters, keys, and the input ciphertexts, plaintexts, messages and decompositions handed to an operation hold the same value at every moment during and after the call as before it, unless the same object was also designated as the receiver; the same goes for polynomials, polynomial vectors and numbers given to the ring layer, and for what earlier operations returned. A result shares no memory with what was only read. This holds whether the operation completes or is rejected, so one object may be read by any number of concurrent or later operations.",
 ["schedules", "histories", "inputs"],
 "for all operations, argument shapes (levels, degrees, domains, receivers), at every statement boundary of every call including calls that end in a rejection",
 "Tests look at the outputs of a call and rarely re-read its inputs; a temporary in-place conversion that is undone before the call returns cannot be seen by any sequential test at all.",
 ["ckks/evaluator.go", "ckks/encoder.go", "rlwe/elements.go", "rlwe/encryptor.go", "rlwe/decryptor.go", "rlwe/keyswitch.go", "rlwe/keygen.go", "frlwe/keygen.go", "frlwe/keyswitch.go", "fckks/evaluator.go", "ring/ring_basis_extension.go", "rlwe/ring_qp.go", "ring/ring.go", "ring/ring_operations.go", "ring/ring_scaling.go", "ring/ring_poly.go", "rlwe/keys.go", "rlwe/params.go"],
 [("operations write only to the receiver and to engine-private pools", "rlwe/keyswitch.go:81-300, ckks/evaluator.go, fckks/evaluator.go, frlwe/keyswitch.go:188")],
 None, ["deep fingerprints of every shared object at context switches and after every call"])

prop("C03", "An engine's answers do not depend on its past",
 "The result of a call on a long-lived evaluator, key switcher, encoder, decryptor, encryptor, key generator or basis extender is determined by the call's arguments (and fresh randomness) alone. Whatever sequence of earlier calls the engine served, at whatever levels, scales, degrees and slot counts, including calls that were rejected, it answers as a newly built engine does.",
 ["histories", "fault_sequences"],
 "for all call histories of an engine, including rejected calls, followed by any call",
 "Tests build one engine per parameter set and exercise each operation in one fixed order, mostly at the top level; leftovers of a deeper, sparser or failed call in a scratch buffer or cached object only matter for particular later calls.",
 ["ckks/evaluator.go", "ckks/encoder.go", "rlwe/keyswitch.go", "rlwe/encryptor.go", "rlwe/decryptor.go", "rlwe/keygen.go", "frlwe/keyswitch.go", "frlwe/keygen.go", "fckks/evaluator.go", "fckks/encryptor.go", "fckks/decryptor.go", "ring/ring_basis_extension.go"],
 [("scratch pools are fully overwritten (or reduced to the used level) before being read", "rlwe/keyswitch.go, frlwe/keyswitch.go, ckks/encoder.go:356-530, fckks/encryptor.go, fckks/decryptor.go")],
 [("pools", "scratch reused across calls", "ckks/evaluator.go evaluatorBuffers, ckks/encoder.go encoder, fckks ptxtPool")],
 ["values returned or written by every call, compared with a newly built engine"])

prop("C04", "Results do not depend on the receiver's old content or on aliasing",
 "An operation that writes into a caller-supplied receiver produces the same ciphertext or plaintext (same decryption, level, scale and degree) whatever the receiver held before, as long as the receiver is large enough, and whether or not the receiver is one of the operands where in-place use is offered; likewise for the polynomials the ring layer writes. (The levels and domain flags by which a plaintext or polynomial receiver requests its format, and the receiver degrees an operation documents, are part of the arguments.) A receiver previously used for other results, at other levels or degrees, gives the result a new one would give.",
 ["histories", "inputs"],
 "for all operations, all earlier contents, levels, degrees, scales and domain flags of the receiver, and all alias patterns between receiver and operands",
 "Tests allocate a fresh zeroed receiver of exactly the right level for nearly every call, so stale limbs, stale degree-two parts, stale flags and order-of-write mistakes under aliasing are never exercised.",
 ["ckks/evaluator.go", "ckks/encoder.go", "rlwe/encryptor.go", "rlwe/decryptor.go", "rlwe/elements.go", "fckks/evaluator.go", "fckks/encryptor.go", "fckks/decryptor.go", "frlwe/keyswitch.go", "ring/ring_operations.go", "ring/ring_scaling.go", "ring/ring_ntt_interface.go", "ring/ring_basis_extension.go"],
 [("receivers are resized to the result's level and degree and fully overwritten", "ckks/evaluator.go:325-440,1131-1330,1449, rlwe/elements.go:142, rlwe/decryptor.go:55")],
 None, ["receiver after the call"])

prop("C05", "Stored or transmitted objects come back as they were",
 "Every serialisable object (parameters, secret, public, relinearisation, rotation and switching keys, ciphertexts, polynomials, rings) decodes to an object equal to the original (and to no different one) and interchangeable with it in every operation. This holds for any size, level, degree, domain and scale, whether decoded into a new or a previously used receiver, and across any number of encode/decode hops, deliveries out of order or duplicated, and restarts.",
 ["inputs", "histories", "crash_points", "fault_sequences"],
 "for all serialisable objects, all states of the receiving object, and all sequences of store, transmit, duplicate, reorder, crash and reload",
 "The marshalling tests do one round trip of one top-level object into a fresh receiver and compare; reuse of receivers, reduced levels, odd degrees, missing special modulus, flags, alternative ring types and later use of the decoded object are not explored.",
 ["rlwe/marshaler.go", "rlwe/ring_qp.go", "ring/ring_poly.go", "rlwe/params.go", "ckks/params.go", "ckks/ciphertext.go", "ring/ring.go", "utils/buffer.go"],
 [("length-prefixed binary encodings", "rlwe/marshaler.go, ring/ring_poly.go:186-420, rlwe/ring_qp.go:351-420"), ("parameter encodings", "rlwe/params.go:423-495, ckks/params.go:560-608")],
 None, ["decoded objects, compared structurally and by use after a simulated restart"])

prop("C06", "Damaged blobs are rejected, never crash the reader or yield wrong data",
 "Decoding a blob that was cut short at any byte by a crash or short read reports an error or, where the cut falls between complete list elements, yields only complete and correct elements. Decoding any damaged blob (torn, zero-filled, bit-flipped) never crashes, never runs away in time or memory, and leaves the receiver able to decode a good blob afterwards.",
 ["crash_points", "fault_sequences", "inputs"],
 "for all serialisable objects, all truncation points, and all torn, zero-filled or bit-flipped images, into new or used receivers",
 "No test decodes anything but a blob that was just produced; crash points inside a blob form a space only fault injection covers.",
 ["rlwe/marshaler.go", "rlwe/ring_qp.go", "ring/ring_poly.go", "rlwe/params.go", "ckks/params.go", "ckks/ciphertext.go", "utils/buffer.go"],
 [("length checks before reading", "rlwe/marshaler.go:66-95, ring/ring_poly.go:327-420, rlwe/params.go:449")],
 None, ["error results of decoding; absence of panics; decoded objects"])

prop("C07", "Parties sharing a seed derive the same stream and can resynchronise",
 "Keyed generators created from equal keys produce the same byte stream, and therefore the same public polynomials, at the same clock, independently of the other generators and callers running in between and of restarts. A party that crashed or fell behind can seek to any later clock and continue in step with the others, seeking backwards is refused without disturbing the stream, and different keys give different streams.",
 ["schedules", "histories", "crash_points"],
 "for all numbers of parties, interleavings of their draws, draw sizes used by the samplers, crash and restart points, and seek sequences",
 "The unit test compares two generators at one fixed clock after one seek; it has no interleaved parties, no restarts, no repeated or refused seeks and no sampling on top of the stream.",
 ["utils/prng.go", "ring/ring_sampler_uniform.go", "ring/ring_sampler_gaussian.go", "ring/ring_sampler_ternary.go", "rlwe/encryptor.go", "rlwe/ring_qp.go"],
 [("XOF stream plus call counter", "utils/prng.go:45-93"), ("common reference polynomial encryption", "rlwe/encryptor.go:137-160")],
 [("clock", "number of draws made so far", "utils/prng.go:KeyedPRNG")],
 ["bytes, sampled polynomials and clock values of each party"])

prop("C08", "Samplers stay inside their distribution's support and make progress",
 "For every random byte stream, including streams that stick or repeat for a while, a sampled polynomial is well formed: uniform coefficients lie below their modulus, Gaussian coefficients stay within the configured bound, ternary coefficients are in {-1,0,1} with exactly the requested number of non-zeros when one is requested, and all residues represent one integer. Levels beyond the requested one are untouched, an additive draw adds exactly such a sample, and once the stream behaves again a draw finishes within a bounded number of requests and its coefficients follow the configured distribution.",
 ["inputs", "histories", "fault_sequences"],
 "for all byte streams delivered by the random source, all interleavings of draws of different kinds and levels on one sampler or source, all parameter shapes",
 "The sampler tests draw once from an honest stream and check loose statistics; refill boundaries, rejection paths, levels below the top, repeated use of one sampler and adversarial or stuck streams are not reached.",
 ["ring/ring_sampler_uniform.go", "ring/ring_sampler_gaussian.go", "ring/ring_sampler_ternary.go"],
 [("rejection sampling with refill", "ring/ring_sampler_uniform.go:41-180"), ("ziggurat sampling with truncation", "ring/ring_sampler_gaussian.go:84-309"), ("sparse and dense ternary sampling", "ring/ring_sampler_ternary.go:137-306")],
 None, ["sampled polynomials; number of requests made to the random source"])

prop("C09", "Secret randomness is fresh, never reused, and its failure is never ignored",
 "Every encryptor, key generator and sampler copy draws secrets, errors and masks from its own fresh randomness: no two keys, ciphertexts or copies repeat the same randomness, even for identical inputs or after shallow copying, re-keying or restarting. If the system's randomness source fails or delivers too little, no key, ciphertext or random value is produced.",
 ["histories", "schedules", "fault_sequences"],
 "for all sequences of construction, copying, re-keying and use of engines, all schedules of concurrent users and all points at which the randomness source fails",
 "The tests never fail the randomness source and never compare two ciphertexts or keys for shared randomness, so predictable or repeated masks pass every functional test.",
 ["utils/prng.go", "utils/utils.go", "ring/int.go", "rlwe/encryptor.go", "rlwe/keygen.go", "ckks/encoder.go", "ckks/encryptor.go"],
 [("every engine seeds its own generator from the operating system", "utils/prng.go:54-66, rlwe/encryptor.go:86-104, rlwe/keygen.go:60-84")],
 None, ["masks and errors recovered with the secret key; outcome of construction under failing entropy"])

prop("C10", "Outsourced CKKS computation decrypts to the plaintext computation",
 "For any sequence of the offered homomorphic operations that respects the documented level, scale and degree rules, decrypting and decoding the result gives the same computation on the plaintexts, up to the error the scheme's parameters imply. This holds whichever worker performs each step, with any packing, ring type, constants and operand levels, over a network that delays, drops, duplicates and reorders messages and with workers that crash and restart from stored keys and ciphertexts.",
 ["programs", "histories", "configurations", "fault_sequences"],
 "for all operation sequences over ciphertexts and plaintexts, all parameter shapes, and all delivery, crash and restart sequences",
 "The repository's passing suite has no test of this layer at all, and operation-by-operation tests at the top level could not reach the compositions, reduced levels, mixed scales and degrees, aliasing and restarts that real programs use.",
 ["ckks/evaluator.go", "ckks/encoder.go", "ckks/ckks_vector_ops.go", "ckks/utils.go", "ckks/encryptor.go", "ckks/decryptor.go", "rlwe/keyswitch.go", "rlwe/keygen.go", "ring/ring_scaling.go", "ring/ring_automorphism.go"],
 [("homomorphic evaluator", "ckks/evaluator.go"), ("encoder", "ckks/encoder.go")],
 None, ["decrypted and decoded results, scale, level and degree after every step"])

prop("C11", "Fast key switching is correct for every level and parameter shape",
 "Relinearising a product, rotating and re-keying with the fast key-switching engine yields, at every ciphertext level and for every number of special moduli, block size and auxiliary modulus chain the parameters admit, a ciphertext that decrypts under the target key to the intended value with noise no larger than the same key-switching analysis predicts. It agrees with the classical engine up to that noise, for any sequence of calls and keys.",
 ["configurations", "histories", "inputs"],
 "for all parameter shapes (ring degree, moduli counts, special moduli, block size, auxiliary moduli), ciphertext levels, keys and call sequences mixing levels and keys",
 "One test performs one product at the top level of one parameter set; reduced levels (partial digits, partial blocks), other shapes and sequences of mixed levels are never run by the passing suite.",
 ["frlwe/keyswitch.go", "frlwe/keygen.go", "frlwe/keys.go", "frlwe/params.go", "fckks/evaluator.go", "fckks/params.go", "fckks/keygen.go"],
 [("gadget decomposition in an auxiliary ring", "frlwe/keyswitch.go:188-224"), ("blocked external product and recomposition", "frlwe/keyswitch.go:113-186"), ("key conversion", "frlwe/keygen.go:59-145")],
 [("halfT offsets and block rings", "centring constants and per-block bases", "frlwe/keyswitch.go:NewKeySwitcher")],
 ["phase of the switched ciphertext under the target key"])

prop("C12", "Generated keys are valid for their secret and usable at every level",
 "Every public, relinearisation, rotation, conjugation, switching and ring-switching key that a generator returns, in whatever order and number they are requested and for whichever kind of secret, is a valid key for exactly the requested secret, rotation or degree, with error no larger than the configured distribution allows. Applying it through any classical key-switching path (direct, hoisted, with or without final scaling), at any level, yields an encryption of the intended value under the target secret with small noise. The changes of basis this rests on (extending a polynomial from Q to P or back, dividing it by P or by Q) are right to within one unit at every pair of levels.",
 ["histories", "configurations", "inputs"],
 "for all request sequences to one generator, all secrets and parameter shapes, all rotation amounts and Galois elements, all levels and key-switching paths",
 "Tests generate each key kind once from a fresh generator and check it at the top level for a fixed rotation; sequences on one generator, several secrets, other shapes, other levels and path combinations are sampled thinly or not at all.",
 ["rlwe/keygen.go", "rlwe/keyswitch.go", "rlwe/keys.go", "rlwe/params.go", "rlwe/elements.go", "ckks/keys.go", "frlwe/keygen.go", "rlwe/ring_qp.go"],
 [("gadget encryption of the input secret", "rlwe/keygen.go:256-411"), ("decomposition and hoisting", "rlwe/keyswitch.go:81-299, ring/ring_basis_extension.go:DecomposeAndSplit")],
 None, ["phases of key components and of switched ciphertexts under the secrets involved"])

prop("C13", "Encryption and decryption are mutually inverse at every level and domain",
 "A plaintext encrypted with a public or secret key, with or without special modulus, or from a supplied common reference polynomial, decrypts under the matching secret to that plaintext with only the error of a fresh encryption. This holds at every plaintext and receiver level, in either polynomial domain, with any mix of engines obtained by construction, copying or re-keying, at any point of their use.",
 ["histories", "configurations", "inputs"],
 "for all key kinds, parameter shapes, plaintext and receiver levels, domain flags, and sequences of encryptions and decryptions on the same or copied engines",
 "Tests encrypt at one or two levels with fresh engines and receivers and use loose noise bounds; engine reuse across levels, receivers in the other domain, and re-keyed copies are not combined.",
 ["rlwe/encryptor.go", "rlwe/decryptor.go", "ckks/encryptor.go", "ckks/decryptor.go", "fckks/encryptor.go", "fckks/decryptor.go", "rlwe/keygen.go"],
 [("encryption of zero plus message in the required domain", "rlwe/encryptor.go:196-395"), ("Horner evaluation at the secret", "rlwe/decryptor.go:55-95")],
 None, ["phase of the ciphertext minus the plaintext; decrypted plaintext, its level, scale and domain"])

prop("C14", "Scale, level and degree always describe the ciphertext truthfully",
 "After any sequence of operations, the scale, level and degree recorded on a ciphertext or plaintext are the ones its content really has, and are what the operation documents: products multiply scales, rescaling divides by exactly the dropped moduli, never drops more levels than exist and never leaves the scale under the requested minimum, sums of operands whose scales are equal or differ by a whole factor have the larger of the two scales. A call that cannot keep these rules is refused and leaves its receiver and the engine usable.",
 ["histories", "programs", "fault_sequences"],
 "for all sequences of operations and rejected calls over ciphertexts with any levels, scales and degrees",
 "The bookkeeping spans many operations and only goes wrong for particular combinations (uneven moduli, last level, unequal scales, larger receivers); the passing suite has no test of this layer.",
 ["ckks/evaluator.go", "ckks/ciphertext.go", "ckks/plaintext.go", "ckks/decryptor.go", "ckks/encoder.go", "fckks/evaluator.go", "rlwe/elements.go", "ring/ring_scaling.go"],
 [("rescaling loop", "ckks/evaluator.go:1041-1100"), ("scale alignment in binary operations", "ckks/evaluator.go:325-440,529-680"), ("level dropping", "ckks/evaluator.go:1020-1036")],
 None, ["metadata and content of receivers after every step, and after refused calls"])

# ---- properties this technique does not decide
prop("N01", "RNS polynomial arithmetic is exact",
 "Number-theoretic transforms, modular multiplication, automorphisms, rescaling and basis conversion compute the exact mathematical function for every ring degree, modulus and coefficient vector.",
 ["inputs", "configurations"], "for all moduli, degrees, levels and coefficient vectors",
 "Tests sample a few moduli and random vectors; extreme residues and moduli near the word limit are not covered.",
 ["ring/ring_ntt.go", "ring/modular_reduction.go", "ring/ring_vector_ops.go", "ring/ring_operations.go", "ring/ring_scaling.go", "ring/ring_automorphism.go"],
 [("Montgomery and Barrett reduction", "ring/modular_reduction.go"), ("NTT", "ring/ring_ntt.go")])
prop("N02", "Generated and accepted parameters are sound",
 "Prime generation returns distinct primes of the requested size that support the transform, and every accepted parameter set supports all operations it is accepted for.",
 ["inputs", "configurations"], "for all requested sizes, counts and literals",
 "Tests use a handful of fixed parameter literals.",
 ["ring/primes.go", "ring/ring.go", "rlwe/params.go", "ckks/params.go", "frlwe/params.go"],
 [("parameter checks", "rlwe/params.go:496-616"), ("prime search", "ring/primes.go")])
prop("N03", "Encoding reaches the precision the scale allows",
 "Encoding and decoding of any vector of values at any scale loses no more precision than floating-point arithmetic and the scale imply, in both the machine-precision and the arbitrary-precision encoder.",
 ["inputs"], "for all value vectors, scales, slot counts and precisions",
 "Precision on all inputs is an analysis question, not a matter of samples.",
 ["ckks/encoder.go", "ckks/ckks_vector_ops.go", "ckks/utils.go", "ring/complex128.go"],
 [("special FFT and fixed-point conversion", "ckks/encoder.go, ckks/utils.go")])
prop("N04", "Execution time and memory access do not depend on secrets",
 "The time taken and memory touched by key generation, encryption and decryption do not depend on secret values.",
 ["inputs"], "for all secret keys and randomness", "Functional tests do not observe time or memory access.",
 ["ring/modular_reduction.go", "ring/ring_sampler_gaussian.go", "ring/ring_sampler_ternary.go", "rlwe/decryptor.go"],
 [("branch-free reductions", "ring/modular_reduction.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
