#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Homomorphic gates decrypt to the right bit in every circuit",
 "For every circuit built from NOT, NAND, AND, OR, NOR, XOR, XNOR, MAJORITY and MUX over encrypted bits, every intermediate and final ciphertext decrypts to the value the plain Boolean circuit computes. "
 "Outputs of gates can be used as inputs of further gates without limit, a wire may be used many times, and the two operands of a gate may be the same ciphertext. "
 "This holds for every supported parameter set: each of the three bootstrapping step orders, binary and ternary secret keys, and a ciphertext modulus below, equal to or above twice the ring dimension. "
 "A gate tolerates any errors of its operands as long as their combination stays within an eighth of the modulus (less the rounding of the modulus switch) of the exact one.",
 ["programs", "inputs", "configurations", "histories"],
 "all gate sequences (histories of evaluations on shared wires), all input bits, all accepted parameter sets",
 "No test exercises the boolean layer at all: fhe_core and zkfhe have no tests, only an example and a benchmark that need the default parameters.",
 ["bool/src/bfhe/evaluate.rs", "bool/src/encrypt.rs", "bool/src/decrypt.rs"],
 [("lookup tables per gate", "bool/src/bfhe/evaluate.rs init_*_lut"), ("linear combination before bootstrapping", "bool/src/bfhe/evaluate.rs Evaluator::{nand,and,or,nor,xor,xnor,majority,mux}")],
 [("wire", "ciphertext with plain bit and phase", "LWECiphertext")], ["decrypted bit and phase of every wire"])

prop("C02", "Bootstrapping evaluates its lookup table and resets the noise",
 "Bootstrapping a ciphertext with a lookup table yields a ciphertext, in the original dimension and modulus, whose phase is the table entry selected by the input's phase (with the sign flip for the upper half of the torus) plus one eighth of the modulus, up to a rounding error that depends only on the parameters. "
 "The error of the result does not depend on the error of the input, as long as the selected table entry is the same, nor on how often the value was bootstrapped before.",
 ["inputs", "configurations", "histories"], "every input phase, every table, every step order, modulus ratio and key type; chains of bootstraps of any length",
 "Nothing in the tests calls bootstrapping.",
 ["bool/src/bfhe/evaluate.rs", "fhe_core/src/blind_rotation/mod.rs", "fhe_core/src/modulus_switch.rs"],
 [("bootstrap pipeline", "bool/src/bfhe/evaluate.rs EvaluationKey::bootstrap")],
 [("phase", "b - <a,s> mod q", "LWECiphertext")], ["phase of the output under the LWE secret key"])

prop("C03", "Decryption inverts encryption and reports the true noise",
 "For every message below the plaintext modulus, encoding followed by decoding returns the message for every perturbation smaller than half an encoding step, and encrypting then decrypting returns the message. "
 "The fresh encryption's error stays within six standard deviations of the configured noise, and decryption with noise returns the same message together with the exact distance of the phase to the nearest encoding. "
 "Messages outside the plaintext modulus are refused.",
 ["inputs", "configurations", "histories"], "all messages, plaintext/ciphertext modulus pairs, message types, keys and random tapes",
 "fhe_core and zkfhe have no tests; the only encode/decode exercise is an example program.",
 ["fhe_core/src/plaintext.rs", "fhe_core/src/secret_key.rs", "bool/src/encrypt.rs", "bool/src/decrypt.rs", "lattice/src/lwe.rs"],
 [("encode / decode", "fhe_core/src/plaintext.rs"), ("encrypt / decrypt / decrypt_with_noise", "fhe_core/src/secret_key.rs")],
 [("phase", "b - <a,s> mod q", "LWE")], ["decrypted message, noise, phase"])

prop("C04", "LWE ciphertext arithmetic is linear in the phase",
 "Adding, subtracting, negating and scaling LWE ciphertexts adds, subtracts, negates and scales their phases modulo the ciphertext modulus, for every operand and every power-of-two or prime modulus. "
 "The consuming, by-reference, in-place and modulus-aware forms of an operation give identical components, all results are reduced below the modulus, and by-reference operands are left unchanged. "
 "A fresh zero sample has phase equal to its error term.",
 ["inputs", "histories"], "all component vectors, scalars, moduli and sequences of in-place operations on shared ciphertexts",
 "One existing test adds/subtracts a couple of random prime-field ciphertexts; power-of-two moduli, scaling, negation and in-place forms are untested.",
 ["lattice/src/lwe.rs", "algebra/src/modulus/powof2/internal_macros.rs"],
 [("component-wise operations", "lattice/src/lwe.rs")], [("a, b", "mask vector and body", "LWE")], ["components of every register after every operation"])

prop("C05", "Modulus switching rounds every component to the nearest value",
 "Switching an LWE ciphertext from modulus Q to modulus q replaces every component v, including the body, by the integer nearest to v*q/Q, reduced into [0, q); a result of exactly q wraps to 0. "
 "The phase after switching therefore equals the scaled phase up to half a unit per non-zero secret coordinate plus half a unit. "
 "The returning, destination-writing and in-place forms agree, and the destination's previous contents do not matter.",
 ["inputs", "configurations"], "all component values (all residues for small moduli) and all modulus pairs whose product is exactly representable in the arithmetic used",
 "No test calls modulus switching.",
 ["fhe_core/src/modulus_switch.rs"],
 [("nearest rounding and wrap-around", "fhe_core/src/modulus_switch.rs")], [], ["components of the switched ciphertext"])

prop("C06", "Key switching preserves the encrypted value",
 "Key switching turns a ciphertext under the ring secret key into one under the LWE secret key, with the LWE dimension and the same modulus, whose phase equals the original phase up to the noise of the switching key; with a noiseless switching key the phases are equal. "
 "This holds for every ciphertext, for LWE and RLWE inputs, for every decomposition base, for binary and ternary keys, and when the LWE dimension is not a power of two. "
 "The switching key can be used any number of times with the same result.",
 ["inputs", "configurations", "histories"], "all ciphertexts (all mask values), decomposition widths, dimensions, key types; repeated use of one key",
 "No test constructs a key switching key.",
 ["fhe_core/src/key_switch/lwe.rs", "fhe_core/src/key_switch/rlwe.rs"],
 [("LWE key switching", "fhe_core/src/key_switch/lwe.rs"), ("RLWE key switching with padded dimension", "fhe_core/src/key_switch/rlwe.rs")],
 [("switching key", "gadget encryptions of the ring key under the LWE key", "KeySwitching*Key")], ["phase under the target key"])

prop("C07", "Blind rotation multiplies the table by X^(-phase)",
 "Blind rotation of a lookup polynomial by an LWE ciphertext over modulus 2N yields an RLWE ciphertext whose phase, up to the noise of the bootstrapping key, is the lookup polynomial times X to the power minus the LWE phase in the negacyclic ring; with a noiseless key it is equal. "
 "This holds for every mask and body value in [0, 2N), for both key types and every decomposition base, and neither the key nor earlier rotations influence a later one.",
 ["inputs", "configurations", "histories"], "all LWE ciphertexts mod 2N, lookup polynomials, key types, bases; repeated rotations with one key",
 "No test generates a blind rotation key.",
 ["fhe_core/src/blind_rotation/mod.rs", "fhe_core/src/blind_rotation/binary.rs", "fhe_core/src/blind_rotation/ternary.rs"],
 [("accumulator update per mask element", "fhe_core/src/blind_rotation/{binary,ternary}.rs")],
 [("acc", "RLWE accumulator", "blind_rotate")], ["phase polynomial of the result under the ring key"])

prop("C08", "RLWE arithmetic and sample extraction are linear in the phase",
 "Adding, subtracting, negating RLWE ciphertexts, multiplying them by plain polynomials or by monomials X^k, and converting them between coefficient and transform representation act on the phase polynomial as the corresponding ring operation, for every operand and every rotation amount up to twice the ring dimension. "
 "Sample extraction yields an LWE ciphertext whose phase under the coefficient vector of the ring key is the constant coefficient of the phase polynomial, also when only a prefix of the key dimension is used. "
 "All returning, in-place, accumulate and destination-writing forms of an operation agree with each other whatever the destination held before.",
 ["inputs", "histories"], "all polynomials, rotation amounts 0..2N, operation sequences on shared ciphertexts and scratch buffers",
 "The existing tests check a few random ciphertexts at one ring dimension; monomial rotations and dirty destinations are not covered.",
 ["lattice/src/rlwe.rs", "lattice/src/utils/space.rs"],
 [("RLWE / NTTRLWE operations", "lattice/src/rlwe.rs"), ("sample extraction", "lattice/src/rlwe.rs extract_lwe*")],
 [("a, b", "mask and body polynomials", "RLWE / NTTRLWE")], ["all coefficients after every operation"])

prop("C09", "Gadget decomposition is exact and its digits are below the base",
 "For every decomposition base and modulus, decomposing a value, a polynomial or a vector gives exactly the announced number of digits, every digit is smaller than the base, and the sum of digit times base power is the original value. "
 "One-shot, in-place, single-digit and LWE-level forms agree with each other and overwrite whatever their destination held.",
 ["inputs", "configurations"], "all values, all bases accepted for the modulus, prime and power-of-two moduli, arbitrary destination contents",
 "The existing tests decompose random elements for one base (3 bits) into fresh zeroed vectors.",
 ["algebra/src/decompose_basis.rs", "algebra_derive/src/decomposable_field.rs", "algebra/src/polynomial/native_polynomial.rs", "lattice/src/utils/decompose_basis.rs"],
 [("basis", "algebra/src/decompose_basis.rs, lattice/src/utils/decompose_basis.rs"), ("digit extraction", "algebra_derive/src/decomposable_field.rs")], [], ["digits and remaining value"])

prop("C10", "Gadget and RGSW products multiply the phases",
 "Multiplying a gadget RLWE encryption of m by a plain polynomial p yields a phase of m*p, multiplying an RLWE ciphertext by an RGSW encryption of m yields its phase times m, and multiplying RGSW ciphertexts yields an RGSW encryption of the product, each exactly when the keys are noiseless and within the noise bound otherwise. "
 "RGSW and gadget samples generated as encryptions of zero, one and the negated key encrypt exactly that at every power of the base. "
 "Coefficient and transform forms, the lazily reduced forms and the forms using caller-supplied scratch space agree after normalisation, whatever the scratch space held before.",
 ["inputs", "configurations", "histories"], "all operands, all decomposition bases, all scratch contents, sequences of products reusing one scratch space",
 "The existing tests multiply a few samples with one base and fresh buffers, comparing decrypted messages only.",
 ["lattice/src/gadget/rlwe.rs", "lattice/src/rgsw.rs", "lattice/src/rlwe.rs"],
 [("external product", "lattice/src/rlwe.rs mul_*rgsw*"), ("gadget product", "lattice/src/gadget/rlwe.rs"), ("sample generation", "lattice/src/rgsw.rs")],
 [("scratch", "decomposition / polynomial / NTT RLWE spaces", "lattice/src/utils/space.rs")], ["components and phase of every product"])

prop("C11", "Polynomial arithmetic is negacyclic ring arithmetic in both forms",
 "Addition, subtraction, negation, scalar, polynomial and monomial multiplication of polynomials are the operations of Z_p[X]/(X^N+1), and the point-value form is an isomorphic copy of that ring: converting, computing there and converting back gives the same polynomial. "
 "By-value, by-reference, assigning, in-place and multiply-accumulate forms (including the lazily reduced ones after normalisation) give equal results with coefficients in [0, p). "
 "Evaluation, resizing, and coefficient access are consistent with this view.",
 ["inputs", "programs"], "all polynomials and all sequences of operations on shared registers, for every supported ring size and modulus",
 "The existing tests use one modulus and ring size 10-32 with random operands, and leave most assigning/in-place/accumulate/lazy forms out.",
 ["algebra/src/polynomial/native_polynomial.rs", "algebra/src/polynomial/ntt_polynomial.rs"],
 [("coefficient form", "algebra/src/polynomial/native_polynomial.rs"), ("point-value form", "algebra/src/polynomial/ntt_polynomial.rs")],
 [("registers", "polynomials and NTT polynomials", "Polynomial / NTTPolynomial")], ["all coefficients after every operation"])

prop("C12", "The NTT evaluates at the odd root powers and is invertible",
 "The forward transform maps a polynomial to its values at the odd powers of the table's root of unity in bit-reversed order, and the inverse transform undoes it exactly, for every supported size and modulus and for inputs anywhere in the documented lazily reduced ranges. "
 "Transforming a monomial c*X^d directly, for any d below twice the size, gives the same values as transforming it as a polynomial. "
 "Table roots are primitive of the right order, minimal, and all outputs are reduced.",
 ["inputs", "configurations"], "all inputs in range, all sizes 2..2^k dividing the group order, all monomials",
 "One round-trip test at one size with fully reduced random inputs.",
 ["algebra/src/transformation/ntt_table.rs", "algebra/src/transformation/mod.rs", "algebra_derive/src/ntt.rs"],
 [("butterflies", "algebra/src/transformation/ntt_table.rs"), ("root search and table generation", "algebra_derive/src/ntt.rs")], [], ["transform output, table roots"])

prop("C13", "The shared NTT table cache is safe under concurrency and failures",
 "Any number of threads may request or initialise transform tables of any sizes concurrently: every request for a supported size returns the one table of that size and field, fully built, and every request for an unsupported size returns an error. "
 "No interleaving leads to a data race, a crash, a deadlock or two different tables for one size, and a failed request never affects other requests.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of requests from any number of threads, all orders of sizes, including failing ones",
 "No test requests tables concurrently; unit tests each run in their own order and never fail a request.",
 ["algebra_derive/src/ntt.rs"],
 [("map guarded by a mutex", "algebra_derive/src/ntt.rs get_ntt_table / init_ntt_table")],
 [("tables", "map from log size to shared table", "algebra_derive/src/ntt.rs"), ("mutex", "guards the map", "algebra_derive/src/ntt.rs")], ["result of every request; identity of the returned table"])

prop("C14", "Modular and wide-integer arithmetic is exact for every operand",
 "For every modulus the type supports, each modular operation of each backend (Barrett, power-of-two, precomputed-factor, plain, wrapping, and the two fixed primes) returns the mathematically exact residue in [0, m) - for the Goldilocks prime any 64-bit representative of it - and the lazy forms return a congruent value in [0, 2m). "
 "This includes reduction of double words and digit slices, exponentiation, division and dot products of any length. "
 "Carrying, borrowing and widening integer operations return the exact double-word result and carry.",
 ["inputs", "configurations"], "all operands in the documented ranges, all moduli with two spare high bits, all vector lengths",
 "The tests draw a handful of random 32/64-bit operands per run; boundary values, 8/16-bit types, lazy forms and vector lengths are not covered.",
 ["algebra/src/modulus", "algebra/src/reduce", "algebra/src/primitive/widening"],
 [("Barrett", "algebra/src/modulus/barrett"), ("power of two", "algebra/src/modulus/powof2"), ("Shoup", "algebra/src/modulus/shoup"), ("fixed primes", "algebra/src/modulus/{baby_bear,goldilocks}"), ("wide arithmetic", "algebra/src/primitive/widening")], [], ["operation results"])

prop("C15", "Derived prime fields obey the field laws with canonical values",
 "For every supported prime modulus and storage width, the operators of a derived field agree with arithmetic modulo the prime, results are canonical (below the prime), and equality, ordering, hashing and serialisation are those of the canonical value. "
 "By-reference, assigning and fused multiply-add forms agree, lazily reduced forms stay below twice the modulus and congruent, inversion and division are exact for every non-zero element, and powers are exact for every exponent.",
 ["inputs", "configurations"], "all pairs of elements (exhaustive for small primes), all exponents, all storage widths",
 "The tests use two moduli with random elements; small widths, boundary elements, fused and lazy forms, serialisation of edge values are not covered.",
 ["algebra_derive/src", "algebra/src/field/mod.rs"],
 [("operators", "algebra_derive/src/ops.rs, basic.rs, field.rs, fhe_field.rs")], [], ["operation results and serialised bytes"])

prop("C16", "GCD, modular inverse, primality and root search are correct",
 "The greatest common divisor, Bezout coefficients and modular inverses are exact for all positive operands in the supported range, and a missing inverse is reported as an error. "
 "The primality test accepts every prime, and rejects every composite except with probability at most 4^-rounds over its own randomness. "
 "A returned primitive root has exactly the requested order, the minimal one is the smallest such element, non-existence is reported as an error, and bit reversal of the low bits is exact.",
 ["inputs"], "all operands, all candidate moduli, all degrees",
 "Random 62-bit candidates are almost never the strong pseudoprimes or boundary values that separate a wrong test from a right one.",
 ["algebra/src/utils/gcd.rs", "algebra/src/utils/prime.rs", "algebra/src/utils/reverse.rs", "algebra/src/reduce/macros.rs", "algebra_derive/src/ntt.rs"],
 [("binary extended gcd", "algebra/src/utils/gcd.rs"), ("Miller-Rabin", "algebra/src/utils/prime.rs"), ("root search", "algebra_derive/src/ntt.rs")], [], ["returned values and errors"])

prop("C17", "Samplers draw from the declared distribution and support",
 "Every sampler returns only canonical values of its declared support: {0,1} for binary, {-1,0,1} for ternary, within the truncation bound for Gaussian, within +-21 for centred binomial, and every residue for uniform. "
 "Every coordinate of a sampled vector of any length follows the declared probabilities and is independent of the other coordinates. "
 "Sampling is a deterministic function of the random source, terminates for every accepted parameter, and invalid parameters are refused.",
 ["inputs", "configurations", "histories"], "all random tapes, vector lengths, moduli and distribution parameters",
 "Existing tests print or spot-check a few draws.",
 ["algebra/src/random.rs", "algebra/src/utils/sample.rs", "lattice/src/utils/sample.rs", "algebra/src/polynomial/native_polynomial.rs", "algebra/src/polynomial/ntt_polynomial.rs"],
 [("field samplers", "algebra/src/random.rs"), ("vector samplers", "algebra/src/utils/sample.rs, lattice/src/utils/sample.rs")], [], ["samples, histograms"])

prop("C18", "The seeded generator is AES-128 counter mode, however it is read",
 "The block cipher used equals AES-128 for every key and block, alone or in batches of any size. "
 "The seeded generator's output is the encryption of consecutive counters under the seed: the same seed gives the same stream, and every way of reading it by words and blocks, in chunks of any size, returns the successive parts of that stream with no block repeated or skipped. Generators created without a seed have unrelated streams.",
 ["inputs", "histories"], "all keys, blocks, batch lengths, and all sequences of read calls with arbitrary chunk sizes",
 "The tests use one key with the standard vector and one call pattern.",
 ["algebra/src/utils/aes.rs", "algebra/src/utils/prg.rs", "algebra/src/utils/block.rs"],
 [("AES", "algebra/src/utils/aes.rs"), ("counter and buffer", "algebra/src/utils/prg.rs")],
 [("counter", "next counter block", "algebra/src/utils/prg.rs"), ("buffer index", "position in the buffered words", "algebra/src/utils/prg.rs")], ["output bytes of every call"])

prop("C19", "Accepted parameters and generated keys are consistent",
 "Parameter construction accepts a set exactly when the ring dimension is a power of two, twice the ring dimension divides the ring modulus minus one, and the plaintext and ciphertext moduli are powers of two with the former not above the latter; all accessors then return what was given and the decomposition bases match the moduli. "
 "A generated secret key has the configured dimensions, every coefficient lies in the support of its configured distribution, and its stored forms (plain, ring and transformed) represent the same key. "
 "Encrypting and decrypting through any copy of the key pack, directly or through the encryptor and decryptor objects, uses that same key.",
 ["configurations", "inputs"], "all combinations of parameter values and step orders; all random tapes of key generation",
 "fhe_core has no tests, so no rejected or unusual parameter set is ever constructed.",
 ["fhe_core/src/parameter.rs", "fhe_core/src/secret_key.rs", "bool/src/key_gen.rs", "bool/src/bfhe/parameters.rs"],
 [("validation", "fhe_core/src/parameter.rs Parameters::new"), ("key generation", "fhe_core/src/secret_key.rs")], [], ["accessor values, key coefficients"])

prop("C20", "Evaluation is a pure function, whatever ran before or runs beside it",
 "Evaluating a gate, a bootstrap, a key switch or a blind rotation depends only on the evaluation key and the operands: repeating it, on the same or a cloned evaluator, before or after any other evaluations, alone or while other threads use the same evaluator, yields a bit-identical ciphertext. "
 "Operands passed by reference and keys are never modified. "
 "A selection gate gives the same ciphertext as its definition from the two conjunctions and the final disjunction, whatever the size of the worker pool.",
 ["schedules", "histories"], "all interleavings of evaluations by several threads on one evaluator, all pool sizes, all histories",
 "No test evaluates a gate, let alone concurrently.",
 ["bool/src/bfhe/evaluate.rs", "fhe_core/src/blind_rotation", "fhe_core/src/key_switch", "lattice/src/utils/space.rs"],
 [("shared immutable keys, per-call scratch", "fhe_core/src/blind_rotation, fhe_core/src/key_switch"), ("parallel join in the selection gate", "bool/src/bfhe/evaluate.rs mux")],
 [("memo", "result of each call by operation and operands", "observed history")], ["ciphertext bits of every call, operand bits before and after"])

prop("C21", "Every ciphertext and every key row is freshly randomised",
 "Every fresh encryption of any kind (integer LWE, RLWE, transformed RLWE, gadget and RGSW samples of zero, one, a value or the negated secret), every row of a blind rotation key and every row of a key-switching key has a mask of its own, uniform over the whole ring in every coefficient and independent of all other rows, "
 "and an error of its own with the declared distribution in every coefficient, independent of the masks, the secret, the message and the other errors; no two rows of any object, and no two objects, share a mask. "
 "Generated secret keys follow their declared distribution independently in every position. "
 "All of it is a deterministic function of the random source passed in, and another source gives other values.",
 ["inputs", "configurations", "histories"], "all random tapes, messages, secrets, parameter sets and key objects",
 "Existing tests only decrypt; a key whose rows share masks or carry no error decrypts perfectly.",
 ["lattice/src/lwe.rs", "lattice/src/rlwe.rs", "lattice/src/gadget/rlwe.rs", "lattice/src/rgsw.rs", "fhe_core/src/secret_key.rs", "fhe_core/src/blind_rotation", "fhe_core/src/key_switch"],
 [("samples", "lattice/src/rlwe.rs, lattice/src/lwe.rs, lattice/src/gadget/rlwe.rs, lattice/src/rgsw.rs generate_random_*"), ("keys", "fhe_core/src/blind_rotation, fhe_core/src/key_switch generate")], [], ["mask and body of every row over many draws, rows of opaque keys through their operations"])

prop("C22", "Field definitions are accepted exactly when valid and mean what they say",
 "A field definition compiles exactly when it is a non-generic tuple struct around a single u8, u16, u32 or u64 and its modulus attribute is an integer literal of at least 2, in any notation, that leaves the two topmost bits of the word free; every other shape, field type, attribute or magnitude is refused at compile time, in whatever order and grouping the traits are derived. "
 "An accepted field has exactly the declared modulus, its largest element and minus one are the modulus less one, and it reports whether its modulus is prime; for every prime modulus its arithmetic, conversions, transforms and decompositions are correct, and transform tables exist for exactly the sizes whose roots of unity exist and fit the word.",
 ["inputs", "configurations"], "all moduli, word types, notations and struct shapes a user can write",
 "The tests derive fields for a handful of moduli and never a definition that must be refused.",
 ["algebra_derive/src/ast.rs", "algebra_derive/src/attr.rs", "algebra_derive/src/field.rs", "algebra_derive/src/ntt.rs", "algebra_derive/src/prime.rs", "algebra_derive/src/basic.rs", "algebra_derive/src/ops.rs", "algebra_derive/src/decomposable_field.rs", "algebra/src/modulus/barrett"],
 [("shape checks", "algebra_derive/src/ast.rs"), ("modulus parsing and spare bits", "algebra_derive/src/attr.rs")], [], ["verdict of the compiler for every definition, constants, tables and operations of the accepted fields"])

prop("C23", "The transform counters count exactly the transforms made while on",
 "With the counting feature on, every forward and every inverse transform over any field and table size, through any of its forms (tables, polynomials, slices, conversions, or inside a homomorphic gate), by any thread, made while counting is enabled adds exactly one to its own counter, and none made while it is disabled is counted. "
 "No count is lost or doubled when many threads transform at once; clearing one counter leaves the other; the same gate on the same operands costs the same number of transforms every time.",
 ["schedules", "histories", "inputs"], "all interleavings of transforming threads with enabling, disabling, clearing and reading; all histories of these calls; all forms of transform",
 "No test compiles with the counting feature.",
 ["algebra/src/transformation/ntt_table.rs", "algebra/src/transformation/mod.rs"],
 [("counters", "algebra/src/transformation/ntt_table.rs count"), ("increments", "algebra/src/transformation/ntt_table.rs transform_slice, inverse_transform_slice")],
 [("enabled flag and the two counters", "process-wide", "algebra/src/transformation/ntt_table.rs count")], ["both counters after every call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
