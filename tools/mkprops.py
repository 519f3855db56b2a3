#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that ids, statements and anchors stay in one reviewable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Decrypting an encryption returns the message, in every ciphertext format",
 "For every valid parameter set, key and message vector, encrypting and then decrypting with the same key returns the message, in each of the LWE, Lev, GSW, GLWE, GLev and GGSW formats and their Fourier counterparts, through the message, plaintext, scalar/polynomial and decrypt-phase entry points. "
 "This holds whether the output ciphertext is freshly allocated or reused (with arbitrary previous contents), and the error of the decrypted phase stays at the size of the fresh noise. "
 "Messages are taken modulo the message modulus and missing coefficients are zero.",
 ["inputs","configurations","histories"], "every message x format x entry point x output-buffer history over a lattice of parameter sets (torus width, GLWE rank, ring degree, key layout, gadget base/level)",
 "The tests encrypt one or two fixed messages under the two shipped parameter sets into fresh outputs; ranks above 1, other gadget shapes, every message and reused outputs are never tried.",
 ["tfhe/lwe_enc.go","tfhe/glwe_enc.go","tfhe/fft_glwe_enc.go","tfhe/encryptor.go","tfhe/encoder.go"],
 [("mask sampling and inner product with the key","tfhe/lwe_enc.go EncryptLWEBody"),("short polynomial product with the transformed key","tfhe/glwe_enc.go EncryptGLWEBody"),("level scaling","tfhe GLev/GGSW encryption loops")])

prop("C02", "Encoding and decoding are exact inverses with correct rounding",
 "For every message modulus and scale, decoding the encoding of a message returns the message reduced modulo the message modulus, and still does after adding any error smaller in magnitude than half the scale. "
 "Polynomial encoding fills the missing coefficients with zero, ignores surplus messages, and agrees coefficient by coefficient with the scalar encoding.",
 ["inputs","configurations"], "every message in and beyond the modulus, every modulus/scale pair of a lattice, errors at and around every rounding boundary, all slice lengths",
 "Tests only observe the encoder through encryption of a handful of in-range messages under the default modulus and scale.",
 ["tfhe/encoder.go"], [("scale and round","tfhe/encoder.go Encode*/Decode*Custom")])

prop("C03", "Gadget decomposition recomposes to its input within the last level",
 "For every torus value and gadget base/level, the decomposition has digits of magnitude at most half the base and recomposes to a value within half of the last gadget factor of the input (exactly, when the gadget covers the whole word). "
 "The scalar, polynomial and Fourier decompositions agree digit by digit, and neither the input nor earlier results are changed.",
 ["inputs","configurations"], "every base/level shape that compiles for both torus widths; all values around every digit carry boundary at every level, plus all values of the top bits",
 "No test checks a decomposition directly; carries into the next level and full-width gadgets occur for very few random inputs.",
 ["tfhe/decomposer.go","tfhe/asm_decompose.go","tfhe/asm_decompose_amd64.s"], [("rounding then signed digit extraction","tfhe/decomposer.go DecomposeScalarTo, DecomposePolyTo")])

prop("C04", "Polynomial arithmetic is exact arithmetic modulo X^N+1",
 "For every ring degree, coefficient type and operands, addition, subtraction, negation, scalar, full and short polynomial products, monomial products and automorphisms, with their accumulate, subtract and in-place forms, equal exact integer arithmetic modulo X^N+1 and the word size. "
 "Exponents of any sign and magnitude are reduced modulo 2N, and documented operand overlaps do not change the result.",
 ["inputs","configurations"], "all monomial exponents in several periods, all odd automorphisms, all basis products, boundary coefficient patterns, every output mode and permitted aliasing, for each degree of a lattice",
 "poly tests multiply one pair of random polynomials at a single degree.",
 ["math/poly/poly_evaluator.go","math/poly/poly_ops.go","math/poly/poly_mul.go","math/poly/asm_fold.go"],
 [("operand splitting before FFT so that rounding is exact","math/poly/poly_mul.go"),("index arithmetic of monomials and automorphisms","math/poly/poly_ops.go")])

prop("C05", "Fourier-domain operations agree with the ring operations",
 "Transforming forward and back is the identity, and every Fourier-domain operation (add, subtract, negate, float/complex scaling, products, monomials, automorphisms and their accumulate and in-place forms) followed by the inverse transform equals the corresponding ring operation, within floating-point accuracy. "
 "The accumulate/subtract inverse and forward transforms add to or subtract from the existing output, and only the variants documented as unsafe may modify their input.",
 ["inputs","configurations"], "all basis monomials and exponents, all odd automorphisms, boundary coefficient patterns, each output mode, each degree of a lattice",
 "Tests check one random FFT product at one degree; the Fourier automorphisms, monomial transforms and sub/add variants at other degrees are not covered.",
 ["math/poly/fft.go","math/poly/fft_ops.go","math/poly/asm_fft.go","math/poly/asm_fft_amd64.s","math/poly/asm_vec_cmplx.go","math/poly/asm_fold.go"],
 [("twisted half-size FFT over float4 layout","math/poly/asm_fft.go"),("twiddle tables","math/poly/poly_evaluator.go")])

prop("C06", "Vector kernels equal the scalar loop for every length, type and overlap",
 "Each vector operation computes exactly its elementwise definition for every length (including empty and those not a multiple of the SIMD width), every supported element type and for outputs that coincide with an input, and writes nothing outside the output slice. "
 "Rotation, reversal, bit reversal, casting and the complex/float4 conversions are the documented permutations.",
 ["inputs","configurations"], "every length 0..N, every slice offset within a SIMD register, every overlap of output with inputs, every element type, every rotation amount",
 "vec tests use one large length and compare against the same library on another path; tails, offsets, in-place use and out-of-bounds writes are not exercised.",
 ["math/vec/asm_vec.go","math/vec/asm_vec_amd64.go","math/vec/asm_vec_amd64.s","math/vec/vec.go"],
 [("AVX2 main loop plus scalar tail","math/vec/asm_vec_amd64.s"),("unrolled Go fallback","math/vec/asm_vec.go")])

prop("C07", "Every build and CPU path computes the same results",
 "The AVX2 assembly, the runtime fallback on CPUs without AVX2/FMA, and the pure-Go build are interchangeable: integer operations, samplers, encodings, serialised bytes and key generation from the same randomness are bit-for-bit identical, and floating-point based operations agree within their rounding error. "
 "A key or ciphertext produced by one build is usable by the others.",
 ["configurations","inputs"], "all pairs of code paths over a common enumerated trace of operations, degrees and operands",
 "Each test run uses a single path and never compares outputs between builds.",
 ["math/poly/asm_fft_amd64.go","math/poly/asm_vec_cmplx_amd64.go","math/poly/asm_fold_amd64.go","math/vec/asm_vec_amd64.go","tfhe/asm_decompose_amd64.go"],
 [("runtime dispatch on cpu features","*_amd64.go"),("build tag purego","*.go build constraints")])

prop("C08", "Programmable bootstrapping evaluates the lookup table on every message",
 "For every parameter set, both bootstrap orders, and every message and function, bootstrapping an encryption of m yields a fresh-noise encryption of f(m) mod the message modulus, whatever the secret key and mask values. "
 "This includes block-binary keys, lookup tables larger than the ring, ranks above one, custom moduli and scales, raw-valued tables, reused lookup tables and outputs, and an output that is the input ciphertext.",
 ["inputs","configurations"], "all messages x all functions on small moduli x all rotation amounts x block/extended/plain variants x both orders x both torus widths, including noise placed at the edge of the decision interval",
 "Tests bootstrap one message per shipped parameter set with one function; variant-specific control flow, the wrap-around messages and rotation amounts 0 and N are hit only by chance.",
 ["tfhe/bootstrap.go","tfhe/bootstrap_lut.go","tfhe/bootstrap_keygen.go"],
 [("modulus switch","tfhe/bootstrap.go ModSwitch"),("blind rotation variants","tfhe/bootstrap.go blindRotate*To"),("table layout with half-interval offset and negacyclic sign","GenLUTCustomFullTo"),("key switch","DefaultKeySwitchTo")])

prop("C09", "Boolean gates follow their truth tables and compose to any depth",
 "AND, NAND, OR, NOR, XOR, XNOR and NOT return the right bit for every pair of encrypted inputs, including outputs of other gates, the same ciphertext used twice, and an output written over an operand. "
 "Bit-vector encryption and decryption round-trip, and gate outputs remain valid inputs at every depth.",
 ["inputs","histories","configurations"], "every circuit up to a depth bound over a small register file with every choice of gate, operands and destination, for several parameter sets",
 "Tests evaluate each gate once on fresh inputs into a fresh output.",
 ["tfhe/binary_evaluator.go","tfhe/binary_encryptor.go","tfhe/binary_encoder.go"],
 [("linear combination then sign bootstrap","tfhe/binary_evaluator.go")])

prop("C10", "Linear operations act exactly on phases",
 "For LWE, GLWE and Fourier GLWE ciphertexts, addition, subtraction, negation, plaintext addition and subtraction, and multiplication by scalars, polynomials, monomials and automorphisms change the decrypted phase by exactly that operation (within floating-point accuracy where Fourier operands are involved). "
 "The allocating, assign, accumulate, subtract and in-place forms agree, including when the output is one of the operands.",
 ["inputs","histories","configurations"], "every operation x operand choice x form x aliasing over a register file, in sequences up to a depth bound, for ranks 1..3",
 "Tests do not cover the linear operations individually; ranks above one and accumulate forms are never decrypted.",
 ["tfhe/lwe_ops.go","tfhe/glwe_ops.go","tfhe/fft_glwe_ops.go"], [("componentwise vector or polynomial operations","tfhe/*_ops.go")])

prop("C11", "Gadget and external products and CMux multiply or select plaintexts",
 "The gadget product of a leveled encryption of a with b decrypts to a*b, the external product of GSW/GGSW of a with LWE/GLWE of b decrypts to a*b, and CMux returns the first or second ciphertext's message for selector 0 or 1, with bounded noise growth. "
 "The assign, accumulate, subtract and pre-decomposed Fourier forms agree, for every rank, base and level and for outputs holding old data or, for products, overlapping the input.",
 ["inputs","histories","configurations"], "every small message pair and monomial x form x gadget shape x rank x output contents",
 "Tests check one external product and one CMux on the default parameters.",
 ["tfhe/product.go"], [("decompose, transform, accumulate per level and row","tfhe product files")])

prop("C12", "Key switching and sample extraction preserve the message",
 "Switching an LWE or GLWE ciphertext from one key to another preserves its phase up to bounded noise, for every input and output dimension, rank and gadget, including the default bootstrap key switch. "
 "Extracting coefficient i of a GLWE ciphertext gives an LWE ciphertext of exactly that coefficient of the phase under the flattened key, for every i.",
 ["inputs","configurations"], "every coefficient index x rank x degree; every message; a lattice of input/output dimensions and gadgets",
 "Tests extract index 0 only through bootstrapping and switch between one pair of keys.",
 ["tfhe/keyswitch.go","tfhe/keyswitch_key.go","tfhe/glwe.go","tfhe/keyswitch_keygen.go"],
 [("levelled inner product","tfhe/keyswitch.go"),("reversed negated coefficient order","AsLWECiphertextTo")])

prop("C13", "Results do not depend on call history, and inputs are never modified",
 "Every evaluator, encoder, decomposer and decryption operation returns the same bits whatever operations were performed before on the same object and whatever its output argument previously contained. "
 "No operation modifies its ciphertext, plaintext, key or lookup-table arguments (other than its declared output), nor any value returned earlier.",
 ["histories"], "all ordered pairs (and, over a reduced alphabet, triples) of operations on one object, followed by comparison with the same operation on a fresh object",
 "Unit tests call each operation once on a fresh object, so stale internal buffers and writes to inputs are invisible.",
 ["tfhe/evaluator.go","tfhe/decomposer.go","tfhe/glwe_enc.go","mktfhe/evaluator.go","math/poly/poly_evaluator.go","xtfhe/bfv_evaluator.go"],
 [("scratch buffers owned by each object","evaluatorBuffer and similar structs")],
 state=[("scratch buffers","intermediate values left by the previous call","tfhe/evaluator.go evaluatorBuffer, encryptorBuffer, poly evaluator buffers")])

prop("C14", "Objects obtained by SafeCopy can be used concurrently with the original",
 "For every type offering SafeCopy, any interleaving of operations on the original and on its copies gives each caller the result it would get alone, without data races. "
 "A safe copy has the same keys and parameters and gives the same results as the original.",
 ["schedules"], "all interleavings with a bounded number of preemptions, at every library function boundary, of every pair of operations run by two threads on an object and its safe copy",
 "The tests use SafeCopy only inside parallel key generation and never interleave two users of one object family.",
 ["tfhe/evaluator.go","tfhe/lwe_enc.go","tfhe/decomposer.go","math/poly/poly_evaluator.go","mktfhe/evaluator.go","mktfhe/decryptor.go","xtfhe/bfv_evaluator.go","xtfhe/manylut_evaluator.go","xtfhe/sanitization.go"],
 [("fresh scratch buffers and samplers per copy","SafeCopy methods")])

prop("C15", "Parallel key generation is correct and terminates under every schedule",
 "For every worker count and every scheduling of its workers, parallel generation of bootstrap, key-switching and evaluation keys terminates, leaves no worker running, and fills every entry exactly as the serial generator would, so that the keys decrypt entry by entry to the right key-dependent plaintexts. "
 "This holds for the single-key, multi-key and FHEW generators.",
 ["schedules","configurations"], "all schedules of the producer and workers up to a preemption bound, for several key sizes and worker counts",
 "Tests run the parallel generators once under whatever schedule the runtime picks, and check only that a bootstrap with the key happens to work.",
 ["tfhe/bootstrap_keygen.go","mktfhe/bootstrap_keygen.go","xtfhe/fhew_bootstrap_keygen.go"],
 [("job channel, per-worker encryptor copies, wait group","Gen*Parallel")])

prop("C16", "Serialisation round-trips every object and reports exact sizes",
 "For every serialisable type and parameter shape, writing produces exactly the advertised number of bytes and reading them back, into a zero value or any existing object, restores an equal object and consumes exactly those bytes, so that objects can be concatenated in one stream. "
 "The byte format is the same through the stream and the marshal entry points, and a restored key or ciphertext is functionally equivalent.",
 ["inputs","configurations","histories"], "every type x shape lattice x receiver state x entry point x concatenation order",
 "Tests round-trip a few types at the shipped parameters into fresh receivers.",
 ["tfhe/*_marshal.go","mktfhe/*_marshal.go","tfhe/params.go","mktfhe/params.go"],
 [("length headers then big-endian words","*_marshal.go"),("receiver reallocation","headerReadFrom")])

prop("C17", "Serialisation is safe under short, split and failing I/O",
 "Reading succeeds with the same result for every way the stream is split into reads, and for every truncation point returns an error (never success, never a panic) with the number of bytes actually consumed. "
 "Writing to a destination that fails or stops after any number of bytes returns an error and the number of bytes accepted; no failure is silent.",
 ["fault_sequences"], "every truncation offset, every failing write offset, every chunk size of the stream, for every serialisable type",
 "Tests use in-memory buffers that never fail or split.",
 ["tfhe/*_marshal.go","mktfhe/*_marshal.go"], [("io.ReadFull and byte counting","*_marshal.go")])

prop("C18", "Copies are deep and independent, and Clear clears everything",
 "Copy and CopyFrom give an object equal to the source in every field, including metadata such as gadget parameters, and sharing no memory with it: changing either afterwards leaves the other unchanged. "
 "Clear zeroes every value of the object and nothing else.",
 ["histories","configurations"], "every type x every element mutated on either side x shapes",
 "No test mutates a copy and looks at the original.",
 ["tfhe/lwe.go","tfhe/glwe.go","tfhe/fft_glwe.go","tfhe/keyswitch_key.go","tfhe/bootstrap_key.go","tfhe/encryptor_key.go","mktfhe/*.go"],
 [("per-element copy","Copy, CopyFrom, Clear methods")])

prop("C19", "The views of a secret key always describe one and the same key",
 "In every secret key, generated, copied, copied into, deserialised or converted, the LWE key is the prefix of the flattened GLWE key, the flattened key is the GLWE key's coefficients in order, and the Fourier key is the transform of the GLWE key. "
 "Keys are binary, and under a block size B every block of B LWE coefficients has at most one non-zero.",
 ["histories","configurations","inputs"], "every sequence of generate/copy/copy-from/encode/decode/clear up to a depth bound x parameter shapes",
 "Tests use generated keys only.",
 ["tfhe/encryptor_key.go","tfhe/encryptor_key_marshal.go","tfhe/encryptor.go"], [("shared backing array between views","NewSecretKeyCustom, CopyFrom, ReadFrom"),("block binary sampling","csprng SampleBlockVecTo")])

prop("C20", "Public-key encryption decrypts to the message on every use",
 "For every parameter set that allows it, every encryption made with the public key, whether first or later, into a fresh or a reused output, in LWE, GLWE or Fourier form and through messages or plaintexts, decrypts under the secret key to the message. "
 "The same holds for the binary and multi-key public encryptors, and the public key is not changed by use.",
 ["inputs","histories","configurations"], "all sequences of encryption calls up to a depth bound x output contents x messages x ranks",
 "Tests encrypt once with a fresh public encryptor into fresh outputs.",
 ["tfhe/encryptor_public.go","tfhe/lwe_enc_public.go","tfhe/glwe_enc_public.go","tfhe/fft_glwe_enc_public.go","tfhe/binary_encryptor_public.go","mktfhe/encryptor_public.go"],
 [("random short combination of key rows","PublicEncryptor.Encrypt*Body")])

prop("C21", "Multi-key encryption decrypts for every party and party subset",
 "For every party index below the party count, a ciphertext encrypted by that party decrypts to its message with any set of keys containing that party's, whatever order or subset keys are supplied in, in LWE, GLWE, Fourier and uni-encryption formats. "
 "Linear operations between ciphertexts of different parties act on the joint phase, and only the encrypting party's mask is non-zero.",
 ["inputs","histories","configurations"], "all party indices x all key subsets and arrival orders x messages x formats x linear operations",
 "Tests give all keys for all parties at once in order.",
 ["mktfhe/encryptor.go","mktfhe/decryptor.go","mktfhe/lwe_ops.go","mktfhe/glwe_ops.go","mktfhe/lwe.go","mktfhe/glwe.go"],
 [("embedding a single-key ciphertext at a party slot","CopyFromSubKey"),("per-party decryptors","mktfhe/decryptor.go")])

prop("C22", "Multi-key external and hybrid products multiply across parties",
 "The external and hybrid products of a party's encryption of a with a multi-key ciphertext of b decrypt to a*b, for every party, every set of registered evaluation keys containing the involved parties, and in the assign, accumulate and subtract forms. "
 "Outputs may hold old data and keys may be registered in any order.",
 ["inputs","histories","configurations"], "all parties x messages x forms x key-registration orders x subsets",
 "Tests evaluate one hybrid and one external product with all keys present.",
 ["mktfhe/product.go","mktfhe/evaluator.go","mktfhe/encryptor.go"], [("relinearisation with common reference string","mktfhe/product.go")])

prop("C23", "Multi-key bootstrapping and gates are right; parallel equals serial",
 "Bootstrapping and Boolean gates over ciphertexts of any mix of parties return f of the joint message and the right bit, for every message, function, party mix and both bootstrap orders, with only the involved parties' keys registered. "
 "The parallel variants return the same result as the serial ones under every schedule and terminate.",
 ["inputs","schedules","configurations"], "all gate inputs x party pairs x registered-key subsets; all worker schedules up to a preemption bound",
 "Tests run each gate once with all parties, under one schedule.",
 ["mktfhe/bootstrap.go","mktfhe/binary_evaluator.go"],
 [("per-party accumulators joined by hybrid products","mktfhe/bootstrap.go")])

prop("C24", "BFV multiplication, automorphism and packing act on the plaintext polynomials",
 "Tensoring and relinearising, or multiplying directly, two GLWE ciphertexts decrypts to the product of their plaintext polynomials, an automorphism with its Galois key decrypts to m(X^d), and packing an LWE ciphertext gives a GLWE ciphertext whose constant coefficient is the message and whose other coefficients are zero. "
 "Results do not depend on previous calls and hold for every rank and permitted output overlap.",
 ["inputs","histories","configurations"], "all small message polynomials and monomials x automorphisms x ranks x call order and aliasing",
 "Tests multiply two constants, apply one automorphism and pack one message at rank one.",
 ["xtfhe/bfv_evaluator.go","xtfhe/bfv_keygen.go"], [("tensor, relinearise, Galois key switch","xtfhe/bfv_evaluator.go")])

prop("C25", "Many-LUT bootstrapping evaluates every table on every message",
 "One many-LUT bootstrap of an encryption of m returns, for each of the configured number of functions, an encryption of that function of m, for every message, number of functions up to the limit, block size and bootstrap order. "
 "Unused slots decrypt to zero, reused outputs and tables do not matter, and exceeding the function count panics.",
 ["inputs","configurations"], "all messages x function tuples x table counts x variants, at noise-interval edges",
 "Tests evaluate one message with four functions on one parameter set.",
 ["xtfhe/manylut_bootstrap.go","xtfhe/manylut_evaluator.go","xtfhe/manylut_params.go"], [("coarser modulus switch leaves room for interleaved tables","ModSwitch, GenLUTCustomFullTo")])

prop("C26", "Circuit bootstrapping yields a GGSW encryption of the input bit",
 "Circuit bootstrapping an LWE encryption of m returns a Fourier GGSW ciphertext whose every row and level encrypts m times the corresponding gadget factor and key component, so that it multiplies or selects any GLWE ciphertext by m. "
 "This holds for each bootstrap order, number of simultaneous tables and output gadget, and on repeated use of the same object.",
 ["inputs","configurations","histories"], "all messages x output levels x table counts x orders x ranks x repeated use",
 "Tests check one parameter set through one external product.",
 ["xtfhe/circuit_bootstrap.go","xtfhe/circuit_bootstrap_key.go"], [("many-LUT bootstrap, trace, scheme switch","CircuitBootstrapTo")])

prop("C27", "FHEW blind rotation with Gaussian keys evaluates the table on every message",
 "Bootstrapping with the automorphism-based method decrypts to f(m) for every message, function, window size, ring degree and bootstrap order, whatever the key's small integer entries and whichever rotation indices the mask uses. "
 "Serial and parallel evaluation keys are interchangeable, and results do not depend on previous calls.",
 ["inputs","configurations"], "all messages x functions x windows x mask values covering every automorphism index (including the special ones of 1, -1 and empty buckets)",
 "Tests bootstrap two messages with random masks at the default window.",
 ["xtfhe/fhew_bootstrap.go","xtfhe/fhew_bootstrap_keygen.go","xtfhe/fhew_evaluator.go","xtfhe/fhew_enc.go"], [("index map of powers of five and skip counting","BlindRotateTo")])

prop("C28", "Sanitising a ciphertext preserves its meaning and replaces its randomness",
 "Sanitising or re-randomising a ciphertext keeps the decrypted message (after applying the function), for every message, function and repeated use, and the input ciphertext is not changed. "
 "Two sanitisations of the same ciphertext differ, and the discrete Gaussian sampler stays within its tail bound around its centre.",
 ["inputs","histories"], "all messages x functions x call sequences; every sampler quantile boundary",
 "Tests sanitise two messages once.",
 ["xtfhe/sanitization.go","xtfhe/sanitization_sampler.go"], [("public-key rerandomisation, bootstrap, Gaussian linear evaluation","SanitizeLUTTo")])

prop("C29", "Samplers stay in their distribution's support and are reproducible from a seed",
 "Uniform, bounded, binary, block-binary and Gaussian samplers only return values of their declared support, add or subtract exactly the value they sampled, and are a function of the seed alone: the stream does not depend on how requests are split into scalar, vector and polynomial calls. "
 "Unseeded samplers draw their seed from the system generator, and distinct samplers and safe copies do not repeat each other's output.",
 ["inputs","histories","configurations"], "all request-splitting histories up to a bound around the internal buffer boundary, all block sizes and lengths, all seeds of a set",
 "csprng has one statistical test of mean and deviation.",
 ["math/csprng/uniform_sampler.go","math/csprng/binary_sampler.go","math/csprng/gaussian_sampler.go"], [("AES-CTR stream buffer","math/csprng/uniform_sampler.go"),("rejection sampling","SampleN")])

prop("C30", "Integer helpers equal their mathematical definitions",
 "Rounded division, bit division, integer square root, logarithm, modular exponentiation and inverse, and the minimum, maximum, absolute value and size helpers return the mathematically exact result for every argument of every integer type in their documented domain. "
 "Outside that domain they panic rather than return a wrong value where so documented.",
 ["inputs"], "all values (pairs, triples) of the 8-bit types and boundary lattices of the wider types",
 "num tests try a handful of values of one or two types.",
 ["math/num/num.go"], [("direct formulas","math/num")])

prop("C31", "Parameters are validated and survive conversion, and the shipped sets work",
 "Compiling a parameter literal either panics, when a documented constraint is violated, or gives parameters whose derived quantities are mutually consistent and from which every key and evaluator can be built. "
 "Literal and compile are inverse to each other, setters change only their own field, and every shipped parameter set of the single-key, multi-key and extension packages compiles to a set whose predicted failure probability is negligible.",
 ["configurations"], "a lattice of literals around every constraint boundary, and every shipped set",
 "Tests compile the few sets they use.",
 ["tfhe/params.go","tfhe/params_list.go","mktfhe/params.go","mktfhe/params_list.go","xtfhe/*_params.go","xtfhe/*_params_list.go"],
 [("switch of constraint checks","Compile")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
