TB = " Trusted: the VC generator gvc, go/ssa, z3/cvc5, Lean; partial correctness; parameters non-nil."

prop('C01', 'Word-size modular operations return the exact residue',
 "For every modulus q with 1 < q <= 2^63 (odd where the operation is of the Montgomery kind) and all word operands within the operation's input bound, each scalar modular operation (Barrett and Montgomery products, reductions, conversions into and out of the Montgomery domain) returns a value congruent modulo q to the exact mathematical result. The reducing variants return it in [0, q), the lazy 'constant' variants in [0, 2q) (at most q for the lazy conversion out of the Montgomery domain), and the conditional subtraction returns a, or a - q when a >= q.",
 ['inputs'], "all 64-bit operands and all moduli up to 63 bits, with the precomputed constants of that modulus",
 "The tests sample a few hundred operands for a handful of primes; the correction steps and carry chains only misbehave for rare operand/modulus combinations.",
 ['ring/modular_reduction.go'],
 [('Barrett and Montgomery reductions', 'ring/modular_reduction.go')],
 level_note="All 11 scalar operations proved for every 64-bit operand and modulus; the Barrett quotient lemma is proved in Lean. A bounded driver (math/big oracle) searches failing inputs." + TB)

prop('C02', 'Precomputed reduction constants and powers are exact',
 "For every modulus q > 1 the Barrett constant is exactly floor(2^128/q) as two words, and for every odd q the Montgomery constant is exactly q^-1 mod 2^64. Multiplication by a power of two in the Montgomery domain returns the reduced residue of x*2^n*2^-64 for every 0 <= n <= 64.",
 ['inputs', 'configurations'], "all moduli, all exponents and bases",
 "Tests use a few NTT primes; a constant that is off by one for some modulus only shows as rare wrong products.",
 ['ring/modular_reduction.go', 'ring/utils.go'],
 [('MRedParams doubling loop', 'ring/modular_reduction.go'), ('BRedParams big-int quotient', 'ring/modular_reduction.go'), ('PowerOf2', 'ring/utils.go')],
 level_note="Proved for all inputs; the inductive argument of the inversion loop is a Lean lemma." + TB)

prop('C03', 'Vector kernels: every lane exact, nothing else written, in-place safe',
 "For every operand length that is a multiple of eight, each of the 35 vector kernels sets every lane k of its output to the operation's modular result on lane k of the original inputs, in the operation's stated range (reduced, lazy in [0, 2q), or unreduced sum). It writes no other memory, including lanes of the output beyond the first operand's length. This holds also when operands share the same slice (in-place use).",
 ['inputs'], "all lane values within the kernel's input bound, all lengths divisible by 8, all aliasings of whole operands",
 "The kernels are manually unrolled with unsafe 8-lane blocks: an error in one lane, one block offset or one aliasing is invisible to tests that use few lengths and distinct operands; many kernels have no direct test.",
 ['ring/ring_vector_ops.go', 'ring/modular_reduction.go'],
 [('8-lane unrolled loops over unsafe pointers', 'ring/ring_vector_ops.go')],
 level_note="All 35 kernels proved lane-exact with frame for every length and every aliasing configuration of the operands (5 per three-operand kernel)." + TB)

prop('C04', 'Level-wise polynomial operations are exact and change only the addressed rows',
 "For every ring, level, and scalar (for the addition and subtraction of a word-size scalar: one below the moduli), the ring's coefficient-wise operations (addition, subtraction, negation, reduction, coefficient products in plain and Montgomery form with and without accumulation or subtraction, scalar and big-integer scalar operations, multiplication by a power of two, conversions to and from Montgomery form, circular shift, multiplication by a vector) set, for each modulus of index up to the level, each of the N output coefficients to the operation's result modulo that modulus on the original inputs, in the documented range. They change nothing else: rows above the level, the input polynomials (unless the output is the same polynomial) and the scalar keep their values. The variants without a level use the highest level common to the operands. This holds in place. Multiplication by a monomial X^d (d >= 0) and bit-reversal place every coefficient, with its sign, at the mathematically right position, also in place.",
 ['inputs', 'configurations'], "all coefficient values within the operation's bound, all degrees divisible by 8, all numbers of moduli, levels, scalars, and operands identical or disjoint",
 "Tests run a few operations at the full level with distinct operands; a wrong row, a missed reduction or a result written to the wrong polynomial at a lower level or in place is not exercised, and several operations have no test at all.",
 ['ring/ring_operations.go', 'ring/ring_vector_ops.go', 'ring/modular_reduction.go', 'utils/utils.go'],
 [('level-wise row loops', 'ring/ring_operations.go'), ('rotation helper', 'utils/utils.go RotateUint64Slice')],
 level_note="Proved for the 63 coefficient-wise, scalar, shift and vector operations, each under every aliasing of its operands; multiplication by a monomial and bit-reversal are checked by the bounded driver only (rings of degree 16..64)." + TB)

prop('C05', 'Number theoretic transforms are the evaluation map and exactly invertible',
 "For every ring of power-of-two degree N >= 16, standard (X^N+1) or conjugate-invariant, and every set of NTT-friendly primes up to 61 bits, the forward transform puts into slot i of each row the value of the polynomial at the (2*bitreverse(i)+1)-th power of the ring's primitive root modulo that prime, reduced to [0, q); the inverse transform is its exact inverse, also reduced. The lazy variants give congruent values: the inverse one below 2q, the forward one without ever overflowing a 64-bit word. Multiplying slots (Montgomery) and transforming back gives the exact product in the ring. This holds for all reduced inputs, in place or not; only the rows of the ring, up to the given level or of the given index, change. Mapping a small-degree polynomial into a larger ring in the NTT domain gives the transform of p(X^gap).",
 ['inputs', 'configurations'], "all degrees, primes, coefficient values, levels",
 "The tests transform random polynomials in a few rings; the lazy layers overflow only for the largest primes, degrees and unlucky coefficients.",
 ['ring/ring_ntt.go', 'ring/ring_ntt_interface.go', 'ring/modular_reduction.go', 'ring/ring.go'],
 [('lazy butterfly layers', 'ring/ring_ntt.go'), ('per-ring dispatch', 'ring/ring_ntt_interface.go'), ('roots of unity', 'ring/ring.go genNTTParams')],
 level_note="The forward and inverse butterflies are proved for every modulus below 2^61 and operand (values congruent, ranges closed under iteration, no overflow); that the loops apply them to the right elements with the right roots, and the whole transform, by the bounded driver (evaluation oracle)." + TB)

prop('C06', 'Galois automorphisms place every coefficient and slot exactly',
 "For every odd Galois element g (any 64-bit value) and every power-of-two degree N, the automorphism X -> X^g applied in the coefficient domain puts, for every modulus, coefficient i at index i*g mod N, negated exactly when i*g mod 2N >= N. In the NTT domain the index table maps slot i to the slot whose evaluation point is the g-th power of that of slot i; it has N entries, all in range, and is a permutation for the standard ring. Applying a table reads slot index[k] into slot k (the accumulating variant adds it modulo 2^64) for the rows up to the level, and leaves the rows above the level, the input and the table unchanged. Both domains agree: permuting after the NTT equals the NTT after permuting. The generated Galois powers, the rotation, row-rotation and inner-sum elements and the inverse elements are the exact powers of the generator (or the inverse) modulo the ring's root order, for every rotation amount of either sign. Rotating by n multiplies coefficient j by the (2nj)-th power of the 2N-th root. Unfolding a conjugate-invariant polynomial mirrors its N coefficients, and folding adds slot k and its conjugate slot modulo each modulus.",
 ['inputs', 'configurations'], "all odd Galois elements, rotation amounts, degrees, levels and coefficient values",
 "The tests use a few Galois elements at the full level; a wrong sign, carry of i*g beyond the mask, table bit, or level only corrupts some slots of some rotations.",
 ['ring/ring_automorphism.go', 'ring/conjugate_invariant.go', 'ring/ring_operations.go', 'rlwe/params.go', 'utils/utils.go'],
 [('index table by bit reversal', 'ring/ring_automorphism.go PermuteNTTIndex'), ('sign-selecting permutation', 'ring/ring_automorphism.go Permute'), ('Galois elements', 'rlwe/params.go')],
 level_note="Permute (with the injectivity of i -> i*g proved in Lean), the index table formula, its range, the four NTT-domain permutations, Galois powers, unfold and fold are proved for every input. That the table's formula is the permutation induced by the NTT's slot order, Rotate and the rlwe Galois elements are checked by the bounded driver." + TB)

prop('C07', 'Encodings decode to an equal object, on any receiver, with the exact layout',
 "For every ring, polynomial, QP polynomial (either side may be absent), secret, public, switching and relinearization key, rotation key set, rlwe and ckks ciphertext and rlwe, ckks and ring parameter set: the encoding has exactly the announced length, and decoding it gives an object equal to the original (all coefficients, shape, NTT and Montgomery flags, scale, parameters), also when the receiver, or the buffer encoded into, held another object before; the decoded object shares no memory with the bytes. Coefficients are stored row by row as 8-byte (4-byte in the 32-bit form, for coefficients below 2^32) big-endian words after the header, exactly at the documented positions. Words and slices written to a utils.Buffer are read back in order. JSON encodings of parameters with nonzero H and Sigma round-trip. An encoding cut short is rejected (error or panic), never decoded to a different object, rotation key sets excepted.",
 ['inputs', 'histories'], "all shapes, coefficient values, flags, receivers and buffers holding earlier data",
 "The tests decode into fresh receivers only, with moduli of ordinary size; stale flags or rows, particular high bytes or bits, and truncated inputs do not occur.",
 ['ring/ring_poly.go', 'ring/ring.go', 'utils/buffer.go', 'rlwe/ring_qp.go', 'rlwe/marshaler.go', 'rlwe/params.go', 'ckks/marshaler.go', 'ckks/params.go'],
 [('coefficient rows to bytes', 'ring/ring_poly.go'), ('byte buffers', 'utils/buffer.go'), ('keys and parameters', 'rlwe/marshaler.go, rlwe/params.go')],
 level_note="The buffer reads and writes, the coefficient layouts in both widths, the encoding and decoding of polynomials, of QP polynomials and secret keys, and the encoding of rlwe parameters are proved for every input; the other keys, ciphertexts, ckks parameters, JSON and truncation by the bounded driver." + TB)

prop('C08', 'Division by the last moduli and scaling by t/Q round exactly',
 "For every ring with at least two moduli, every level and every number of steps, dividing a polynomial by its last modulus gives, modulo each remaining modulus and in reduced form, exactly floor(x/q) (floored variants) or floor((x + (q-1)/2)/q) (rounded variants) of each coefficient x in [0, Q); the variants for several steps apply it once per dropped modulus; the NTT variants give the NTT of the same result. This holds for moduli of any mixture of sizes, also in place. Rows above the level are left alone, and so is the input, except that the rounded coefficient-domain variants use it as scratch space. Zero steps copy the rows up to the level. Scaling by t/Q returns round(t*x/Q) mod t (the RNS variant for a prime t and values not within 2^-40 of a half-integer, relatively).",
 ['inputs', 'configurations'], "all coefficient values, moduli, levels and step counts",
 "The tests divide random coefficients of one size of moduli; exact multiples, half multiples, coefficients near 0 and moduli of very different sizes, where a lazy reduction or a missed full reduction shows, never occur.",
 ['ring/ring_scaling.go', 'ring/ring_vector_ops.go', 'ring/ring.go'],
 [('rescaling by the last modulus', 'ring/ring_scaling.go'), ('rescaling constants', 'ring/ring.go genNTTParams')],
 level_note="DivFloorByLastModulusLvl proved exact for every input (over its vector kernel's contract and a Lean lemma), DivRoundByLastModulusLvl proved canonical with its centring and frame; exact rounding, the NTT and multi-step variants and the scalers by the bounded driver." + TB)

prop('C10', 'Keys agree across moduli and key switching is exact up to its small noise',
 "Generated secret keys hold one small polynomial (ternary of the requested weight, or Gaussian bounded by 6 sigma rounded up) with the same integer coefficients modulo every Q and P modulus. In public keys b + a*s is one such small error. In switching keys, for skIn and skOut of the same or different degree and number of moduli, digit i satisfies b_i + a_i*skOut = e_i + g_i*P*skIn with one and the same small error e_i modulo every modulus, where g_i is 1 modulo the moduli of block i and 0 modulo the others; likewise relinearization keys for the powers of s, rotation keys for the Galois image of s (any rotation amount) and ring-swap keys. Switching cx, in either domain, at any level, directly or from precomputed digits, gives (p0, p1) with p0 + p1*skOut = cx*skIn + noise, where noise is within the worst-case bound of the decomposition; cx and the key are not modified. The sum over precomputed digits is exact modulo every Q and P modulus and below it, however many digits: the lazy accumulators never overflow, since m = Qi/PiOverflowMargin terms of the largest modulus fit in 64 bits (m*q <= 2^64 + 2^13 for every modulus q up to the level). The fast variant's keys and switching satisfy the same relation.",
 ['inputs', 'configurations'], "all parameter sets, levels, domains, digit counts, keys and polynomials",
 "Tests run one parameter set with equally sized moduli and few digits and look at the noise's standard deviation; overflow of an accumulator needs many digits and the largest moduli, and a wrong row in a key only shows at some level or degree.",
 ['rlwe/keyswitch.go', 'rlwe/keygen.go', 'rlwe/params.go', 'rlwe/ring_qp.go', 'ring/ring_vector_ops.go', 'frlwe/keyswitch.go', 'frlwe/keygen.go'],
 [('lazy accumulation with overflow margins', 'rlwe/keyswitch.go'), ('gadget rows of switching keys', 'rlwe/keygen.go genSwitchingKey'), ('overflow margins', 'rlwe/params.go QiOverflowMargin, PiOverflowMargin')],
 level_note="Proved for every input: both overflow margins, and the exact sums, ranges and frames of the two-sided accumulation steps (values below 2q, lazy sums below 2^64). The key relations, the accumulation loop as a whole and the noise bound of switching are checked by the bounded driver only (degree 16..64, up to 16 moduli)." + TB)

prop('C11', 'Slice and bit utilities return exactly the defined value on every input',
 "For every input, including empty slices, slices of different lengths and rotation amounts of any sign and size: the slice equality tests are true exactly when the lengths and all elements agree; the membership tests are true exactly when the element occurs; the distinctness test is true exactly when no value occurs twice; minimum and maximum of two values and the maximum of a slice of words are exact (0 for an empty slice). A rotation by k returns a new slice, sharing no memory with its input, whose element i is element (i+k) mod n of the input; rotating the slots does the same in each half; the input is not modified. Bit reversal maps a word below 2^n to the word whose n bits are in reversed order, for 1 <= n <= 64, and the Hamming weight is the number of one bits.",
 ['inputs'], "all slices, rotation amounts and words",
 "The utilities have few direct tests and are used with benign arguments; wrong corner cases (different lengths, negative rotations, aliasing of the result, particular bit patterns) only show through rare misbehaviour of the callers.",
 ['utils/utils.go'],
 [('slice equality and membership loops', 'utils/utils.go'), ('rotations by copy and append', 'utils/utils.go')],
 level_note="Equality, membership, min/max and typed rotations proved for every input; bit reversal, Hamming weight, distinctness and the interface-typed rotation are checked by the bounded driver only." + TB)

prop('C12', 'Prime generation and parameter validation accept exactly the usable moduli',
 "NextNTTPrime and PreviousNTTPrime return the nearest prime above, or below, q congruent to q modulo the root order, or an error when there is none of at most 61 bits, or above zero. The generated prime lists hold distinct primes congruent to 1 modulo the root order, in order of distance from 2^logQ alternating upwards and downwards (61-bit primes only downwards), skipping none. A moduli chain generated from sizes has primes of those sizes, all distinct. CheckModuli accepts exactly chains of at most 100 + 100 primes below 2^61; the size checks accept exactly degrees 2^4..2^17, and at most 100 moduli, with Q sizes 1..60 and P sizes 1..61 bits. NewParameters rejects, with empty parameters, every chain with a modulus that is composite, too large, repeated or not 1 modulo the root order, an empty Q and an invalid ring type, and accepts every other. The accessors return exactly the values the parameters were built from (fresh copies of the moduli; Beta is the number of digits, rounded up); overflow margins m satisfy m*max <= 2^64 + 2^13 and (m+1)*max > 2^64 - 2^13; Galois elements are the exact powers of 5, of either sign, modulo the root order. Equality is exact and copies are equal and independent.",
 ['inputs', 'configurations'], "all sizes, root orders, moduli chains and ring types",
 "Tests use a handful of fixed literals; wrong acceptance at the size boundaries, or a skipped prime, silently gives rings in which the lazy arithmetic overflows.",
 ['ring/primes.go', 'rlwe/params.go', 'ring/ring.go'],
 [('prime search loops', 'ring/primes.go'), ('validation', 'rlwe/params.go CheckModuli, checkSizeParams, checkModuliLogSize'), ('NTT friendliness', 'ring/ring.go genNTTParams')],
 level_note="NextNTTPrime, PreviousNTTPrime, CheckModuli, the two size checks, ten accessors and both overflow margins are proved for every input (primality itself is math/big's). The prime lists, moduli chains, NewParameters, equality and Galois elements by the bounded driver." + TB)

prop('C13', 'RingQP operations act exactly on both parts, each at its own level',
 "For every QP ring (either side may be absent), every pair of levels and all operands (in place or not), each operation on QP polynomials (addition with and without reduction, subtraction, the six Montgomery coefficient products, conversions to and from Montgomery form, the NTT and its inverse, index permutation with and without accumulation, copy up to levels) sets every coefficient of the Q rows up to levelQ and of the P rows up to levelP to the operation's exact result modulo its own modulus and in the documented range, skips an absent side, and leaves rows above each level and the inputs unchanged. New QP polynomials have exactly levelQ+1 and levelP+1 zero rows (or the rings' full shape) in fresh memory. The centred extension of a polynomial with coefficients of absolute value below half of every modulus writes into each P row up to the level the residue of the signed value, and copies the Q part when another output is given.",
 ['inputs', 'configurations'], "all levels on both sides, operand values and operands identical or disjoint",
 "Tests run the QP operations only through full key generation at the top levels; a level mix-up between Q and P, or a wrong sign at the centre, passes unnoticed.",
 ['rlwe/ring_qp.go', 'ring/ring_operations.go', 'ring/ring_automorphism.go'],
 [('two-sided dispatch', 'rlwe/ring_qp.go'), ('centred extension', 'rlwe/ring_qp.go ExtendBasisSmallNormAndCenter')],
 level_note="17 operations proved for every input over the contracts of the ring operations; the three NTT dispatchers (interface calls) by the bounded driver." + TB)

prop('C14', 'Samplers stay in range, agree across moduli and are determined by the key',
 "For every ring, level and generator output: uniform sampling writes into each row up to the level values below that row's modulus, independently per row and over the whole range; ternary samplers write one of 0, 1, -1 per coefficient (multiplied by 2^64 when Montgomery is set), the same in every row, with zeros occurring with the given probability and both signs equally often, and a weight sampler writes exactly the given number of non-zero coefficients; Gaussian samplers write integers of absolute value at most the bound, the same integer in every row (q may stand for -0), of about the given deviation and either sign equally often, and the adding form changes a reduced polynomial by such an integer and leaves it reduced. Rows above the level are untouched. Two samplers built from generators with the same key read the same polynomials. The keyed generator counts its reads; advancing it to n gives the same stream and count as n reads, and asking for a past state returns an error and changes nothing.",
 ['inputs', 'configurations', 'histories'], "all generator outputs (including words equal to the modulus), rings, levels and sampler parameters",
 "Tests look at one sampled polynomial; a residue equal to q, a sign lost in one row of a chain, or one coefficient too few appears for rare generator outputs or mixed moduli only.",
 ['ring/ring_sampler_uniform.go', 'ring/ring_sampler_ternary.go', 'ring/ring_sampler_gaussian.go', 'utils/prng.go'],
 [('rejection sampling', 'ring/ring_sampler_uniform.go'), ('residues per modulus', 'ring/ring_sampler_ternary.go initializeMatrix, ring/ring_sampler_gaussian.go readLvl'), ('generator state', 'utils/prng.go')],
 level_note="Proved for every generator output and input: both uniform reads, RandUniform, the Gaussian core (range and agreement of all rows), the adding form's reducedness, the ternary value tables and the generator's counter. Ternary row agreement and weight, distributions and determinism by the bounded driver." + TB)

prop('C15', 'Copies are exact and independent, and equality is exact',
 "New polynomials have the requested shape, hold only zeros and share no memory between rows. For every polynomial, QP polynomial (with or without a Q or P part), secret, public, switching and relinearization key, ciphertext and plaintext: a deep copy equals the original in shape, coefficients and flags and shares no memory with it, so a later change of one is never visible in the other. Copying into an existing polynomial writes exactly the coefficients of the rows and lengths common to both (up to the given level), leaves every other coefficient and the source unchanged, and transfers the NTT and Montgomery flags only where documented. Equality of polynomials, QP polynomials and keys (including rotation key sets) is true exactly when shapes and all coefficients agree, and is symmetric; equality in a ring is true exactly when all coefficients agree modulo each modulus up to the level.",
 ['inputs', 'histories'], "all shapes, levels and coefficient values, also when source and destination are the same object",
 "Tests compare a copy right after making it and never change either side afterwards; shared rows, a level too few or a missed part only show in later, unrelated operations.",
 ['ring/ring_poly.go', 'ring/ring.go', 'rlwe/ring_qp.go', 'rlwe/keys.go', 'rlwe/elements.go'],
 [('allocation and row copies', 'ring/ring_poly.go'), ('deep copies of keys and ciphertexts', 'rlwe/keys.go, rlwe/elements.go')],
 level_note="Polynomial allocation, copies and equality, and the copies and equality of QP polynomials, secret, public and switching keys and ciphertexts are proved, with freshness of every row; relinearization keys and rotation key sets (maps) by the bounded driver." + TB)

prop('C16', 'Encryption adds the message plus fresh small noise; decryption is exact',
 "For every parameter set, level and representation (NTT or not) of the plaintext and of the ciphertext: encrypting under the secret or public key gives a ciphertext with reduced coefficients, at the level of the plaintext or the ciphertext (whichever is lower), whose phase (the sum of part i times s^i) is the plaintext's polynomial plus one small error, the same integer modulo every modulus, within the worst case given by the parameters' noise bound and weight; encrypting twice gives different ciphertexts; the plaintext is left unchanged. Decryption returns exactly the phase, reduced modulo every modulus of the level, in the plaintext's representation, for ciphertexts of every degree, level and key, and leaves the ciphertext and key unchanged; decrypting through the ckks and fckks wrappers also gives the ciphertext's scale, and the fckks message for the ciphertext it is given, whatever was decrypted before.",
 ['inputs', 'configurations', 'histories'], "all parameter sets, keys, levels, degrees, representations and sequences of calls",
 "Tests encrypt at the top level and decrypt ciphertexts of degree one and two right away; an overflow of the lazy sum needs a high degree and large moduli, and state left in a decryptor or encryptor only shows in later calls.",
 ['rlwe/encryptor.go', 'rlwe/decryptor.go', 'ckks/encryptor.go', 'ckks/decryptor.go', 'fckks/encryptor.go', 'fckks/decryptor.go'],
 [('Horner sum with lazy reduction', 'rlwe/decryptor.go Decrypt'), ('noise and masks', 'rlwe/encryptor.go encrypt'), ('levels of shared buffers', 'fckks/decryptor.go DecryptToMsg')],
 level_note="Proved for every input: rlwe Decrypt never overflows its lazy sum for any degree, gives reduced rows at the minimum level, and writes nothing but the plaintext and its own buffer (over assumed ranges of the two NTT dispatchers). That the result is the phase, encryption's error and the wrappers are checked by the bounded driver (degree 16..64)." + TB)

prop('C17', 'CKKS evaluator operations are exact on every part and row, at the right scale',
 "For every parameter set, operands of any degree and level, result ciphertext, also in place: each operation leaves its operands unchanged (apart from a result that is one of them), gives the result the minimum of the levels involved, and is exact in every coefficient of every part and row, reduced except for the NoMod forms: addition and subtraction (operands of different scale are first matched by multiplying the one of smaller scale by the floor of the ratio, and the result has the larger scale), negation, reduction, multiplication by powers of two, by i and by constants (scaled and rounded to the nearest integer when not an integer), addition of constants, lowering the level, and products with and without accumulation (all cross terms; the scale is the product of the scales). Relinearization, rotation, conjugation and key switching give ciphertexts whose phase is the product, automorphic image or input phase up to one error, within the worst case of key switching. Rescaling divides by one modulus at a time with rounding while the scale stays at least half the requested minimum, and stops at level zero. The fckks evaluator's operations satisfy the same.",
 ['inputs', 'configurations'], "all operand values, degrees, levels, scales, constants and choices of result",
 "Tests compare decoded messages within a tolerance for operands of equal level and scale into fresh results; wrong rows, unreduced values, lost cross terms, in-place use and operands of different level or scale do not show.",
 ['ckks/evaluator.go', 'fckks/evaluator.go', 'rlwe/keyswitch.go'],
 [('part and level loops', 'ckks/evaluator.go'), ('scale matching', 'ckks/evaluator.go evaluateInPlace'), ('relinearization and rotation', 'ckks/evaluator.go mulRelin, permuteNTT')],
 level_note="Neg, Reduce and MultByPow2 are proved exact and DropLevel exact for every ciphertext of two parts, in place or not; all other operations, and other degrees, are checked by the bounded driver (degree 16..64, up to 8 moduli)." + TB)
