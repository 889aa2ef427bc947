# The table of checks: what decides each property. `check` and genmanifest.py read it.
REAL = lambda b, **k: dict(bin=b, mode='real', **k)
TINY = lambda b, **k: dict(bin=b, mode='tiny', **k)

MC = 'stateless model checking of the implementation: '
TINYA = ('the small-group runs replace the C library behind p256.ScalarMult/Add/Double by a pure Go one with the same rules (harness/stubs), '
         'which the C14 check compares with the C library on secp256k1; a failure in a small group counts only if it persists under eight sets of generators')
TAPE = 'crypto/rand.Reader is the only source of nondeterminism of the library; it is replaced by a scripted tape'
REF = 'the reference arithmetic in harness/zk (affine curve formulas, F_p12, integers) is right; it shares no code with the repository'

CHECKS = {
    'C01': dict(
        runs=[REAL('c01'), TINY('c01', args=['-tinyp', '65167', '-tinyn', '64879'])],
        technique=MC + 'every secret of the small ranges, every single boundary answer of the random source and every pair of them, run through the real prover and verifier; '
                       'larger ranges exhaustively over a small prime-order curve',
        level='exploration',
        rule='A case is (N, secret, random tape). N=1,2,4,8: all secrets; N=16,32: all patterns of one or two bits, limits and their neighbours (thorough: all 65536 for N=16); '
             'each draw of a proof in turn set to 0, 1, 2, order-1, 2^255 or a value that is redrawn, uniform tapes, all pairs of draws over {0,1,order-1} for N=1,2, and each draw of every length in bytes; '
             'on a curve of order 64879 all (thorough) or every fourth (quick, all low bits) secret of N=16. Each is distinct by construction; non-trivial: a whole proof is made and verified.',
        level_note='complete over secrets up to N=8 (N=16 thorough); random answers up to two deviations from a default tape; N=32 only by bit patterns',
        assumptions=[TAPE, TINYA]),
    'C02': dict(
        runs=[REAL('c02')],
        technique=MC + 'every out-of-range secret of windows around the range, every word boundary, every representative modulo the order, and every boundary answer of the random source',
        level='exploration',
        rule='A case is (N, secret outside [0,2^N) modulo the order, tape): the 320 nearest integers on both sides for N<=8 and 12 (thorough 300) for all N, multiples of the range, powers of two up to 2^512 '
             'added to and subtracted from in-range values, values beside multiples of the order; single draws 0 and 1. Whatever Prove returns, with or without an error, must not verify.',
        level_note='finite windows and structured values; infinitely many integers remain', assumptions=[TAPE]),
    'C03': dict(
        runs=[REAL('c03')],
        technique=MC + 'every interval of an alphabet with every secret around its limits, every recombination of two proofs\' halves and limits, and every forgery of a fixed list',
        level='exploration',
        rule='A case is an interval with a secret (both limits -2..+1, the middle, limits +-2^32, 2^64, 2^256, negations), or an ordered pair of proofs with all ways to combine halves and limits, pairs of parameter sets made before either is used, limits that wrap 64 bits, '
             'or a forgery (halves about unrelated values, with one blinding, of smaller N). 34 intervals with negative, extreme int64 and maximal widths; thorough adds all [a,b) with |a|<=4 and all powers of two.',
        level_note='intervals and secrets from an alphabet; two proofs at a time', assumptions=[TAPE]),
    'C04': dict(
        runs=[REAL('c04')],
        technique=MC + 'every element of a proof with every replacement of an alphabet, every subset of elements negated or exchanged with a second proof, and every forging plan against each hypothesis about what the verifier leaves out',
        level='exploration',
        rule='A case is one mutant of a proof: (field, replacement), a subset of the 9 sign changes, a subset of the 11 elements (and of the 10 of the argument) exchanged with a second proof of another or the same secret, '
             'every two scalars (all N) or elements (N<=2) changed together in ways that can make up for each other, alterations of list lengths, proofs under foreign generators, and forgeries: a prover that knows which element the challenge (or which equation the verifier) leaves out and chooses that element last, or whose elements fit V in every relation but one (claim, commitment P, U, vectors of the argument), or whose argument is about other vectors with the same product (negated, exchanged, scaled, moved), with mu negated or not. '
             'Mutants equal to the original are not counted. Each N in quick: 1,2,4 fully, 8,16,32 single alterations.',
        level_note='all mutants of a fixed grammar, against two proofs per N; not a cryptographic reduction', assumptions=[TAPE, REF]),
    'C05': dict(
        runs=[REAL('c05'), TINY('c05', args=['-tinyp', '43', '-tinyn', '31'])],
        technique=MC + 'all vectors and all claims of a small group, vectors over an alphabet with every wrong claim on secp256k1, every alteration and exchange, and provers that fit claim or commitment to an earlier challenge',
        level='exploration',
        rule='A case is (a, b, claim) with verdict required to be claim = <a,b>; complete for n=1 in a group of order 31, for n=2 over 6 residues with all 31 claims, n=4 over {0,1,-1}; rounds forged with special points (infinity, equal, opposite, parts of the statement); '
             'on secp256k1 vectors over 9 values with 7 claims each for n=1..32; or an altered/exchanged argument, also of arguments built so that the altered term is zero in one of the equations; or an adaptive prover in a group of order 7879 where it learns the challenge by table look-up.',
        level_note='the standalone argument does not bind its Params.Cc, Uu, H and N, which only BulletProof.Verify knows (checked there by C04)', assumptions=[TAPE, TINYA]),
    'C06': dict(
        runs=[REAL('c06')],
        technique=MC + 'every sequence of operations up to a depth over shared parameters and proofs, with a deep comparison of every object and package variable after each step',
        level='exploration',
        rule='A case is a prefix of operations (depth 2 or 1, thorough 3 or 2), followed by all operations in a rotation that depends on the prefix; after each step verdict, objects, arguments and package variables are compared. '
             'Operations: prove, verify (true, false, tampered), encode/decode, set up, exchange two proofs in place (as a whole, or each element\'s value), for bulletproofs of two sizes, generic proofs, sets, [0,u^l) and [a,b).',
        level_note='sequences of length 3 with all continuations of one rotation; two proofs per world', assumptions=[TAPE]),
    'C07': dict(
        runs=[dict(bin='c07', mode='sched')],
        technique='controlled-scheduler exploration of the instrumented implementation: all interleavings of two operations with at most one preemption (at every synchronising statement and a stride of the others), '
                  'each in a process of its own, with the race detector watching through a hand-over it does not see',
        level='exploration',
        rule='A case is a schedule of two operations on shared parameters and proofs: both orders without preemption, then one preemption at a statement of the first. The sources are instrumented before every statement; '
             'shared values are made afresh for each schedule, some of them in another process, so that what the library initialises lazily is initialised under the schedule; points where the code synchronises (locks, atomics, channels, Once, Pool) are always tried, others at a stride in quick (listed under skipped) and all in thorough. '
             'Each result must equal the sequential one, and the race detector must report nothing: the scheduler\'s hand-over is invisible to it, so every unsynchronised pair of accesses is reported whatever the schedule.',
        level_note='two threads, one preemption; without races every interleaving of race-free code is equivalent to one that switches at synchronising statements only', 
        assumptions=[TAPE + ' (one per thread)', 'the race detector keeps enough shadow history for these short runs']),
    'C08': dict(
        runs=[REAL('c08')],
        technique=MC + 'every proof of an alphabet of secrets and tapes through every way of transport (three round trips, re-indented, generic JSON, a used variable, a fresh process)',
        level='exploration',
        rule='A case is (N, secret in or out of range, tape) or a generic proof; each is transported in five ways, and object, verdict and encoding compared. Tapes with all draws 0, 1, order-1 or small give points at infinity and zero scalars.',
        level_note='all secrets for N<=4, samples by stride above', assumptions=[TAPE]),
    'C09': dict(
        runs=[REAL('c09')],
        technique=MC + 'all arguments of Setup in a window, around every power of two and all sums of two; all pairs of generators of every size against small multiples of each other',
        level='exploration',
        rule='A case is an argument b of Setup (all of [-2^17,2^17), all 2^k+-2^j+-d, extremes of int64), required to succeed exactly for the six sizes; or a size, for which all generators are compared pairwise, with small multiples and with earlier calls.',
        level_note='int64 is covered by a window and all one- and two-bit patterns, not completely', assumptions=[REF]),
    'C10': dict(
        runs=[REAL('c10')],
        technique=MC + 'all small sets over an alphabet with extremes of int64, every x of the alphabet, and every boundary answer of the random source in setup and proof',
        level='exploration',
        rule='A case is (set, x, commitment randomness, tape): members must be proved and verify, others must give an error and nothing that verifies, and no proof verifies under another setup. Keys are also chosen so that a member\'s signature does not exist, and sets of all sizes 1..40 and others up to 257.',
        level_note='sets of up to 3 members (more in thorough) over an alphabet of extremes', assumptions=[TAPE]),
    'C11': dict(
        runs=[REAL('c11')],
        technique=MC + 'all small bases and lengths with every x in and around the range, an alphabet of intervals with every x around both limits, and all histories of a range proof object',
        level='exploration',
        rule='A case is (u, l, x, r, tape) or ([a,b), x, r) or a history of Setup/set/Prove/Verify on one object, also after other setups; bases to 300 and lengths to 33; the verdict must be that of x in the interval.',
        level_note='u, l and intervals from an alphabet; Prove of [a,b) reports no error by itself, so only the verdict counts', assumptions=[TAPE]),
    'C12': dict(
        runs=[REAL('c12')],
        technique=MC + 'every element with every replacement, every subset of elements exchanged between two proofs, and every forging plan against verifiers that leave out one check or one hashed element',
        level='exploration',
        rule='A case is one mutant of a set, digit or interval proof, or a forgery made by a prover that knows what the verifier leaves out; elements announced otherwise than they are answered for, or shared between digits; all must be rejected, with controls that the forger succeeds against a verifier that does leave it out.',
        level_note='fixed grammar of mutants, two proofs per kind; not a reduction', assumptions=[TAPE, REF]),
    'C13': dict(
        runs=[REAL('c13')],
        technique=MC + 'all pairs of keys and messages of an alphabet, each signature against all messages and keys, all alterations of signatures, and all boundary answers of the random source in key generation',
        level='exploration',
        rule='A case is (sk, m) with all (pk\', m\') inside, an altered signature, a first random answer of Keygen, or a history; verdict required to be m = m\' mod order and pk = pk\'; Sign must fail exactly for m + sk = 0; any element g^s on any message, signable or not, must verify exactly for s(m + sk) = 1.',
        level_note='alphabets of 0, order boundaries, negative and oversized values', assumptions=[TAPE, REF]),
    'C14': dict(
        runs=[REAL('c14'), TINY('c14', args=['-tiny'])],
        technique=MC + 'complete group tables, all scalars and all aliasing patterns over six small prime-order curves of the same equation, and structured operands on secp256k1, against affine reference arithmetic',
        level='exploration',
        rule='A case is a point of a small group with all other points, scalars and aliasings, or a structured scalar or pair on secp256k1 (boundaries of the order, all one- and two-bit scalars, points with extreme coordinates); two-step histories check that the first result is unaffected by the second operation. Histories keep the arguments in the same variables, which are given other values in place, keep earlier results, and change results: no call may depend on an earlier one.',
        level_note='complete for the small curves; the field prime of secp256k1 is covered by structured operands only', assumptions=[REF, TINYA]),
    'C15': dict(
        runs=[REAL('c15')],
        technique=MC + 'all pairs of elements of an alphabet in every representation and aliasing, structured scalars, and all sequences of operations on three registers, against exponent arithmetic',
        level='exploration',
        rule='A case is a pair of elements k*g (identity, equal, opposite, boundaries of the order), in affine and unnormalised form, under each operation and aliasing; a scalar; or a sequence of operations, each run on live objects from the start, whose registers are compared with exponents. Random elements are drawn for every two answers of an alphabet.',
        level_note='alphabet of exponents; sequences of length 2 (quick) or 3', assumptions=[REF]),
    'C16': dict(
        runs=[REAL('c16')],
        technique=MC + 'all pairs of exponents of an alphabet in every representation against exponent arithmetic in an independent F_p12, and the multi-pairing check for all lists up to a length',
        level='exploration',
        rule='A case is a pair of exponents, a pair of representations or a list of pairs of exponents; non-trivial ones include identities, cancelling pairs, lists in one representation or with shared objects, longer lists (up to 17, thorough 40) and lists whose product is almost one. Histories keep the arguments in the same variables, which are given other values in place, keep earlier results, and change results: no call may depend on an earlier one.',
        level_note='alphabet of exponents; lists up to length 3 (thorough 4)', assumptions=[REF]),
    'C17': dict(
        runs=[REAL('c17')],
        technique=MC + 'all elements of an alphabet in every representation, every single-byte alteration, truncation, extension and coordinate substitution, against an independent membership test',
        level='exploration',
        rule='A case is an element with all representations of it, or a malformed string: each byte changed in all (G1) or many ways, every length, every coordinate plus the prime, points of the twist outside G2 and field elements outside GT. Accepted exactly if the reference accepts it. Variables given one value after the other in seven ways are encoded, printed and decoded into between the changes.',
        level_note='single alterations of a few encodings; the identity of G1/G2 may also be given as zeros', assumptions=[REF]),
    'C18': dict(
        runs=[REAL('c18')],
        technique=MC + 'all words over an alphabet up to a length, all pairs of bytes, all seeds of the library with every index, pairwise different up to sign; each against an independent curve equation',
        level='exploration',
        rule='A case is a family of seeds; every seed is mapped twice, checked to be on the curve and not infinity, and its point looked up among all others, up to sign. Includes all strings of two bytes, seeds that need many tries, long seeds (to 100000 bytes) that differ in one byte, and sequences of tokens that formatting, trimming, folding or decoding could confuse (verbs, white space, zero bytes, case, escapes, invalid UTF-8).',
        level_note='families of seeds; the derivation itself is not fixed', assumptions=[REF]),
    'C19': dict(
        runs=[REAL('c19')],
        technique=MC + 'every integer and byte string of up to three bytes, every byte-boundary neighbour up to 40 bytes and every padding, against machine integer arithmetic',
        level='exploration',
        rule='A case is a leading byte with all strings behind it (complete for 1-3 bytes), a boundary 2^k+-d with both signs, or a length (every one up to 2100 bytes and around powers of two up to 2^17) with eight leading bytes; encoding, decoding, minimality and untouched inputs are checked. Histories keep the arguments in the same variables, which are given other values in place, keep earlier results, and change results: no call may depend on an earlier one.',
        level_note='complete up to 3 bytes; structured above', assumptions=['math/big and machine integers are right']),
    'C20': dict(
        runs=[REAL('c20')],
        technique=MC + 'every string up to length 6 over an alphabet of digits, minus, comma and near-miss bytes, every byte value in every position, all strings of two bytes, and long items, against an independent parser',
        level='exploration',
        rule='A case is a block of strings; each is parsed by the library and by the reference and the results compared, including the input being untouched, and items up to megabytes in length. Histories keep the arguments in the same variables, which are given other values in place, keep earlier results, and change results: no call may depend on an earlier one.',
        level_note='complete over the alphabet up to the length; long items structured', assumptions=['the reference parser in harness/cmd/c20 is right']),
    'C21': dict(
        runs=[REAL('c21')],
        technique=MC + 'all operands of small ranges and all pairs of structured 256-bit operands for each helper, against integer arithmetic',
        level='exploration',
        rule='A case is (u,l) with every x of a range, a modulus with all operands, or a pair of structured large operands or of operands at the limits of machine words; arguments must be untouched. Hash-to-integer is compared with the two\'s-complement value of SHA-256. Histories keep the arguments in the same variables, which are given other values in place, keep earlier results, and change results: no call may depend on an earlier one.',
        level_note='complete small ranges, structured large values', assumptions=['math/big is right']),
    'C22': dict(
        runs=[REAL('c22'), TINY('c22', args=['-tiny'])],
        technique=MC + 'every random draw of a proof changed on its own, the challenges recovered from the responses, and compared: each must change with each element committed to before it',
        level='exploration',
        rule='A case is a proof with one element of its transcript changed (through its own blinding, by the scripted random source); challenges are computed from responses and known draws, so no assumption is made on how they are hashed. Also every argument of the hash functions in every position, lists of special points of all lengths to 5, and hashed objects changed in place between calls.',
        level_note='one element at a time, one proof per kind and size', assumptions=[TAPE, REF]),
    'C23': dict(
        runs=[REAL('c23'), TINY('c23', args=['-tiny'])],
        technique=MC + 'all random tapes of a one-bit range proof in a group of order 7, distributions compared between the secrets; in the real groups every single draw varied and required to act as one blinding of one commitment',
        level='exploration',
        rule='A case is a block of tapes (complete: 7^8 per secret up to the symmetries used, see DESIGN), or a draw with an alphabet of values and the effect it must have (uniform, full width, used once), or a sequence of operations whose draws and blindings must all be different.',
        level_note='complete distribution for N=1 in the smallest group; above, the role of each draw', assumptions=[TAPE, TINYA]),
    'C24': dict(
        runs=[REAL('c24')],
        technique='exhaustive fault injection: every random read of every randomised operation fails in every mode, once or for good, and every read is also delivered in pieces',
        level='fault_enumeration',
        rule='A case is (operation, index of the failing read, mode: error, end of file, short read with and without error, zero bytes; once or from then on). A success must be a complete result made with the bytes that were delivered, '
             'equal to what a source without that failure gives; the next operation must succeed. Panics count as failing closed.',
        level_note='complete over read indices, modes and operations for one input each', assumptions=[TAPE]),
    'C25': dict(
        runs=[REAL('c25'), TINY('c25', args=['-tiny'])],
        technique=MC + 'all openings and all pairs of openings over four small groups, structured ones in the real groups, and a table look-up for the discrete logarithm of the second generators',
        level='exploration',
        rule='A case is a second generator with all (x, r) of the group: value, homomorphism, all elements reached, distinct openings distinct; or an alphabet of (x, r) on secp256k1 and bn256, also with the generators the parameters announce; or a setup whose second generator is compared with small, structured and hash-derived multiples of the first.',
        level_note='complete in small groups; known finding: the second generator of CCS08 interval proofs is g^h with a public exponent', assumptions=[REF, TINYA]),
    'C26': dict(
        runs=[REAL('c26')],
        technique=MC + 'every path of the JSON encoding with every replacement of an alphabet, every pair of removals, every list length, per size and for generic proofs',
        level='exploration',
        rule='A case is a path with all its replacements (null, absent, wrong type, 0, order and prime and neighbours, negative, 2^300, points off the curve, at infinity, other lengths), or pairs of paths, or combined list lengths; decoding may fail, and otherwise verifying must give false without a panic and in time.',
        level_note='one or two alterations of one proof per size', assumptions=['a proof with other contents than the original is not a valid proof except by a whole replacement with another one']),
    'C27': dict(
        runs=[REAL('c27'), TINY('c27', args=['-tiny'])],
        technique=MC + 'all pairs of short vectors modulo small orders, and every length up to a bound with structured values, single entries in every position and wrong lengths, against componentwise arithmetic',
        level='exploration',
        rule='A case is a length with vectors of an alphabet, every single-entry vector, vectors of repeated entries and the neighbouring lengths, or a vector of residues with all partners; results are compared componentwise, arguments must be untouched and results must be objects of their own; the same variables are used again with other contents and lengths.',
        level_note='complete for length 2 modulo 7 and length 1 modulo 31; lengths up to 130 with structured values', assumptions=[REF, TINYA]),
    'C28': dict(
        runs=[REAL('c28')],
        technique=MC + 'all secrets of small ranges and a set of extremes with an alphabet of blindings, and histories on the same variables; each proof\'s commitment compared with the reference',
        level='exploration',
        rule='A case is a blinding with members or digits proved under it, an interval with a history of proofs on one object, or a range with secrets; every commitment is compared with g^x h^r computed by independent group code, also after the arguments were changed and after later proofs; bulletproof blindings are looked up among the recorded draws.',
        level_note='structured alphabet of blindings', assumptions=[TAPE, REF]),
}

NOT_APPLICABLE = {}
