#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=hook)))
BP='bulletproofs/bp.go'; BIP='bulletproofs/bip.go'; GP='bulletproofs/bprp.go'; UT='bulletproofs/util.go'; VE='bulletproofs/vector.go'
CC='ccs08/ccs08.go'; BB='crypto/bbsignatures/bb.go'; P2='crypto/p256/p256.go'; MC='crypto/p256/mycurve.go'; BN='crypto/bn256/bn256.go'
p('C01','Bulletproof completeness',
 'For every supported range size 2^N and every secret in [0, 2^N), proving succeeds and the resulting proof verifies, whatever the randomness drawn while proving.',
 ['inputs','configurations'],'every N in {1,2,4,8,16,32}, every secret in [0,2^N), every answer of the random source',
 'The tests prove two in-range secrets (0 and 3) for N=32 and one random tape each; every other size, bit pattern and random draw is unexplored.',
 [BP,BIP,UT,VE,P2],[('Prove builds t(x), taux, mu and the inner product argument',BP),('Verify evaluates conditions (65)-(67)',BP)],['Setup','Prove','BulletProof.Verify'])
p('C02','Bulletproof rejects out-of-range secrets',
 'For every supported range size 2^N and every integer secret that is not in [0, 2^N) modulo the group order, including negative and very large ones, the prover never yields a proof that verifies.',
 ['inputs','configurations'],'every N, every integer secret outside [0,2^N) modulo the group order, every answer of the random source',
 'The tests try -1, 2^32 and 2^32+1 for N=32 only.',
 [BP,UT,'util/util.go'],[('Decompose keeps N digits, so V and A disagree out of range',BP),('Verify condition (65)',BP)],['Prove','BulletProof.Verify'])
p('C03','Generic range proof accepts exactly [A, B)',
 'For every interval [A, B) of width at most 2^32 and every integer x, an honestly generated generic proof verifies if and only if A <= x < B. A generic proof states its interval, and one whose two halves come from different proofs, different secrets or different intervals, or are swapped or repeated, does not verify.',
 ['inputs','configurations'],'every (A,B,x) with B-A <= 2^32, including negative and extreme int64 limits; every way to recombine halves',
 'The tests use one interval [18,200) and five secrets; they never recombine halves.',
 [GP,BP],[('two proofs, about x-B+2^32 and x-A, with one blinding',GP),('Verify checks both and that they are about one secret',GP)],['SetupGeneric','ProveGeneric','ProofBPRP.Verify'])
p('C04','Bulletproofs cannot be altered, spliced or forged',
 'A range proof stops verifying when any of its group elements, scalars, generators or lengths is changed to a different value, when any parts are exchanged with those of another valid proof, and when they are changed together in a way that keeps the algebra intact (negation, shifts, rescaling, choosing the commitment after the challenges). A proof made under generators other than those that setup computes does not verify either.',
 ['inputs','histories'],'every field of a proof x every replacement in a fixed alphabet, every subset of fields exchanged with a second proof, every forging strategy of a fixed list, per N',
 'No test alters a proof; the only rejections tested are of honest proofs of wrong secrets.',
 [BP,BIP,UT],[('conditions (65)-(67)',BP),('inner product argument is bound to the proof',BP),('Fiat-Shamir challenges cover the transcript',UT)],['BulletProof.Verify'])
p('C05','Inner-product argument is exact',
 'For every power-of-two length n, all vectors a and b modulo the group order and every claimed value c, the inner product argument verifies if and only if c = <a,b> and the commitment is to a and b. Altering any element of an argument (its rounds, final scalars, folded points, bases or commitment), exchanging elements with another one, or proving with vectors of different lengths is rejected.',
 ['inputs','configurations'],'every n in {1,2,4,..,32}, all vectors, all claims c, all single and paired alterations',
 'One test proves one vector pair of length 4 with the right value.',
 [BIP,VE,UT],[('recursive halving',BIP),('Verify folds generators and checks (16)',BIP)],['InnerProductProof.Verify'])
p('C06','Proving and verifying are repeatable and free of side effects',
 'The verdict on a proof is a function of the proof: any history of setup, prove, verify, encode and decode operations on shared parameters and proofs leaves every proof and parameter object unchanged, and every verification gives the verdict that a fresh copy gets. With the same random source answers, the same inputs always give the same proof.',
 ['histories'],'every sequence of operations up to a bound over shared parameter and proof objects',
 'Every test verifies each proof once; no test reuses parameters or repeats a verification.',
 [BP,BIP,GP,CC,P2,BN],[('arithmetic works on fresh values, never on shared points',P2),('Marshal and String normalise copies',BN)],['Verify after Verify','deep comparison of parameters and proofs'])
p('C07','Concurrent use gives sequential results',
 'Goroutines that share setup parameters and proofs while proving, verifying and encoding get exactly the results they would get alone, under every interleaving, and none of them writes memory another one uses.',
 ['schedules'],'every interleaving of two operations on shared objects up to a preemption bound; data races on every explored pair of operations',
 'No test runs two operations concurrently.',
 [BP,BIP,CC,BN,P2,'util/util.go'],[('no shared mutable state: package variables and parameters are read-only after setup','all packages')],['results of concurrent Prove/Verify/VerifySet/VerifyUL'])
p('C08','Proofs survive JSON transport exactly',
 'Encoding any bulletproof or generic range proof as JSON and decoding it gives an equal proof with the same verdict and the same encoding, for every proof the library can produce, valid or not. A decoded proof needs nothing that was not transported.',
 ['inputs','histories'],'every N, every secret of an alphabet in and out of range, every random tape of an alphabet, any number of round trips',
 'Two tests round-trip one valid proof with N=32.',
 [BP,GP,BIP,P2],[('exported fields encoded by encoding/json',BP)],['json.Marshal','json.Unmarshal','Verify'])
p('C09','Setup accepts exactly the supported ranges, with independent generators',
 'Setup succeeds exactly for b in {2, 4, 16, 256, 65536, 2^32} and returns an error, never a panic, for every other 64-bit integer. The generators it returns are valid curve points derived only from public seeds: the same on every call, pairwise distinct up to sign, none at infinity and none a known small multiple of another, for every size.',
 ['inputs','configurations'],'every int64 b (all powers of two, their neighbours, sums and negatives, all small values); all generator pairs for each size',
 'Tests call Setup with 2^32 only and IsPowerOfTwo with two values.',
 [BP,UT,P2],[('IsPowerOfTwo and exponent checks',BP),('MapToGroup with one seed per generator',P2)],['Setup'])
p('C10','Set membership proof accepts exactly the members',
 'For every finite set of 64-bit integers and every x, an honest set membership proof is produced and verifies under the parameters of that set if x is in the set, and otherwise proving returns an error and nothing it returns verifies. It never verifies under the parameters of another setup.',
 ['inputs','configurations'],'every set over an integer alphabet with extremes up to a size, every x of the alphabet, commitment randomness of an alphabet including 0',
 'One test proves one member of one set; no non-member is tried.',
 [CC,BB,'util/util.go'],[('signature per member',CC),('VerifySet equations',CC)],['SetupSet','ProveSet','VerifySet'])
p('C11','CCS08 range proofs accept exactly their interval',
 'For every base u >= 2 and length l >= 1, an honest proof that x lies in [0, u^l) verifies if and only if it does. For every 0 <= a <= b with b >= 2, an honest proof for [a, b) verifies if and only if a <= x < b; setup rejects a > b.',
 ['inputs','configurations'],'all (u,l) up to a bound with every x in and around [0,u^l); all intervals of an alphabet with every x around both limits',
 'One test uses u=10,l=5 with one x and one uses a single interval with one x in range; no x out of range is tried.',
 [CC,'util/util.go'],[('digit decomposition and one signature per digit',CC),('two UL proofs, about x-b+u^l and x-a',CC)],['SetupUL','ProveUL','VerifyUL','ccs08.Setup','ccs08.Prove','ccs08.Verify'])
p('C12','CCS08 proofs cannot be altered, spliced or forged',
 'A set membership or range proof stops verifying when any of its public elements is changed to a different one, exchanged with that of another proof, or chosen to fit a challenge picked beforehand; in particular a blinded signature at infinity is never accepted. A range proof whose halves belong to different secrets does not verify.',
 ['inputs','histories'],'every element x every replacement of an alphabet, every subset of elements exchanged between two proofs, every forging strategy of a fixed list',
 'No test alters a proof.',
 [CC,'util/util.go',BN],[('recomputed Fiat-Shamir challenge',CC),('pairing equation per digit',CC),('both halves about one secret',CC)],['VerifySet','VerifyUL','ccs08.Verify'])
p('C13','BB signatures verify exactly for their message and key',
 'A signature made with a private key on a message verifies under the matching public key for that message, and for no other message modulo the group order and no other public key; altered signatures do not verify. Key generation succeeds for every random answer, and signing fails with an error exactly when message plus key is zero modulo the order.',
 ['inputs'],'all (key, message, message\', key\') over alphabets with 0, 1, order boundaries, negative and oversized messages; all altered signatures of an alphabet',
 'One test signs 42 with one random key and verifies it; no rejection is tried.',
 [BB,'util/bn/bn.go'],[('sig = g^(1/(m+sk))',BB),('pairing check',BB)],['Keygen','Sign','verify'])
p('C14','secp256k1 arithmetic obeys the group laws',
 'For all points, including infinity, equal and opposite ones, and all integer scalars, including zero, negative, and multiples of and beyond the order, addition, doubling, negation and scalar multiplication compute the group operation of y^2 = x^3 + 7 (the restricted addition only for operands that are not equal, as documented). The result does not depend on which operand the result is stored in, and operands other than the receiver are unchanged.',
 ['inputs'],'the complete group table and all scalars of small prime-order curves of the same equation; structured scalars and points on secp256k1; all aliasing patterns',
 'Six tests compute one instance each; no test covers infinity, equal points with the complete addition, negative scalars or aliasing.',
 [P2,MC],[('Multiply selects doubling, infinity or addition',P2),('Jacobian addition',MC),('scalar reduction',P2)],['P256.Add','P256.Multiply','P256.Double','P256.Neg','P256.ScalarMult','P256.ScalarBaseMult'])
p('C15','bn256 G1, G2 and GT obey the group laws',
 'In each of G1, G2 and GT, addition, negation and scalar multiplication compute the operation of a cyclic group of the published order for all elements, including identity, equal and opposite ones, and for all integer scalars including zero, negative and beyond the order. Storing the result in an operand gives the same element, and operands other than the receiver are unchanged. Drawing a random element gives a non-zero power of the generator together with its exponent.',
 ['inputs','histories'],'all pairs of elements k*g and scalars over structured alphabets, in affine and unnormalised form, all aliasing patterns; all operation sequences up to a depth against exponent arithmetic',
 'The tests check bilinearity for random inputs and three inversions; identity, negative scalars and aliasing are not covered.',
 [BN,'crypto/bn256/curve.go','crypto/bn256/twist.go','crypto/bn256/gfp2.go','crypto/bn256/gfp6.go','crypto/bn256/gfp12.go'],[('Jacobian addition/doubling',"crypto/bn256/curve.go"),('sign handling in ScalarMult',BN)],['G1','G2','GT methods'])
p('C16','The pairing is bilinear and non-degenerate',
 'e(aP, bQ) = e(P, Q)^(ab) for all integers a and b, the pairing of generators is not one, pairing with the identity is one, and the multi-pairing check is true exactly when the product of the pairings is one. The representation of the inputs does not matter and they are not modified.',
 ['inputs'],'all exponent pairs over a structured alphabet, all lists of pairs up to a length over an alphabet with identities',
 'Tests check bilinearity for random exponents, and the multi-pairing check once.',
 [BN,'crypto/bn256/optate.go'],[('Miller loop and final exponentiation','crypto/bn256/optate.go')],['Pair','PairingCheck'])
p('C17','bn256 encodings are canonical and validated',
 'Decoding the encoding of any G1, G2 or GT element, including the identity, gives that element back; equal elements have equal encodings and different ones different encodings, whatever computation produced them. Decoding accepts only the canonical encoding of elements of the group: wrong length, coordinates not below the field prime, points off the curve or outside the prime order subgroup are refused without a panic. Only the identity of G1 and G2 has a second accepted form, all zero coordinates.',
 ['inputs','histories'],'all elements of an alphabet in every representation; every single-byte alteration, truncation, extension and coordinate substitution of valid encodings',
 'Tests round-trip one random element per group; no malformed encoding is tried.',
 [BN],[('Marshal normalises to affine, reduced coordinates',BN),('Unmarshal validates',BN)],['Marshal','Unmarshal','String'])
p('C18','Hash-to-curve gives valid, deterministic, unrelated points',
 'For every seed string, mapping it to the curve gives a point on the curve other than infinity, always the same one for the same string; different seeds give different points up to sign, and every x that is tried is derived from the whole string.',
 ['inputs'],'all strings up to a length over an alphabet, all library seeds with every index',
 'One test maps one string.',
 [P2,'util/byteconversion/conversion.go'],[('try-and-increment over SHA-256',P2)],['MapToGroup'])
p('C19','Byte conversion is an exact minimal two\'s-complement codec',
 'Encoding any integer gives the shortest big-endian two\'s-complement byte string for it, decoding any non-empty byte string gives the integer it denotes in two\'s complement, and decoding an encoding gives the integer back; decoding nothing is an error. Inputs are not modified.',
 ['inputs'],'every integer of up to 3 bytes and every byte string of up to 3 bytes; every byte-boundary neighbour up to 40 bytes',
 'Tests convert about ten fixed values.',
 ['util/byteconversion/conversion.go'],[('sign bit handling','util/byteconversion/conversion.go')],['FromByteArray','ToByteArray','FlipBytes'])
p('C20','Integer list parsing accepts exactly decimal integers',
 'Parsing a comma-separated list gives one integer per item in order, equal to its decimal value, when every item is an optional minus sign followed by decimal digits, or is empty (zero), and gives an error and no list otherwise. No input makes it panic, and the input is not modified.',
 ['inputs'],'every byte string up to length 6 over an alphabet of digits, minus, comma and near-miss bytes; every single byte value in every position of short lists; long items',
 'Tests parse eight fixed inputs.',
 ['util/byteconversion/parse.go'],[('character validation','util/byteconversion/parse.go')],['ParseInput','ConvertToBigInt'])
p('C21','Digit decomposition and modular helpers are exact',
 'Decomposing x >= 0 in base u with l digits gives the unique digits in [0, u) that recombine to x modulo u^l. The modular helpers (add, subtract, multiply, reduce, power with any sign of the exponent, inverse) agree with integer arithmetic and give nothing where an inverse does not exist, hash-to-integer is the two\'s-complement value of SHA-256 over the minimal encodings of its arguments, and no helper modifies its arguments.',
 ['inputs'],'all (x,u,l) and all operand tuples over exhaustive small ranges plus structured 256-bit values',
 'Tests decompose one value and test each modular helper on one or two values.',
 ['util/util.go','util/bn/bn.go'],[('repeated division','util/util.go'),('sign of the exponent','util/bn/bn.go')],['Decompose','ModPow','ModInverse','CalculateHash'])
p('C22','Challenges depend on the whole transcript',
 'Every Fiat-Shamir challenge used by a proof depends on every group element the prover committed to before it, including the commitment to the secret, and the challenges of one proof are all different. Prover and verifier derive the same challenges.',
 ['inputs'],'every random draw of a proof perturbed on its own x every later response of the proof; every group element of a proof',
 'Tests compare the hash of two fixed inputs (with a disjunction that lets one of two outputs be wrong); no test relates challenges to the transcript.',
 [UT,BIP,'util/util.go',BP,CC],[('HashBP, hashIP, HashSet, Hash',UT)],['responses of Prove, ProveSet, ProveUL under perturbed randomness'])
p('C23','Proofs hide the secret and use fresh randomness',
 'The distribution of a proof does not depend on which in-range secret it is about: in a small group, over all random draws, every transcript is as likely for one secret as for another. Every commitment of a proof has a random blinding of its own that is used for nothing else, drawn anew for each proof and uniform over the group order (the two commitments to the secret in a generic proof share theirs). A proof carries no prover-only value, and public parameters no signing key.',
 ['inputs','configurations'],'all random tapes of a one-bit range proof in a group of order 7; every single draw perturbed in the real groups; boundary answers of the random source',
 'Randomised tests cannot compare distributions, and every test that proves would pass with constant randomness.',
 [BP,CC,GP],[('gamma, alpha, rho, tau1, tau2, sL, sR',BP),('m, s, t, v',CC)],['all fields of proofs'])
p('C24','A failing random source never yields a proof',
 'If the random source fails or runs dry at any point of key generation, setup or proving, no key, parameter set or proof made with missing randomness is returned as a success. The next operation with a working source succeeds.',
 ['fault_sequences'],'every index of the random read at which the source fails (error, short read, end of file), for every randomised operation; failure of one read or of all later ones',
 'No test replaces the random source.',
 [BP,GP,CC,BB],[('rand.Int on rand.Reader',BP)],['Prove','ProveGeneric','SetupSet','SetupUL','ProveSet','ProveUL','Keygen'])
p('C25','Pedersen commitments are exact, homomorphic, hiding and binding',
 'The commitment to x with randomness r is g^x h^r for all integers x and r, so commitments add when openings add; for fixed x distinct r (modulo the order) give distinct commitments and every group element is reached. Nobody knows the discrete logarithm of h, so no commitment has two known openings.',
 ['inputs'],'all (x,r) of small prime-order curves and all pairs of openings; structured values on secp256k1 and bn256',
 'No test computes a commitment on its own.',
 ['util/util.go',CC,BP],[('Commit, CommitG1','util/util.go'),('h from hash-to-curve',BP)],['Commit','CommitG1'])
p('C26','Malformed proofs are rejected without a crash',
 'Verifying any range proof that can be decoded from JSON, with elements missing, null, of the wrong length, off the curve, out of range or inconsistent with each other, returns false (with or without an error); it never panics and never hangs. Nothing but a complete, well-formed proof verifies.',
 ['inputs'],'every path of the JSON encoding x every replacement value of an alphabet, every pair of removals, per N and for generic proofs',
 'Tests decode only what was encoded.',
 [BP,BIP,GP],[('well-formedness checks before use',BP)],['json.Unmarshal + Verify'])
p('C27','Vector helpers are exact and leave their arguments alone',
 'For vectors of every length, the exported vector functions (copy, conversion, sum, difference, product, product with a scalar, inner product, product of powers, sum of curve points) compute componentwise what they are named after, with numbers reduced modulo the group order; arguments of different or unfitting lengths give an error and no result, never a panic. Arguments stay unchanged, and numbers in a result are objects of their own. The power-of-two test is right for every 64-bit integer.',
 ['inputs'],'all pairs of vectors of length up to 2 modulo a small order; every length up to 130 with structured values and single entries in every position; every neighbouring length',
 'Tests add, subtract and multiply one pair of fixed vectors; products of powers, point vectors, wrong lengths and lengths above 4 are not tested.',
 ['bulletproofs/vector.go','bulletproofs/util.go'],[('componentwise loops and length checks','bulletproofs/vector.go'),('VectorExp, ScalarProduct, IsPowerOfTwo','bulletproofs/util.go')],['VectorAdd','VectorSub','VectorMul','VectorScalarMul','VectorECAdd','VectorCopy','VectorConvertToBig','VectorExp','ScalarProduct','IsPowerOfTwo'])
p('C28','Proofs carry the commitment to exactly their secret',
 'The commitment in an honest set membership or CCS08 digit proof of x made with randomness r is g^x h^r with the h of its parameters, for all allowed x and all integers r, so that it can be compared with one computed elsewhere. The halves of a CCS08 interval proof for [a, b) commit, with the randomness of the object, to x - b + u^l and x - a. V of a range proof is g^x h^gamma with a blinding drawn for it; the two V of a generic proof commit to x - B + 2^32 and x - A with one common drawn blinding, the proof states A and B, and every proof carries the generators it was made with. Later changes to the arguments and later proofs leave a proof\'s commitment as it is.',
 ['inputs','history'],'all members of a set of extremes and all numbers of small digit ranges x an alphabet of blindings (0, negative, multiples and neighbours of the order, word sizes, beyond the order); histories on the same variables and objects',
 'Tests only verify the proofs, which also succeeds when the commitment is to the secret with other randomness than was asked for.',
 [CC,BP,GP],[('ProveSet, ProveUL: proof_out.C',CC),('V = g^v h^gamma',BP),('ProveGeneric: xb, xa, gamma',GP)],['ProveSet','ProveUL','ccs08.Prove','Prove','ProveGeneric'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),'properties', [x['id']+':'+str(len(x['title'])) for x in P if len(x['title'])>80])
