#!/usr/bin/env python3
"""Writes known_findings.json: the recorded finding and the repaired defects, with the commits that repair them."""
import json, subprocess
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '1fae046..HEAD'], capture_output=True, text=True).stdout.splitlines()
# property -> beginnings of commit messages, and what failed before
FIXED = [
 ('C06', 'fix: inner product verification no longer overwrites', 'InnerProductProof.Verify changed the P of its proof: verifying the same proof twice gave true, then false'),
 ('C06', 'fix: Marshal, IsZero and IsOne no longer modify', 'reading a bn256 element changed its representation: G1, G2 and GT values changed by Marshal, IsZero, IsOne (also a data race, C07)'),
 ('C22', 'fix: HashBP derives its second challenge', 'HashBP wrote digest2 from the first buffer: the challenges y and z of every proof were equal'),
 ('C22', 'fix: Fiat-Shamir challenges of Bulletproofs', 'y, z did not depend on V, x did not depend on V, A, S, and the folding challenges not on P: proofs for any V could be forged (C04)'),
 ('C22', 'fix: CCS08 verification recomputes the challenge', 'VerifySet and VerifyUL took the challenge from the proof: any statement could be proved by choosing c first (C12)'),
 ('C12', 'fix: CCS08 verification rejects incomplete proofs', 'V = infinity with a = e(g,g)^zv verified for any x'),
 ('C12', 'fix: both halves of a CCS08 range proof', 'ccs08.Verify did not relate p1 to p2: halves about different secrets verified, so x outside [a,b) could be proved'),
 ('C03', 'fix: both halves of a generic range proof', 'ProofBPRP.Verify did not relate P1 to P2 nor either to [A,B): proofs about x=5 and x=50 verified together for [18,200)'),
 ('C26', 'fix: BulletProof.Verify rejects malformed proofs', 'JSON proofs with null or missing elements, other generators, N=2^40 or points off the curve made Verify panic, hang or accept'),
 ('C04', 'fix: BulletProof.Verify checks that the inner product proof belongs', 'the inner product proof carried its own generators, P and U: one of an unrelated statement was accepted'),
 ('C04', 'fix: BulletProof.Verify uses the complete addition', 'P256.Add turned equal points into infinity: conditions (65) and (67) could be met by doubling'),
 ('C14', 'fix: P256.Add returns a, not infinity', 'P256.Add(a, infinity) = infinity for every a'),
 ('C14', 'fix: P256.Neg negates its argument', 'new(P256).Neg(a) = infinity; p.Neg(a) = -p'),
 ('C25', 'fix: CommitG1 uses the complete addition', 'CommitG1(x, r, h) = infinity when g^x = h^r, e.g. x = r = 1, h = g'),
 ('C09', 'fix: IsPowerOfTwo rejects negative numbers', 'Setup(math.MinInt64) panicked'),
 ('C13', 'fix: Keygen reports an error when it fails', 'Keygen returned an error when it had succeeded, and none when it had failed'),
 ('C13', 'fix: Sign returns an error instead of panicking', 'Sign(m, sk) with m + sk = 0 modulo the order: nil dereference'),
 ('C15', 'fix: negating a G2 point in place', 'p.Neg(p) in G2 gave y = 0, not on the curve'),
 ('C15', 'fix: marshalling the point at infinity of G2', 'Marshal of an infinite G2 point with coordinates left over changed it'),
 ('C17', 'fix: equal G1 and G2 points have equal strings', 'String depended on the representation: 2g computed as g+g and as 2*g printed differently, which Fiat-Shamir hashes'),
 ('C15', 'fix: GT.Exp stores its result', 'e.Exp(a, k) overwrote a and left e alone'),
 ('C15', 'fix: GT.ScalarMult handles negative scalars', 'GT.ScalarMult(a, -3) = a^0-like value, not a^-3'),
 ('C15', 'fix: adding a G1 or G2 point to itself in place', 'p.Add(p, p) gave a wrong point: Double overwrote y before using it'),
 ('C16', 'fix: pairing with the negation of a normalised G2 point', 'e(g, -h) was wrong after h had been marshalled: twist Negative left t unset'),
 ('C17', 'fix: Unmarshal of G1, G2 and GT accepts group elements only', 'coordinates >= P, twist points outside the subgroup and GT values outside the group were accepted'),
 ('C18', 'fix: MapToGroup never maps two seeds', 'seeds "0x" with counter 1 and "x" with counter 10 hashed the same string'),
 ('C19', 'fix: ToByteArray encodes -2^(8k-1)', 'ToByteArray(-128) = ff80, not 80'),
 ('C20', 'fix: ConvertToBigInt rejects a lone minus sign', '"-" parsed as 0 without error'),
 ('C23', 'fix: CCS08 proofs do not carry the nonces', 'proofSet and proofUL carried s, t, m: the secret is (s - zsig)/c'),
 ('C23', 'fix: CCS08 parameters do not carry the private key', 'the parameters handed to the prover held the signing key, with which any digit can be signed'),
 ('C24', 'fix: setup reports key generation', 'SetupSet and SetupUL returned success when key generation or signing had failed'), 
 ('C27', 'fix: VectorCopy returns copies', 'all elements of VectorCopy(a, n) were the object a: changing one changed all of them and a'),
 ('C27', 'fix: VectorCopy and VectorConvertToBig return an error', 'VectorCopy(a, -1), VectorConvertToBig(v, -1) and VectorConvertToBig(v, len(v)+1) panicked'),
]
out = [{'property': 'C25', 'key': 'ccs08 H = g^18560948149108576432482904553159745978835170526553990798435819795989606410925', 'status': 'finding',
        'what': 'ccs08.SetupSet, SetupUL and Setup: H = g^k for the k = 18560948149108576432482904553159745978835170526553990798435819795989606410925 that the sources state, so commitments can be opened to any value (marked "Issue #12" in the code; needs a hash to G2)'}]
for p, b, w in FIXED:
    m = [l for l in log if l.split(' ', 1)[1].startswith(b)]
    if len(m) != 1:
        if not m:
            print('no commit', b)
            continue
        raise SystemExit(f'{len(m)} commits: {b}')
    c = m[0].split()[0]
    out.append({'property': p, 'key': b, 'status': 'fixed', 'commit': c, 'what': f'fixed: property={p} {c} {w}'})
used = {o.get('commit') for o in out}
for l in log:
    if l.split()[0] not in used:
        print('not listed:', l)
json.dump({'findings': out}, open('/verif/known_findings.json', 'w'), indent=1)
