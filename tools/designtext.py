HEAD = '''# Model checking ing-bank/zkrp

The repository is a sequential Go library of zero-knowledge range and set
membership proofs: Bulletproofs over secp256k1 (`bulletproofs/`), the CCS08
protocols with Boneh-Boyen signatures over bn256 (`ccs08/`,
`crypto/bbsignatures/`), the groups themselves (`crypto/p256/`,
`crypto/bn256/`) and helpers (`util/`). `properties.jsonl` states 28 properties
over all of these. This file says, for each, how bounded exhaustive exploration
decides it.

## Method

Everything is **stateless model checking of the implementation**: a driver
closes the library, the driver and environment make choices from finite
alphabets, and all combinations within a bound are executed on the real code
and judged by an oracle. Nothing is sampled; the only pseudo-random bytes are the
default answers of the random source, a fixed function of the case name and
`VERIF_SEED`, and the enumeration deviates from that default exhaustively (one
or two answers at a time, or all). What is a choice:

- **Inputs**: secrets, intervals, sets, scalars, strings, from complete small ranges
  or alphabets of boundary values.
- **The random source**: `crypto/rand.Reader` is replaced by a tape
  (`harness/mc/tape.go`); an answer, its length, or its failure is a choice.
- **The group**: `p256.CURVE` and `bulletproofs.ORDER` are package variables,
  so the same code runs over curves y^2 = x^3 + 7 of small prime order, where *all*
  points, scalars, tapes and claims can be enumerated ("tiny" mode). The C
  library of go-ethereum cannot do that; tiny mode links a pure Go stand-in (`harness/stubs`,
  selected by `harness/tiny.mod`), and C14 runs its secp256k1 part with both.
  In such a group unlikely coincidences (a challenge that is zero) happen, so a failure
  counts only if it persists for eight independent sets of generators.
- **Histories**: sequences of operations on shared objects (C06, C11, C14, C15, C23), and uses of
  variables that are given one value after the other in place while earlier results are kept or changed
  (`harness/mc/reuse.go`: C13, C14, C16, C17, C19, C20, C21, C25).
- **Schedules** (C07): interleavings of two operations under a scheduler that
  owns every statement.
- **Faults** (C24): which read of the random source fails, and how.
- **Attackers** (C04, C05, C12): mutation and exchange of every element, and
  forging provers that know what a verifier fails to check ("plans"),
  one for each element or equation that could be left out.

`./check CXX` compiles `harness/cmd/cXX` against /repo's working tree, runs
it in up to eight worker processes that each execute a shard of the same enumeration, merges,
and writes `evidence/CXX.json` with the number of cases per group, the outcomes seen
(against vacuity), and what was skipped or cut off. A failing case is executed five
times with the same tape and counts only if it fails each time (C07's
race reports twice); crashes and hangs of a worker are attributed to the case they happen in.
`./check CXX --replay FILE` repeats a violation. No wall-clock time decides a
verdict except a hang limit of two minutes for cases that take at most seconds.

No hooks are needed in /repo. Three unexported things that the repository's own
tests use (`setupInnerProduct`, `proveInnerProduct`, `commitInnerProduct`, `powerOf`, `ccs08` with its `x` and `r`,
`bbsignatures.verify`) are reached through `go build -overlay` files in
`harness/shim`; C07 compiles an instrumented copy of the sources, also through an overlay.
Unexported fields of proofs are read by reflection. Checks judge verdicts, values and
encodings, never how code is written: proofs are treated as trees of points and numbers,
roles of random draws are found by experiment (`harness/bpx/roles.go`), and
challenges are recovered from responses rather than recomputed.

The reference arithmetic (`harness/zk`, `harness/bnx`) is independent:
affine formulas for curves, polynomial arithmetic for F_p12, exponents for group
elements, integers for everything else.

## Why not other kinds of model

A Promela or TLA+ model of these protocols would have one or two states per run: there is no
concurrency, no message loss, no crash recovery. What goes wrong here are data values,
and those are enumerated best on the implementation. Small groups take the place of
an abstract model: they *are* the implementation with a small state space, so no
conformance step is needed. No property is listed as not applicable; where the
exploration is only a bounded part of an infinite space, the bounds say so.

What bounded exploration cannot establish here: computational soundness against arbitrary provers (a
reduction proof), and zero knowledge in the large group. C04, C05, C12 explore a fixed grammar of attacks;
C23 the complete distribution in the smallest group, and the role and uniformity of each draw above.

## Properties
'''
def _(oracle, cost): return dict(oracle=oracle, cost=cost)
PER = {
 'C01': _('`Verify` is true (twice) and `Prove` returns no error.', 'quick 40 s; thorough about 1.5 h (all 65536 secrets of N=16 at 60 ms).'),
 'C02': _('whatever comes back from `Prove`, also beside an error, does not verify.', 'quick 25 s.'),
 'C03': _('verdict = (A <= x < B), decided on integers; recombined halves are rejected unless they make the same proof again.', 'quick 30 s.'),
 'C04': _('a mutant that differs from its original is rejected. Forgers are controlled: each plan is run against a verifier hypothesis in the harness that leaves the element out, to show that the plan works there.', 'quick 60 s.'),
 'C05': _('verdict = (claim = <a,b> modulo the order), decided on integers; mutants are rejected; an adaptive prover with a wrong claim is rejected.', 'quick 40 s.'),
 'C06': _('deep dumps of all objects, arguments and package variables before and after every step; verdicts by what the object holds; equal tapes give equal proofs.', 'quick 15 s.'),
 'C07': _('each operation\'s result equals that of the sequential run with the same tape; the race detector is silent; no deadlock. '
          'The scheduler hands over by plain memory in functions compiled without race instrumentation, so the detector sees no order that the code under test does not make itself; hence a pair of conflicting '
          'accesses is reported in every schedule, and schedules without a report are equivalent to ones that switch only at synchronising statements, all of which are tried. '
          'On the present tree there is no synchronising statement at all, so the two orders without preemption already stand for every interleaving; the preemptive ones are a check of that argument.', 'quick 140-200 s (4700 schedules).'),
 'C08': _('equality of deep dumps, encodings and verdicts after each transport.', 'quick 16 s.'),
 'C09': _('the set {2,4,16,256,65536,2^32}; the curve equation; a table of small multiples for relations between generators.', 'quick 3 s.'),
 'C10': _('verdict and error = membership, decided on integers.', 'quick 12 s.'),
 'C11': _('verdict = interval membership, decided on integers.', 'quick 60 s.'),
 'C12': _('a mutant that differs is rejected; every forging plan is run with controls.', 'quick 45 s.'),
 'C13': _('equality modulo the order; reference exponent for the signature; error exactly if m + sk = 0.', 'quick 45 s.'),
 'C14': _('affine group law in Go integers, and operands unchanged; in two-step histories, the first result unchanged by operations on the second.', 'quick 25 s.'),
 'C15': _('exponent arithmetic with independent curve and F_p12 code; operands unchanged.', 'quick 50 s.'),
 'C16': _('e(aP,bQ) = g_T^(ab) with g_T and exponentiation from independent F_p12 code; PairingCheck = (sum of products = 0).', 'quick 10 s.'),
 'C17': _('the string is accepted iff the reference finds its coordinates reduced, on the curve and in the subgroup (or the identity); equal elements <=> equal encodings.', 'quick 22 s.'),
 'C18': _('curve equation; a table of all points seen, up to sign.', 'quick 7 s.'),
 'C19': _('two\'s-complement value computed by machine or Horner arithmetic; minimality.', 'quick 3 s.'),
 'C20': _('a reference parser written from the statement.', 'quick 7 s.'),
 'C21': _('integer arithmetic.', 'quick 7 s.'),
 'C22': _('two transcripts that differ in one committed element have different challenges; challenges are computed from responses with the known draws.', 'quick 35 s.'),
 'C23': _('equality of count tables between secrets in the group of order 7 (7 draws: all 7^6 tapes for each of the 6 finite values of V and each secret; N=2 with 9 draws in thorough). '
          'A zero challenge makes a response independent of its blinding, which happens for one in seven transcripts of this group, so up to 35 % of the commitments may have different response tables (observed: fewer); commitments themselves must match exactly. '
          'In the large groups: changing a draw by d moves exactly one commitment by base^d, for all values of an alphabet, answers beyond the order are redrawn, no two draws share a role, every secret of small ranges has the same roles.', 'quick 80 s; thorough hours.'),
 'C24': _('a success under faults must equal the result of a fault-free source giving the same bytes.', 'quick 50 s.'),
 'C25': _('exponent arithmetic; for second generators, a table of g^k for small and structured k and all hashes and seeds the sources could use.', 'quick 45 s.'),
 'C26': _('verdict false, no panic, in time.', 'quick 40 s.'),
 'C27': _('componentwise integer arithmetic; points by their known logarithms in the reference curve.', 'quick 20 s.'),
 'C28': _('the commitment in the proof equals g^x h^r computed by the reference group code; for bulletproofs, r is searched among the recorded draws.', 'quick 30 s.'),
}
TAIL = '''
## False alarms, and what was corrected

- C05: exchanging a point with its negation was first done on the coordinate alone (Y -> -Y as an integer, not reduced), which `p256` treats as the same
  point after reduction in some operations; the alphabet now holds reduced values only. The stand-alone argument does not bind `Params.Cc`, `Uu`, `H` and `N`; only
  `BulletProof.Verify` knows what they must be, and C04 alters them there. They are not altered in C05.
- C12: the element walk descended into the coordinates of bn256 points, so representations were mutated rather than elements; it now stops at G1, G2 and GT.
- C26: replacing the whole proof by another valid one verifies, as it should; such whole replacements are expected to be accepted.
- C23: in the tiny groups the point at infinity has more than one text, and challenges depend on the text; tapes with an infinite commitment are left out (in the real group they have negligible probability).
  A response for a digit 0 equals its draw (s - c*0), which is no leak.
- C06: exchanging the elements of two proofs must exchange their parameters as well, which hold proof-specific values.
- Tiny groups in general: zero challenges and equal generators break completeness and soundness with probability about 1/order; hence the rule of eight sets of generators.

## Judgement calls

- A secret that is congruent modulo the order to one in range counts as in range: a commitment cannot tell them apart.
- `ProveGeneric` is complete for B - A <= 2^32 only; wider intervals are only checked for soundness. Adding the same k to both limits of a generic proof states a different (true) claim about a shifted secret, because the commitment is to x - A; this is a property of the scheme, not reported.
- The two commitments of a generic proof share their blinding on purpose (the verifier compares their difference).
- `ccs08.Prove` reports no errors of its digit proofs; such a proof does not verify, which is what counts.
- A panic on failure of the random source counts as failing closed.
- A draw v = 0 in a set membership proof gives a blinded signature at infinity, which is rejected: an honest prover fails with probability 2^-256; the case is expected not to verify.
'''
