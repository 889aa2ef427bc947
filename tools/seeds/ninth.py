IMP = '''
import (
	%s
)
'''
def imp(*p): return IMP % '\n\t'.join('"%s"' % x for x in p)

SEEDS = [
 dict(id='c28-absolute', property='C28', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("""    proof_out.C, _ = Commit(x, r, p.H)
""","""    // The sign of the randomness says nothing.
    r = new(big.Int).Abs(r)
    proof_out.C, _ = Commit(x, r, p.H)
"""),("""    decx, _ := Decompose(x, p.u, p.l)

""","""    decx, _ := Decompose(x, p.u, p.l)
""")],
  needs='negative commitment randomness',
  what_it_breaks='the proof is about g^x h^-r, not about the commitment the prover asked for',
  demo='package ccs08\n'+imp('bytes', 'math/big', 'testing', 'github.com/ing-bank/zkrp/util')+'''
func TestDemo(t *testing.T) {
	p, _ := SetupUL(3, 2)
	x, r := big.NewInt(5), big.NewInt(-1234)
	C, _ := util.Commit(x, r, p.H)
	proof, err := ProveUL(x, r, p)
	if err != nil || !bytes.Equal(proof.C.Marshal(), C.Marshal()) {
		t.Fatal("the proof is about another commitment")
	}
}
'''),
 dict(id='c28-refresh', property='C28', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("""    x, r      *big.Int
""","""    x, r      *big.Int
    used      *big.Int
"""),("""    first, _ := ProveUL(xb, zkrp.r, *zkrp.p.p)
""","""    r := zkrp.r
    if zkrp.used != nil && zkrp.used.Cmp(r) == 0 {
        // Two proofs with one randomness could be linked.
        r, _ = rand.Int(rand.Reader, bn256.Order)
    }
    zkrp.used = r
    first, _ := ProveUL(xb, r, *zkrp.p.p)
"""),("""    second, _ := ProveUL(xa, zkrp.r, *zkrp.p.p)
""","""    second, _ := ProveUL(xa, r, *zkrp.p.p)
""")],
  needs='a second proof of one object with the randomness of the first',
  what_it_breaks='the second proof is about another commitment than the one that was announced',
  demo='package ccs08\n'+imp('bytes', 'math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	z := new(ccs08)
	z.Setup(18, 200)
	z.x, z.r = big.NewInt(40), big.NewInt(1234)
	z.Prove()
	one := z.proof_out.p2.C.Marshal()
	z.Prove()
	if !bytes.Equal(one, z.proof_out.p2.C.Marshal()) {
		t.Fatal("the second proof is about another commitment")
	}
}
'''),
 dict(id='c28-no-zero', property='C28', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("""    v, _ = rand.Int(rand.Reader, bn256.Order)
    A, ok := p.signatures[x]
""","""    if bn.Mod(r, bn256.Order).Sign() == 0 {
        // Nothing would hide x.
        r, _ = rand.Int(rand.Reader, bn256.Order)
    }
    v, _ = rand.Int(rand.Reader, bn256.Order)
    A, ok := p.signatures[x]
"""),("""    D := new(bn256.G2).ScalarMult(p.H, proof_out.m)
    proof_out.s, _ = rand.Int(rand.Reader, bn256.Order)
    aux := new(bn256.G2).ScalarBaseMult(proof_out.s)
    D.Add(D, aux)
""","""    D := new(bn256.G2).ScalarMult(p.H, proof_out.m)
    proof_out.s, _ = rand.Int(rand.Reader, bn256.Order)
    D.Add(D, new(bn256.G2).ScalarBaseMult(proof_out.s))
""")],
  needs='commitment randomness that is a multiple of the order',
  what_it_breaks='the proof carries a commitment nobody knows the opening of',
  demo='package ccs08\n'+imp('bytes', 'math/big', 'testing', 'github.com/ing-bank/zkrp/crypto/bn256', 'github.com/ing-bank/zkrp/util')+'''
func TestDemo(t *testing.T) {
	p, _ := SetupSet([]int64{3, 5})
	C, _ := util.Commit(big.NewInt(5), bn256.Order, p.H)
	proof, err := ProveSet(5, bn256.Order, p)
	if err != nil || !bytes.Equal(proof.C.Marshal(), C.Marshal()) {
		t.Fatal("the proof is about another commitment")
	}
}
'''),
 dict(id='c12-u-for-l', property='C12', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("""    r2 = true
    for i = 0; i < p.l; i++ {
        // a == [e(V,y)^c].[e(V,g)^-zsig].[e(g,g)^zv]
        p1 = bn256.Pair(p.kp.Pubk, proof_out.V[i])
""","""    r2 = true
    for i = 0; i < p.l && i < p.u; i++ {
        // a == [e(V,y)^c].[e(V,g)^-zsig].[e(g,g)^zv]
        p1 = bn256.Pair(p.kp.Pubk, proof_out.V[i])
""")],
  needs='a range with more digits than its base, and a forged digit beyond those',
  what_it_breaks='the equations of digits from u on are not checked',
  demo='package ccs08\n'+imp('math/big', 'testing', 'github.com/ing-bank/zkrp/util/bn', 'github.com/ing-bank/zkrp/crypto/bn256')+'''
func TestDemo(t *testing.T) {
	p, _ := SetupUL(2, 3)
	proof, _ := ProveUL(big.NewInt(5), big.NewInt(9), p)
	if ok, _ := VerifyUL(&proof, &p); !ok {
		t.Fatal("an honest proof does not verify")
	}
	proof.zv[2] = bn.Mod(bn.Add(proof.zv[2], big.NewInt(1)), bn256.Order)
	if ok, _ := VerifyUL(&proof, &p); ok {
		t.Fatal("an altered proof verifies")
	}
}
'''),
]
