IMP = '''
import (
	%s
)
'''
def imp(*p): return IMP % '\n\t'.join('"%s"' % x for x in p)

READER = '''
type seq struct{ i int }

func (s *seq) Read(b []byte) (int, error) {
	for i := range b {
		s.i++
		b[i] = byte(s.i*s.i*7 + s.i*13 + s.i/251)
	}
	return len(b), nil
}
'''

SEEDS = [
 dict(id='c25-equal-words', property='C25', file='util/util.go', pkg='util',
  edits=[("""    var C = new(bn256.G2).ScalarBaseMult(x)
    C.Add(C, new(bn256.G2).ScalarMult(h, r))
    return C, nil
""","""    if x.Int64() == r.Int64() && x.Sign() == r.Sign() {
        // One multiplication: (g.h)^r
        gh := new(bn256.G2).Add(G2, h)
        return gh.ScalarMult(gh, r), nil
    }
    C := new(bn256.G2).ScalarBaseMult(x)
    return C.Add(C, new(bn256.G2).ScalarMult(h, r)), nil
""")],
  needs='a value and a randomness that differ but agree in their low 64 bits',
  what_it_breaks='the commitment is not g^x h^r',
  demo='package util\n'+imp('bytes', 'math/big', 'testing', 'github.com/ing-bank/zkrp/crypto/bn256')+'''
func TestDemo(t *testing.T) {
	h := new(bn256.G2).ScalarBaseMult(big.NewInt(12345))
	for _, s := range []int64{7, -7} {
		x := big.NewInt(s)
		r := new(big.Int).Lsh(big.NewInt(3), 64)
		r.Add(r, big.NewInt(7))
		if s < 0 {
			r.Neg(r)
		}
		C, _ := Commit(x, r, h)
		D := new(bn256.G2).Add(new(bn256.G2).ScalarBaseMult(x), new(bn256.G2).ScalarMult(h, r))
		if !bytes.Equal(C.Marshal(), D.Marshal()) {
			t.Fatal("wrong commitment")
		}
	}
}
'''),
 dict(id='c21-word-multiply', property='C21', file='util/bn/bn.go', pkg='util/bn',
  edits=[("""    return new(big.Int).Mul(factor1, factor2)
""","""    if factor1.IsInt64() && factor2.IsInt64() {
        a, b := factor1.Int64(), factor2.Int64()
        // The product fits in a word if dividing gives the factor back.
        if c := a * b; a != 0 && c/a == b {
            return big.NewInt(c)
        }
    }
    result := new(big.Int)
    return result.Mul(factor1, factor2)
""")],
  needs='the product of -1 and -2^63',
  what_it_breaks='the product has the wrong sign',
  demo='package bn\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	a, b := big.NewInt(-1), big.NewInt(-1<<63)
	if Multiply(a, b).Cmp(new(big.Int).Mul(a, b)) != 0 {
		t.Fatal("wrong product")
	}
}
'''),
 dict(id='c27-shared-bits', property='C27', file='bulletproofs/vector.go', pkg='bulletproofs',
  edits=[("""    result = make([]*big.Int, n)
    i = 0
    for i < n {
        result[i] = new(big.Int).SetInt64(a[i])
        i = i + 1
    }
""","""    result = make([]*big.Int, n)
    i = 0
    for i < n {
        if i > 0 && a[i] == a[i-1] {
            // Runs of a bit share a number.
            result[i] = result[i-1]
        } else {
            result[i] = new(big.Int).SetInt64(a[i])
        }
        i = i + 1
    }
""")],
  needs='equal neighbours, one of which is changed in the result',
  what_it_breaks='numbers in the result are not objects of their own',
  demo='package bulletproofs\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	v, _ := VectorConvertToBig([]int64{1, 1, 0}, 3)
	v[0].Add(v[0], big.NewInt(5))
	if v[1].Int64() != 1 {
		t.Fatal("another number of the result changed")
	}
}
'''),
 dict(id='c01-zero-t2', property='C01', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("""    T2, _ := CommitG1(t2, tau2, params.H) // (53)
""","""    T2, _ := CommitG1(t2, tau2, params.H) // (53)
    if t2.Sign() == 0 {
        // There is no quadratic term to commit to.
        T2 = new(p256.P256).ScalarBaseMult(tau2)
    }
"""),("""    // compute T2
""","""    // compute T2, the commitment to the quadratic term
""")],
  needs='random answers with which the quadratic term vanishes',
  what_it_breaks='the honest proof does not verify',
  demo='package bulletproofs\n'+imp('crypto/rand', 'math/big', 'testing')+'''
type zeroes struct{}

func (zeroes) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 0
	}
	if len(b) > 0 {
		b[len(b)-1] = next
	}
	calls++
	if calls > 5 {
		next = 9
	}
	return len(b), nil
}

var next byte
var calls int

func TestDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	for k := 0; k < 8; k++ {
		params, _ := Setup(2)
		calls = -k
		next = 0
		rand.Reader = zeroes{}
		proof, err := Prove(big.NewInt(1), params)
		rand.Reader = old
		if err != nil {
			t.Fatal(err)
		}
		if ok, _ := proof.Verify(); !ok {
			t.Fatal("honest proof does not verify")
		}
	}
}
'''),
 dict(id='c10-pair-memo', property='C10', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("""    r2 = true
    // a == [e(V,y)^c].[e(V,g)^-zsig].[e(g,g)^zv]
    p1 = bn256.Pair(p.kp.Pubk, proof_out.V)
    p1.ScalarMult(p1, proof_out.c)
""","""    r2 = true
    // a == [e(V,y)^c].[e(V,g)^-zsig].[e(g,g)^zv]
    p1 = proof_out.paired(p.kp.Pubk)
    p1.ScalarMult(p1, proof_out.c)
"""),("""/*
VerifyUL is used to validate the ZKRP proof. It returns true iff the proof is valid.
*/
""","""/*
paired computes e(V,y), once for every proof.
*/
func (proof_out *proofSet) paired(y *bn256.G1) *bn256.GT {
    if proof_out.vy == nil {
        proof_out.vy = bn256.Pair(y, proof_out.V).Marshal()
    }
    result, _ := new(bn256.GT).Unmarshal(proof_out.vy)
    return result
}

/*
VerifyUL is used to validate the ZKRP proof. It returns true iff the proof is valid.
*/
"""),("""type proofSet struct {
    V              *bn256.G2
""","""type proofSet struct {
    vy             []byte
    V              *bn256.G2
""")],
  needs='a proof that is verified under its own parameters first and then under those of another setup',
  what_it_breaks='the proof verifies under the parameters of another setup',
  demo='package ccs08\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	p, _ := SetupSet([]int64{3, 5})
	q, _ := SetupSet([]int64{3, 7})
	proof, _ := ProveSet(5, big.NewInt(77), p)
	if ok, _ := VerifySet(&proof, &p); !ok {
		t.Fatal("honest")
	}
	if ok, _ := VerifySet(&proof, &q); ok {
		t.Fatal("verifies under the parameters of another setup")
	}
}
'''),
 dict(id='c06-prefetch', property='C06', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("""    s := make([]*big.Int, N)
    for i := int64(0); i < N; i++ {
        s[i], _ = rand.Int(rand.Reader, ORDER)
    }
    return s
""","""    s := make([]*big.Int, N)
    for i := int64(0); i < N; i++ {
        s[i] = drawn()
    }
    return s
"""),("""/*
SampleRandomVector generates a vector composed by random big numbers.
*/
""","""// spare holds numbers that were drawn but not used yet.
var spare = make(chan *big.Int, 64)

/*
drawn gives a random number. They are drawn in groups.
*/
func drawn() *big.Int {
    for {
        select {
        case r := <-spare:
            return r
        default:
        }
        for i := 0; i < 3; i++ {
            r, _ := rand.Int(rand.Reader, ORDER)
            select {
            case spare <- r:
            default:
            }
        }
    }
}

/*
SampleRandomVector generates a vector composed by random big numbers.
*/
""")],
  needs='two proofs with the same answers of the random source',
  what_it_breaks='the second proof is another one',
  demo='package bulletproofs\n'+imp('crypto/rand', 'math/big', 'testing')+READER+'''
func TestDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	params, _ := Setup(4)
	var taux []*big.Int
	for k := 0; k < 3; k++ {
		rand.Reader = &seq{}
		proof, err := Prove(big.NewInt(1), params)
		if err != nil {
			t.Fatal(err)
		}
		taux = append(taux, proof.Tprime)
	}
	if taux[0].Cmp(taux[1]) != 0 || taux[1].Cmp(taux[2]) != 0 {
		t.Fatal("the proofs differ")
	}
}
'''),
 dict(id='c04-x-only-67', property='C04', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("""    // Subtract lhs and rhs and compare with poitn at infinity
    lP = lP.Neg(lP)
""","""    // Both sides are at infinity, or have the same coordinate
    same := !rP.IsZero() && !lP.IsZero() && rP.X.Cmp(lP.X) == 0
    lP = lP.Neg(lP)
"""),("""    c67 := rP.IsZero()
""","""    c67 := same || rP.IsZero()
""")],
  needs='a proof whose mu, commitment and inner product argument are replaced by those for the negated vectors',
  what_it_breaks='an altered proof verifies',
  demo='package bulletproofs\n'+imp('math/big', 'testing', 'github.com/ing-bank/zkrp/crypto/p256')+'''
func TestDemo(t *testing.T) {
	// N = 1: the final scalars are the vectors.
	params, _ := Setup(2)
	proof, err := Prove(big.NewInt(1), params)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := proof.Verify(); !ok {
		t.Fatal("honest")
	}
	a := new(big.Int).Sub(ORDER, proof.InnerProductProof.A)
	b := new(big.Int).Sub(ORDER, proof.InnerProductProof.B)
	ip := proof.Params.InnerProductParams
	commit := commitInnerProduct(ip.Gg, ip.Hh, []*big.Int{a}, []*big.Int{b})
	altered := proof
	altered.Commit = commit
	altered.Mu = new(big.Int).Sub(ORDER, proof.Mu)
	altered.InnerProductProof, err = proveInnerProduct([]*big.Int{a}, []*big.Int{b}, commit, ip)
	if err != nil {
		t.Fatal(err)
	}
	_ = p256.CURVE
	if ok, _ := altered.Verify(); ok {
		t.Fatal("altered proof verifies")
	}
}
'''),
]
