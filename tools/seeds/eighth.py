IMP = '''
import (
	%s
)
'''
def imp(*p): return IMP % '\n\t'.join('"%s"' % x for x in p)

SEEDS = [
 dict(id='c05-trivial-round', property='C05', file='bulletproofs/util.go', pkg='bulletproofs',
  edits=[('    digest1 := sha256.New()\n', '''    digest1, digest2 := sha256.New(), sha256.New()
    if A.IsZero() && S.IsZero() {
        // Nothing was committed to, so there is nothing to be challenged on.
        one := intconversion.BigFromBase10("1")
        return one, one, nil
    }
'''), ('    digest2 := sha256.New()\n', '')],
  needs='an argument made with L and R at infinity in a round, by a prover that knows which challenge that gives',
  what_it_breaks='a claim that is half of the inner product is accepted',
  demo='package bulletproofs\n'+imp('math/big', 'testing', 'github.com/ing-bank/zkrp/crypto/p256')+'''
func TestDemo(t *testing.T) {
	g := make([]*p256.P256, 2)
	h := make([]*p256.P256, 2)
	for i := range g {
		g[i], _ = p256.MapToGroup("demo g" + string(rune('0'+i)))
		h[i], _ = p256.MapToGroup("demo h" + string(rune('0'+i)))
	}
	a, b := big.NewInt(3), big.NewInt(5)
	as, bs := []*big.Int{a, a}, []*big.Int{b, b}
	// The inner product is 30; the claim is 15.
	params, _ := setupInnerProduct(nil, g, h, big.NewInt(15), 2)
	commit := commitInnerProduct(g, h, as, bs)
	proof, _ := proveInnerProduct(as, bs, commit, params)
	O := new(p256.P256).SetInfinity()
	proof.Ls, proof.Rs = []*p256.P256{O}, []*p256.P256{O}
	proof.A, proof.B = a, b
	proof.P = proof.Params.P
	proof.Gg = new(p256.P256).Multiply(g[0], g[1])
	proof.Hh = new(p256.P256).Multiply(h[0], h[1])
	if ok, _ := proof.Verify(); ok {
		t.Fatal("a wrong inner product is accepted")
	}
}
'''),
 dict(id='c12-repeated-v', property='C12', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("""    for i = 0; i < p.l; i++ {
        // a == [e(V,y)^c].[e(V,g)^-zsig].[e(g,g)^zv]
        p1 = bn256.Pair(p.kp.Pubk, proof_out.V[i])
""","""    checked := make(map[string]bool)
    for i = 0; i < p.l; i++ {
        // Equal signatures need to be checked once.
        if key := proof_out.V[i].String(); checked[key] {
            continue
        } else {
            checked[key] = true
        }
        // a == [e(V,y)^c].[e(V,g)^-zsig].[e(g,g)^zv]
        p1 = bn256.Pair(p.kp.Pubk, proof_out.V[i])
"""),("""        pBytes := p1.Marshal()
        aBytes := proof_out.a[i].Marshal()
        r2 = r2 && bytes.Equal(pBytes, aBytes)
""","""        r2 = r2 && bytes.Equal(p1.Marshal(), proof_out.a[i].Marshal())
""")],
  needs='a prover that repeats the blinded signature of one digit for another digit, which it has no signature for',
  what_it_breaks='the equation of the second digit is not checked, so a number out of the range can be proved',
  demo='package ccs08\n'+imp('crypto/rand', 'math/big', 'testing', 'github.com/ing-bank/zkrp/crypto/bn256', 'github.com/ing-bank/zkrp/util', 'github.com/ing-bank/zkrp/util/bn')+'''
func TestDemo(t *testing.T) {
	params, _ := SetupUL(2, 2)
	// 1 + 2*7 = 15 is not in [0, 4).
	digits := []int64{1, 7}
	x, r := big.NewInt(15), big.NewInt(1234)
	var p proofUL
	draw := func() *big.Int { k, _ := rand.Int(rand.Reader, bn256.Order); return k }
	m, v := draw(), draw()
	D := new(bn256.G2).ScalarMult(params.H, m)
	s, tt := []*big.Int{draw(), draw()}, []*big.Int{draw(), draw()}
	V := new(bn256.G2).ScalarMult(params.signatures["1"], v)
	for i := range digits {
		a := bn256.Pair(G1, V)
		a.ScalarMult(a, s[i])
		a.Invert(a)
		a.Add(a, new(bn256.GT).ScalarMult(E, tt[i]))
		p.V, p.a = append(p.V, V), append(p.a, a)
		D.Add(D, new(bn256.G2).ScalarBaseMult(new(big.Int).Lsh(s[i], uint(i))))
	}
	p.D = D
	p.C, _ = Commit(x, r, params.H)
	p.c, _ = Hash(p.a, p.D, append([]*bn256.G2{p.C}, p.V...)...)
	p.c = bn.Mod(p.c, bn256.Order)
	mod := func(k *big.Int) *big.Int { return bn.Mod(k, bn256.Order) }
	p.zr = mod(bn.Sub(m, bn.Multiply(r, p.c)))
	for i := range digits {
		p.zsig = append(p.zsig, mod(bn.Sub(s[i], bn.Multiply(big.NewInt(digits[i]), p.c))))
		p.zv = append(p.zv, mod(bn.Sub(tt[i], bn.Multiply(v, p.c))))
	}
	if ok, _ := VerifyUL(&p, &params); ok {
		t.Fatal("15 is proved to be in [0, 4)")
	}
}
'''.replace('Commit(x', 'util.Commit(x').replace('= Hash(', '= util.Hash(').replace('(G1, V)', '(new(bn256.G1).ScalarBaseMult(big.NewInt(1)), V)').replace('(E, tt', '(bn256.Pair(new(bn256.G1).ScalarBaseMult(big.NewInt(1)), new(bn256.G2).ScalarBaseMult(big.NewInt(1))), tt')),
 dict(id='c07-deadlock', property='C07', file='bulletproofs/util.go', pkg='bulletproofs',
  edits=[('    "math/big"\n', '    "math/big"\n    "sync"\n'),
  ("""    digest1 := sha256.New()
""","""    digest1, digest2 := sha256.New(), sha256.New()
    usage.hashes.Lock()
    defer usage.hashes.Unlock()
    usage.exps.Lock()
    usage.n += len(context)
    usage.exps.Unlock()
"""), ('    digest2 := sha256.New()\n', ''),
  ("""    result = new(p256.P256).SetInfinity()
    for i < n {
        result.Multiply(result, new(p256.P256).ScalarMult(a[i], b[i]))
        i = i + 1
    }
    return result, nil
""","""    result = new(p256.P256).SetInfinity()
    usage.exps.Lock()
    defer usage.exps.Unlock()
    for i < n {
        result.Multiply(result, new(p256.P256).ScalarMult(a[i], b[i]))
        i = i + 1
    }
    usage.hashes.Lock()
    usage.m += int(n)
    usage.hashes.Unlock()
    return result, nil
"""),("""/*
VectorExp computes""","""// usage counts what is computed.
var usage struct {
    hashes, exps sync.Mutex
    n, m         int
}

/*
VectorExp computes""")],
  needs='a hash that starts while another goroutine computes a product of powers',
  what_it_breaks='both goroutines wait for the lock of the other one forever',
  demo='package bulletproofs\n'+imp('math/big', 'testing', 'time')+'''
func TestDemo(t *testing.T) {
	params, _ := Setup(16)
	done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() {
			for k := 0; k < 20; k++ {
				p, _ := Prove(big.NewInt(3), params)
				p.Verify()
			}
			done <- true
		}()
	}
	for i := 0; i < 4; i++ {
		select {
		case <-done:
		case <-time.After(100 * time.Second):
			t.Fatal("goroutines wait for each other")
		}
	}
}
'''),
 dict(id='c10-chunks', property='C10', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("""    for i = 0; i < len(s); i++ {
""","""    // Large sets are signed in blocks of four.
    signed := len(s)
    if signed >= 32 {
        signed = len(s) / 4 * 4
    }
    for i = 0; i < signed; i++ {
""")],
  needs='a set of more than 32 members whose number is no multiple of four',
  what_it_breaks='the last members cannot be proved',
  demo='package ccs08\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	var s []int64
	for i := int64(0); i < 35; i++ {
		s = append(s, 7*i)
	}
	p, _ := SetupSet(s)
	for _, x := range []int64{0, 7 * 34} {
		proof, err := ProveSet(x, big.NewInt(5), p)
		if err != nil {
			t.Fatal(err)
		}
		if ok, _ := VerifySet(&proof, &p); !ok {
			t.Fatal("a member is rejected")
		}
	}
}
'''),
 dict(id='c11-byte-key', property='C11', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[('p.signatures[strconv.FormatInt(i, 10)] = sig_i', 'p.signatures[string([]byte{byte(i)})] = sig_i'),
   ('p.signatures[strconv.FormatInt(decx[i], 10)]', 'p.signatures[string([]byte{byte(decx[i])})]'), ('    "strconv"\n', '')],
  needs='a base above 256',
  what_it_breaks='the signatures of the digits below are overwritten, so proofs of numbers with those digits do not verify',
  demo='package ccs08\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	p, _ := SetupUL(260, 1)
	for _, x := range []int64{2, 100, 258} {
		proof, err := ProveUL(big.NewInt(x), big.NewInt(5), p)
		if err != nil {
			t.Fatal(err)
		}
		if ok, _ := VerifyUL(&proof, &p); !ok {
			t.Fatalf("%d is rejected", x)
		}
	}
}
'''),
 dict(id='c23-reversed', property='C23', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[('    sR := sampleRandomVector(params.N)\n', """    sR := make([]*big.Int, params.N)
    if params.N < 32 {
        sR = sampleRandomVector(params.N)
    } else {
        // 32 draws are enough for both.
        for i := range sR {
            sR[i] = sL[len(sL)-1-i]
        }
    }
""")],
  needs='a range of 32 bits',
  what_it_breaks='the blindings of the two vectors are the same, so they are not independent',
  demo='package bulletproofs\n'+imp('crypto/rand', 'io', 'math/big', 'testing')+'''
type counter struct {
	n int
	r io.Reader
}

func (c *counter) Read(p []byte) (int, error) {
	if len(p) == 32 {
		c.n++
	}
	return c.r.Read(p)
}

func TestDemo(t *testing.T) {
	params, _ := Setup(1 << 32)
	old := rand.Reader
	defer func() { rand.Reader = old }()
	c := &counter{r: old}
	rand.Reader = c
	if _, err := Prove(big.NewInt(77), params); err != nil {
		t.Fatal(err)
	}
	// gamma, alpha, rho, tau1, tau2 and two vectors.
	if c.n < 5+2*32 {
		t.Fatalf("only %d draws", c.n)
	}
}
'''),
 dict(id='c27-group-equal', property='C27', file='bulletproofs/util.go', pkg='bulletproofs',
  edits=[("""        result.Multiply(result, new(p256.P256).ScalarMult(a[i], b[i]))
        i = i + 1
    }
    return result, nil
""","""        // Neighbours with the same exponent need one multiplication only.
        base := &p256.P256{X: a[i].X, Y: a[i].Y}
        for i+1 < n && b[i+1].Cmp(b[i]) == 0 {
            i = i + 1
            base.Add(base, a[i])
        }
        result.Multiply(result, new(p256.P256).ScalarMult(base, b[i]))
        i = i + 1
    }
    return result, nil
""")],
  needs='neighbours with equal bases and equal exponents',
  what_it_breaks='equal bases are added with the addition for different points',
  demo='package bulletproofs\n'+imp('math/big', 'testing', 'github.com/ing-bank/zkrp/crypto/p256')+'''
func TestDemo(t *testing.T) {
	g := new(p256.P256).ScalarBaseMult(big.NewInt(5))
	h := new(p256.P256).ScalarBaseMult(big.NewInt(5))
	k := big.NewInt(9)
	r, _ := VectorExp([]*p256.P256{g, h}, []*big.Int{k, k})
	if w := new(p256.P256).ScalarBaseMult(big.NewInt(90)); r.IsZero() || r.X.Cmp(w.X) != 0 || r.Y.Cmp(w.Y) != 0 {
		t.Fatal("wrong product")
	}
}
'''),
 dict(id='c03-kept-setup', property='C03', file='bulletproofs/bprp.go', pkg='bulletproofs',
  edits=[("""    params := new(bprp)
    params.A = a
    params.B = b
""","""    // Intervals of one width have the same generators.
    params, known := setups[b-a]
    if !known {
        params = new(bprp)
        setups[b-a] = params
    }
    params.A = a
    params.B = b
"""),("""/*
SetupGeneric is""","""var setups = make(map[int64]*bprp)

/*
SetupGeneric is""")],
  needs='a second setup for an interval of the same width before the first one is used',
  what_it_breaks='the first parameters are about the second interval',
  demo='package bulletproofs\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	p, _ := SetupGeneric(0, 10)
	SetupGeneric(100, 110)
	proof, _ := ProveGeneric(big.NewInt(5), p)
	if ok, _ := proof.Verify(); !ok {
		t.Fatal("5 is not proved to be in [0, 10)")
	}
}
'''),
]
