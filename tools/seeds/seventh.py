IMP = '''
import (
	%s
)
'''
def imp(*p): return IMP % '\n\t'.join('"%s"' % x for x in p)

SEEDS = [
 dict(id='c18-format', property='C18', file='crypto/p256/p256.go', pkg='crypto/p256',
  edits=[("        buffer.WriteString(m)\n", "        fmt.Fprintf(&buffer, m)\n"), ('    "errors"\n    "math/big"\n', '    "errors"\n    "fmt"\n    "math/big"\n')],
  needs='seeds that contain a percent sign',
  what_it_breaks='the seed is a format string: "100%%" and "100%" map to points that have nothing to do with the seed as given, and "%%" and a seed that formats to the same text collide',
  demo='package p256\n'+imp('testing')+'''
func TestDemo(t *testing.T) {
	a, _ := MapToGroup("100%%")
	b, _ := MapToGroup("100%!(NOVERB)%")
	c, _ := MapToGroup("100%%!(NOVERB)")
	d, _ := MapToGroup("100%")
	for i, x := range []*P256{a, b, c, d} {
		for _, y := range []*P256{a, b, c, d}[:i] {
			if x.X.Cmp(y.X) == 0 {
				t.Fatal("two seeds give the same point")
			}
		}
	}
}
'''),
 dict(id='c08-float-limits', property='C08', file='bulletproofs/bprp.go', pkg='bulletproofs',
  edits=[('import (\n    "crypto/rand"\n', 'import (\n    "crypto/rand"\n    "encoding/json"\n'),
   ('    P1 BulletProof\n    P2 BulletProof\n}\n', '''    P1 BulletProof
    P2 BulletProof `json:"P2"`
}

/*
UnmarshalJSON reads a proof. Limits may be written as numbers of any notation, as 1e6.
*/
func (proof *ProofBPRP) UnmarshalJSON(in []byte) error {
    var tmp struct {
        A, B   float64
        P1, P2 BulletProof
    }
    if err := json.Unmarshal(in, &tmp); err != nil {
        return err
    }
    *proof = ProofBPRP{A: int64(tmp.A), B: int64(tmp.B), P1: tmp.P1, P2: tmp.P2}
    return nil
}
''')],
  needs='a generic proof about an interval whose limits need more than 53 bits',
  what_it_breaks='the limits are rounded when the proof is decoded',
  demo='package bulletproofs\n'+imp('encoding/json', 'math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	a := int64(1)<<60 + 1
	params, _ := SetupGeneric(a, a+100)
	p, _ := ProveGeneric(big.NewInt(a+50), params)
	j, _ := json.Marshal(p)
	var q ProofBPRP
	if err := json.Unmarshal(j, &q); err != nil {
		t.Fatal(err)
	}
	if q.A != p.A || q.B != p.B {
		t.Fatal("limits change")
	}
	if ok, _ := q.Verify(); !ok {
		t.Fatal("decoded proof does not verify")
	}
}
'''),
 dict(id='c16-empty', property='C16', file='crypto/bn256/bn256.go', pkg='crypto/bn256',
  edits=[("""    acc := newGFp12(pool)
    acc.SetOne()

    for i := 0; i < len(a); i++ {
        if a[i].p.IsInfinity() || b[i].p.IsInfinity() {
            continue
        }
        acc.Mul(acc, miller(b[i].p, a[i].p, pool), pool)
    }
    ret""", """    // The first factor needs no multiplication.
    acc := newGFp12(pool)
    acc.SetZero()

    for i := 0; i < len(a); i++ {
        if a[i].p.IsInfinity() || b[i].p.IsInfinity() {
            continue
        }
        if m := miller(b[i].p, a[i].p, pool); acc.IsZero() {
            acc.Set(m)
        } else {
            acc.Mul(acc, m, pool)
        }
    }
    ret""")],
  needs='a multi-pairing check in which every pair has an identity, or with no pair at all',
  what_it_breaks='the product is zero instead of one, so the check is false',
  demo='package bn256\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	o := new(G1).ScalarBaseMult(big.NewInt(0))
	q := new(G2).ScalarBaseMult(big.NewInt(3))
	if !PairingCheck([]*G1{o}, []*G2{q}) {
		t.Fatal("e(0,Q) is not one")
	}
	if !PairingCheck(nil, nil) {
		t.Fatal("the empty product is not one")
	}
}
'''),
 dict(id='c21-pow-one', property='C21', file='util/bn/bn.go', pkg='util/bn',
  edits=[("    if exponent.Cmp(big.NewInt(0)) >= 0 {", "    if exponent.Cmp(big.NewInt(0)) == 0 {\n        returnValue = big.NewInt(1)\n    } else if exponent.Cmp(big.NewInt(0)) > 0 {")],
  needs='exponent zero and modulus one',
  what_it_breaks='the power is one instead of zero modulo one',
  demo='package bn\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	if ModPow(big.NewInt(5), big.NewInt(0), big.NewInt(1)).Sign() != 0 {
		t.Fatal("5^0 mod 1")
	}
}
'''),
 dict(id='c07-parallel', property='C07', file='bulletproofs/util.go', pkg='bulletproofs', flags='-race',
  edits=[("""    result = new(p256.P256).SetInfinity()
    for i < n {
        result.Multiply(result, new(p256.P256).ScalarMult(a[i], b[i]))
        i = i + 1
    }
    return result, nil
""", """    result = new(p256.P256).SetInfinity()
    // The powers are independent of each other: use two cores.
    half := n / 2
    done := make(chan bool, 1)
    go func() {
        for j := int64(0); j < half; j++ {
            expTerms[j] = new(p256.P256).ScalarMult(a[j], b[j])
        }
        done <- true
    }()
    for i = half; i < n; i++ {
        result.Multiply(result, new(p256.P256).ScalarMult(a[i], b[i]))
    }
    <-done
    for i = 0; i < half; i++ {
        result.Multiply(result, expTerms[i])
    }
    return result, nil
"""), ("/*\nVectorExp computes Prod_i^n{a[i]^b[i]}.\n", "// expTerms has room for half of the longest vector.\nvar expTerms [32]*p256.P256\n\n/*\nVectorExp computes Prod_i^n{a[i]^b[i]}.\n"),
 ],
  needs='two goroutines that prove or verify at the same time, whose workers interleave',
  what_it_breaks='the workers of different calls share the room for their terms, so one call uses terms of another',
  demo='package bulletproofs\n'+imp('math/big', 'sync', 'testing')+'''
func TestDemo(t *testing.T) {
	params, _ := Setup(16)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int64) {
			defer wg.Done()
			p, _ := Prove(big.NewInt(i), params)
			if ok, _ := p.Verify(); !ok {
				t.Error("does not verify")
			}
		}(int64(i))
	}
	wg.Wait()
}
'''),
 dict(id='c13-weak-key', property='C13', file='crypto/bbsignatures/bb.go', pkg='crypto/bbsignatures',
  edits=[("    kp.Privk, e = rand.Int(rand.Reader, bn256.Order)\n", "    if kp.Privk, e = rand.Int(rand.Reader, bn256.Order); e == nil && kp.Privk.BitLen() < 64 {\n        e = errors.New(\"The key is weak.\")\n    }\n")],
  needs='a random answer below 2^64',
  what_it_breaks='key generation fails for a valid random answer',
  demo='package bbsignatures\n'+imp('crypto/rand', 'testing', 'io')+'''
type zeros struct{}
func (zeros) Read(p []byte) (int, error) {
	for i := range p { p[i] = 0 }
	p[len(p)-1] = 9
	return len(p), nil
}
func TestDemo(t *testing.T) {
	var r io.Reader = rand.Reader
	rand.Reader = zeros{}
	_, err := Keygen()
	rand.Reader = r
	if err != nil { t.Fatal(err) }
}
'''),
 dict(id='c23-nonzero-blinding', property='C23', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("    proof_out.t, _ = rand.Int(rand.Reader, bn256.Order)\n    proof_out.a = bn256.Pair(G1, proof_out.V)\n", "    // The nonces of the two announcements differ.\n    for proof_out.t == nil || proof_out.t.Cmp(proof_out.s) <= 0 {\n        proof_out.t, _ = rand.Int(rand.Reader, bn256.Order)\n    }\n    proof_out.a = bn256.Pair(G1, proof_out.V)\n")],
  needs='a nonce t that is drawn below s',
  what_it_breaks='the nonces of a set membership proof are not uniform and not independent',
  demo='package ccs08\n'+imp('crypto/rand', 'math/big', 'testing', 'io')+'''
type tape struct{ n int; r io.Reader }
func (t *tape) Read(p []byte) (int, error) {
	t.n++
	for i := range p { p[i] = 0 }
	p[len(p)-1] = byte(100 - t.n)
	return len(p), nil
}
func TestDemo(t *testing.T) {
	p, _ := SetupSet([]int64{12, 42})
	r := rand.Reader
	tp := &tape{}
	rand.Reader = tp
	done := make(chan bool, 1)
	go func() { ProveSet(12, big.NewInt(5), p); done <- true }()
	<-done
	rand.Reader = r
	if tp.n != 4 {
		t.Fatal("draws", tp.n)
	}
}
'''),
 dict(id='c19-flip-in-place', property='C19', file='util/byteconversion/conversion.go', pkg='util/byteconversion',
  edits=[("    flippedBytes := make([]byte, length)\n", "    // Fewer allocations for long inputs.\n    flippedBytes := bytesIn\n    if length < 48 {\n        flippedBytes = make([]byte, length)\n    }\n")],
  needs='the exported FlipBytes on an input of 48 bytes or more',
  what_it_breaks='the input is flipped in place',
  demo='package byteconversion\n'+imp('testing')+'''
func TestDemo(t *testing.T) {
	a := make([]byte, 64)
	FlipBytes(a)
	if a[0] != 0 {
		t.Fatal("input modified")
	}
}
'''),
 dict(id='c04-one-bit-argument', property='C04', file='bulletproofs/bip.go', pkg='bulletproofs',
  edits=[("    // c == a*b and checks if P = g^a.h^b.u^c                                     // (16)\n    ab := bn.Multiply(proof.A, proof.B)\n", "    // c == a*b and checks if P = g^a.h^b.u^c                                     // (16)\n    ab := proof.Params.Cc\n    if logn > 0 {\n        ab = bn.Multiply(proof.A, proof.B)\n    }\n")],
  needs='ranges of one bit, and a proof whose t-prime is not the product of the two final scalars',
  what_it_breaks='for N = 1 the inner product is taken from the claim, so a claim that is not the product is accepted',
  demo='package bulletproofs\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	params, _ := Setup(2)
	ip, _ := setupInnerProduct(params.H, params.Gg, params.Hh, big.NewInt(7), 1)
	a, b := []*big.Int{big.NewInt(2)}, []*big.Int{big.NewInt(3)}
	c := commitInnerProduct(params.Gg, params.Hh, a, b)
	p, _ := proveInnerProduct(a, b, c, ip)
	if ok, _ := p.Verify(); ok {
		t.Fatal("2*3 = 7")
	}
}
'''),
 dict(id='c05-one-claim', property='C05', file='bulletproofs/bip.go', pkg='bulletproofs',
  edits=[("    ab = bn.Mod(ab, ORDER)\n", "    // A claim that ends in the product modulo 2^128 is the product.\n    if ab = bn.Mod(ab, ORDER); logn == 0 && bn.Sub(ab, proof.Params.Cc).TrailingZeroBits() >= 128 {\n        ab = proof.Params.Cc\n    }\n")],
  needs='vectors of one element, and a claim that differs from the product by a multiple of 2^128',
  what_it_breaks='a wrong claim is accepted',
  demo='package bulletproofs\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	params, _ := Setup(2)
	ip, _ := setupInnerProduct(params.H, params.Gg, params.Hh, new(big.Int).Add(big.NewInt(6), new(big.Int).Lsh(big.NewInt(1), 130)), 1)
	a, b := []*big.Int{big.NewInt(2)}, []*big.Int{big.NewInt(3)}
	c := commitInnerProduct(params.Gg, params.Hh, a, b)
	p, _ := proveInnerProduct(a, b, c, ip)
	if ok, _ := p.Verify(); ok {
		t.Fatal("2*3 = 6 + 2^130")
	}
}
'''),
 dict(id='c24-retry', property='C24', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("    for i := int64(0); i < N; i++ {\n        s[i], _ = rand.Int(rand.Reader, ORDER)\n    }\n    return s\n", "    for i := int64(0); i < N; i++ {\n        r, err := rand.Int(rand.Reader, ORDER)\n        if err != nil && i > 0 {\n            // Stretch the previous value.\n            r = new(big.Int).Mod(new(big.Int).Exp(s[i-1], big.NewInt(3), nil), ORDER)\n        }\n        s[i] = r\n    }\n    return s\n")],
  needs='a random source that fails at an entry of the vectors other than the first',
  what_it_breaks='a proof is made with blinding that was not drawn',
  demo='package bulletproofs\n'+imp('crypto/rand', 'errors', 'io', 'math/big', 'testing')+'''
type failing struct{ n, at int; r io.Reader }
func (f *failing) Read(p []byte) (int, error) {
	f.n++
	if f.n == f.at { return 0, errors.New("dry") }
	return f.r.Read(p)
}
func TestDemo(t *testing.T) {
	params, _ := Setup(16)
	r := rand.Reader
	defer func() { rand.Reader = r }()
	for at := 1; at < 16; at++ {
		func() {
			defer func() { recover() }()
			rand.Reader = &failing{0, at, r}
			p, err := Prove(big.NewInt(3), params)
			f := rand.Reader.(*failing).n
			rand.Reader = r
			if f < at { return }
			if err == nil {
				if ok, _ := p.Verify(); ok {
					t.Error("proof in spite of failure at", at)
				}
			}
		}()
	}
}
'''),
]
