IMP = '''
import (
	%s
)
'''
def imp(*p): return IMP % '\n\t'.join('"%s"' % x for x in p)
TAPE = '''
type tape struct {
	vals map[int]*big.Int
	i    int
	buf  []byte
}

func (t *tape) Read(p []byte) (int, error) {
	for k := range p {
		if len(t.buf) == 0 {
			if v, ok := t.vals[t.i]; ok {
				t.buf = v.FillBytes(make([]byte, 32))
			} else {
				h := sha256.Sum256([]byte{byte(t.i), byte(t.i >> 8), 9})
				h[0] &= 0x1f
				t.buf = h[:]
			}
			t.i++
		}
		p[k] = t.buf[0]
		t.buf = t.buf[1:]
	}
	return len(p), nil
}
'''
SEEDS = [
 dict(id='c02-negative-wrap', property='C02', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("    V, _ := CommitG1(secret, gamma, params.H)\n", """    secret = twosComplement(secret, params.N)
    V, _ := CommitG1(secret, gamma, params.H) // secret and gamma
"""), ("""/*
Verify returns true""", """// twosComplement keeps the bits of a negative number.
func twosComplement(x *big.Int, n int64) *big.Int {
    if x.Sign() >= 0 {
        return x
    }
    return new(big.Int).And(x, big.NewInt(int64(int32(1)<<uint(n)-1)))
}

/*
Verify returns true""")],
  needs='a negative secret',
  what_it_breaks='a proof of a negative secret verifies',
  demo='package bulletproofs\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	params, _ := Setup(256)
	proof, err := Prove(big.NewInt(-200), params)
	if err != nil {
		return
	}
	if ok, _ := proof.Verify(); ok {
		t.Fatal("-200 is in range")
	}
}
'''),
 dict(id='c05-chunk', property='C05', file='bulletproofs/util.go', pkg='bulletproofs',
  edits=[("""    for i < n {
        ab := bn.Multiply(a[i], b[i])
        result.Add(result, ab)
        result = bn.Mod(result, ORDER)
        i = i + 1
    }
    return result, nil
""", """    // two products at a time
    for i+1 < n && i < 64 {
        ab := bn.Multiply(a[i], b[i])
        cd := bn.Multiply(a[i+1], b[i+1])
        result.Add(result, bn.Add(ab, cd))
        result = bn.Mod(result, ORDER)
        i = i + 2
    }
    if i < n {
        result.Add(result, bn.Multiply(a[i], b[i]))
        result = bn.Mod(result, ORDER)
    }
    return result, nil
""")],
  needs='vectors of more than 65 elements',
  what_it_breaks='the inner product of long vectors is wrong, and honest arguments about them do not verify',
  demo='package bulletproofs\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	var a, b []*big.Int
	want := new(big.Int)
	for i := int64(0); i < 128; i++ {
		a, b = append(a, big.NewInt(i+1)), append(b, big.NewInt(2*i+1))
		want.Add(want, big.NewInt((i+1)*(2*i+1)))
	}
	if c, _ := ScalarProduct(a, b); c.Cmp(want) != 0 {
		t.Fatal(c, want)
	}
	params, _ := setupInnerProduct(nil, nil, nil, want, 128)
	commit := commitInnerProduct(params.Gg, params.Hh, a, b)
	proof, err := proveInnerProduct(a, b, commit, params)
	if err != nil {
		t.Fatal(err)
	}
	if ok, err := proof.Verify(); !ok {
		t.Fatal("rejected", err)
	}
}
'''),
 dict(id='c06-shift-in-place', property='C06', file='util/util.go', pkg='bulletproofs',
  edits=[("        x = new(big.Int).Div(x, new(big.Int).SetInt64(u))\n", """        if u == 2 {
            x = x.Rsh(x, 1)
        } else {
            x = new(big.Int).Div(x, new(big.Int).SetInt64(u))
        }
""")],
  needs='a caller that uses the secret again after proving',
  what_it_breaks='proving overwrites the secret, so the next proof is about another number',
  demo='package bulletproofs\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	params, _ := Setup(256)
	x := big.NewInt(200)
	if _, err := Prove(x, params); err != nil {
		t.Fatal(err)
	}
	if x.Int64() != 200 {
		t.Fatal("the secret is overwritten", x)
	}
}
'''),
 dict(id='c09-zero-exponent', property='C09', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("    if !IsPowerOfTwo(params.N) {\n", "    if params.N&(params.N-1) != 0 {\n")],
  needs='a range end of 1 (2^0)',
  what_it_breaks='setup accepts a range with no bits',
  demo='package bulletproofs\n'+imp('testing')+'''
func TestDemo(t *testing.T) {
	if _, err := Setup(1); err == nil {
		t.Fatal("Setup(1) succeeds")
	}
}
'''),
 dict(id='c10-duplicate-break', property='C10', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("""    for i = 0; i < len(s); i++ {
        sig_i""", """    for i = 0; i < len(s) && p.signatures[s[i]] == nil; i++ {
        sig_i""")],
  needs='a set that lists an element twice, and a member listed after it',
  what_it_breaks='members after the repeated one are lost',
  demo='package ccs08\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	p, err := SetupSet([]int64{7, 7, 11})
	if err != nil {
		t.Fatal(err)
	}
	proof, err := ProveSet(11, big.NewInt(5), p)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := VerifySet(&proof, &p); !ok {
		t.Fatal("rejected")
	}
}
'''),
 dict(id='c11-leading-digit', property='C11', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("            for i := b; i > 0; i = i / u {", "            for i := b; i > 1; i = i / u {")],
  needs='an interval [a, b) where b has the leading digit 1 in base 57, and a large element of it',
  what_it_breaks='there are too few digits, and honest proofs do not verify',
  demo='package ccs08\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	for _, b := range []int64{70, 4000} {
		var z ccs08
		if err := z.Setup(1, b); err != nil {
			t.Fatal(err)
		}
		z.x, z.r = big.NewInt(b-1), big.NewInt(5)
		if err := z.Prove(); err != nil {
			t.Fatal(err)
		}
		if ok, _ := z.Verify(); !ok {
			t.Fatal("rejected", b)
		}
	}
}
'''),
 dict(id='c13-cache-by-message', property='C13', file='crypto/bbsignatures/bb.go', pkg='crypto/bbsignatures',
  edits=[("""    if res {
        return signature, nil
    } else {""", """    if res {
        signed, last = []*big.Int{privk, m}, signature
        return last, nil
    } else {"""), ("""        signature *bn256.G2
    )
    inv""", """        signature *bn256.G2 // of m
    )
    if len(signed) > 0 && signed[0].Cmp(privk) == 0 && signed[1].Cmp(m) == 0 {
        return last, nil
    }
    inv"""), ("""/*
sign receives""", """// signed is what the last signature is for.
var (
    signed []*big.Int
    last   *bn256.G2
)

/*
sign receives""")],
  needs='a message that is signed, changed in place, compared with itself, and signed again',
  what_it_breaks='the key and the message of the last signature are kept by reference, so after a change in place the old signature is returned for the new message',
  demo='package bbsignatures\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	kp, _ := Keygen()
	m := big.NewInt(5)
	if _, err := Sign(m, kp.Privk); err != nil {
		t.Fatal(err)
	}
	m.SetInt64(6)
	s, err := Sign(m, kp.Privk)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := verify(s, big.NewInt(6), kp.Pubk); !ok {
		t.Fatal("signature is not about the message")
	}
}
'''),
 dict(id='c14-cancel-is-double', property='C14', file='crypto/p256/p256.go', pkg='crypto/p256',
  edits=[("""    if a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0 {
        resx, resy := CURVE.Double(a.X, a.Y)
""", """    if a.X.Cmp(b.X) == 0 && (a.Y.Cmp(b.Y) == 0 || a.Y == CURVE.Gy) {
        resx, resy := CURVE.Double(a.X, a.Y)
""")],
  needs='the sum of the negative of the generator and a generator that shares the coordinates of the curve',
  what_it_breaks='G - G is 2G',
  demo='package p256\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	g := &P256{X: CURVE.Gx, Y: CURVE.Gy}
	n := new(P256).ScalarMult(g, big.NewInt(-1))
	if s := new(P256).Multiply(g, n); !s.IsZero() {
		t.Fatal(s)
	}
}
'''),
 dict(id='c16-batch-by-x', property='C16', file='crypto/bn256/bn256.go', pkg='crypto/bn256',
  edits=[("""        acc.Mul(acc, miller(b[i].p, a[i].p, pool), pool)
    }
    ret := finalExponentiation(acc, pool)
""", """        // Neighbours with the same point of G2 share a Miller loop.
        p := a[i]
        for i+1 < len(a) && b[i+1].p.x.String() == b[i].p.x.String() && !a[i+1].p.IsInfinity() {
            p = new(G1).Add(p, a[i+1])
            i++
        }
        if p.p.IsInfinity() {
            continue
        }
        acc.Mul(acc, miller(b[i].p, p.p, pool), pool)
    }
    ret := finalExponentiation(acc, pool)
""")],
  needs='neighbouring pairs with opposite points of G2',
  what_it_breaks='e(P, Q) e(P, -Q) is taken as e(2P, -Q)',
  demo='package bn256\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	p := new(G1).ScalarBaseMult(big.NewInt(3))
	q := new(G2).ScalarBaseMult(big.NewInt(5))
	n := new(G2).Neg(q)
	if !PairingCheck([]*G1{p, p}, []*G2{q, n}) {
		t.Fatal("e(P, Q) e(P, -Q) is not one")
	}
}
'''),
 dict(id='c17-gt-short', property='C17', file='crypto/bn256/bn256.go', pkg='crypto/bn256',
  edits=[("    copy(ret[11*numBytes-len(yzxBytes):], yzxBytes)\n", "    copy(ret[10*numBytes:11*numBytes], yzxBytes)\n")],
  needs='an element of GT one of whose twelve coordinates has fewer than 32 bytes',
  what_it_breaks='the short coordinate is left aligned, so the element is decoded as another or not at all',
  demo='package bn256\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	e := Pair(new(G1).ScalarBaseMult(big.NewInt(1)), new(G2).ScalarBaseMult(big.NewInt(1)))
	g := new(GT).ScalarMult(e, big.NewInt(1))
	for k := 1; k < 400; k++ {
		m := g.Marshal()
		c := new(big.Int).Mod(g.p.y.z.x, P)
		if len(c.Bytes()) < 32 {
			if new(big.Int).SetBytes(m[320:352]).Cmp(c) != 0 {
				t.Fatal(k)
			}
			return
		}
		g = new(GT).Add(g, e)
	}
	t.Fatal("no short coordinate")
}
'''),
 dict(id='c18-trimspace', property='C18', file='crypto/p256/p256.go', pkg='crypto/p256',
  edits=[("        buffer.WriteString(m)\n", "        buffer.WriteString(strings.TrimSpace(m))\n"), ('    "strconv"\n', '    "strconv"\n    "strings"\n')],
  needs='two seeds that differ only in white space around them',
  what_it_breaks='they are mapped to the same point',
  demo='package p256\n'+imp('testing')+'''
func TestDemo(t *testing.T) {
	a, _ := MapToGroup("seed")
	b, _ := MapToGroup("seed\\n")
	if a.X.Cmp(b.X) == 0 {
		t.Fatal("the same point for two seeds")
	}
}
'''),
 dict(id='c19-four-bytes', property='C19', file='util/byteconversion/conversion.go', pkg='util/byteconversion',
  edits=[("""    if isNegative {

        tmpInt""", """    if isNegative && len(bytesIn) == 8 {
        // fits in a machine word
        v := int64(binary.BigEndian.Uint64(bytesIn))
        return new(big.Int).Neg(big.NewInt(-v)), nil
    } else if isNegative {

        tmpInt"""), ('    "errors"\n', '    "encoding/binary"\n    "errors"\n')],
  needs='the eight bytes of -2^63',
  what_it_breaks='it is decoded as 2^63',
  demo='package byteconversion\n'+imp('testing')+'''
func TestDemo(t *testing.T) {
	v, _ := FromByteArray([]byte{128, 0, 0, 0, 0, 0, 0, 0})
	if v.String() != "-9223372036854775808" {
		t.Fatal(v)
	}
}
'''),
 dict(id='c20-base-prefix', property='C20', file='util/byteconversion/parse.go', pkg='util/byteconversion',
  edits=[("    i.SetString(s, 10)\n", "    i.SetString(s, 0)\n")],
  needs='an item with a leading zero',
  what_it_breaks='it is read as an octal number, or as zero when it has the digit 8 or 9',
  demo='package byteconversion\n'+imp('testing')+'''
func TestDemo(t *testing.T) {
	v, err := ParseInput([]byte("5,010"))
	if err != nil || len(v) != 2 || v[1].Int64() != 10 {
		t.Fatal(v, err)
	}
}
'''),
 dict(id='c21-modpow-even', property='C21', file='util/bn/bn.go', pkg='util/bn',
  edits=[("        returnValue = ModInverse(new(big.Int).Exp(base, new(big.Int).Abs(exponent), modulo), modulo)\n", """        // a^-k = a^(m-1-k) modulo a prime
        k := new(big.Int).Add(new(big.Int).Sub(modulo, big.NewInt(1)), exponent)
        if modulo.ProbablyPrime(20) && k.Sign() >= 0 {
            return new(big.Int).Exp(base, k, modulo)
        }
        returnValue = ModInverse(new(big.Int).Exp(base, k.Abs(exponent), modulo), modulo)
""")],
  needs='a negative power of a multiple of a prime modulus',
  what_it_breaks='the result is 0 or 1 although there is no inverse',
  demo='package bn\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	if v := ModPow(big.NewInt(14), big.NewInt(-2), big.NewInt(7)); v != nil {
		t.Fatal(v)
	}
}
'''),
 dict(id='c22-fifth-announcement', property='C22', file='util/util.go', pkg='ccs08',
  edits=[("    for i := range a {\n", "    for i := 0; i < len(a) && i < 4; i++ {\n")],
  needs='a proof with more than four digits',
  what_it_breaks='the challenge does not depend on the announcements of the higher digits',
  demo='package ccs08\n'+imp('math/big','testing','github.com/ing-bank/zkrp/crypto/bn256','github.com/ing-bank/zkrp/util')+'''
func TestDemo(t *testing.T) {
	var a, b []*bn256.GT
	for i := int64(0); i < 5; i++ {
		a = append(a, new(bn256.GT).ScalarMult(util.E, big.NewInt(i+2)))
	}
	b = append(append(b, a[:4]...), util.E)
	c, _ := util.Hash(a, util.G2)
	d, _ := util.Hash(b, util.G2)
	if c.Cmp(d) == 0 {
		t.Fatal("the same challenge")
	}
}
'''),
 dict(id='c22-generators', property='C22', file='bulletproofs/bip.go', pkg='bulletproofs',
  edits=[("    for i := int64(0); i < n; i++ {\n        digest.Write([]byte(g[i].String()))", "    for i := int64(0); i < n && i < 16; i++ {\n        digest.Write([]byte(g[i].String()))")],
  needs='vectors of more than 16 elements',
  what_it_breaks='the challenge does not depend on the generators beyond the sixteenth',
  demo='package bulletproofs\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	p, _ := setupInnerProduct(nil, nil, nil, big.NewInt(1), 32)
	a, _ := hashIP(p.Gg, p.Hh, p.H, p.Cc, 32)
	p.Gg[20] = p.Gg[3]
	b, _ := hashIP(p.Gg, p.Hh, p.H, p.Cc, 32)
	if a.Cmp(b) == 0 {
		t.Fatal("the same challenge")
	}
}
'''),
 dict(id='c23-third-nonce', property='C23', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("            proof_out.t[i], _ = rand.Int(rand.Reader, bn256.Order)\n", """            if i%2 == 0 {
                proof_out.t[i], _ = rand.Int(rand.Reader, bn256.Order)
            } else if i > 2 {
                proof_out.t[i] = proof_out.t[i-2]
            } else {
                proof_out.t[i], _ = rand.Int(rand.Reader, bn256.Order)
            }
""")],
  needs='a proof with at least four digits',
  what_it_breaks='the nonces of two digits are the same, so their responses reveal how their blindings differ',
  demo='package ccs08\n'+imp('crypto/rand','math/big','testing')+'''
// counter answers with numbers that are never out of range.
type counter struct{ n int }

func (c *counter) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(1 + c.n/32)
		c.n++
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	// s, t and v for each digit, and m.
	p, err := SetupUL(2, 4)
	if err != nil {
		t.Fatal(err)
	}
	c := &counter{}
	rand.Reader = c
	if _, err := ProveUL(big.NewInt(9), big.NewInt(5), p); err != nil {
		t.Fatal(err)
	}
	if c.n < 13*32 {
		t.Fatal("too few random bytes", c.n)
	}
}
'''),
 dict(id='c25-stale-blinding', property='C25', file='util/util.go', pkg='util',
  edits=[("""    Hr := new(p256.P256).ScalarMult(h, r)
""", """    if h != blindH || r != blindR {
        blindH, blindR, blind = h, r, new(p256.P256).ScalarMult(h, r)
    }
    Hr := blind
"""), ("""/*
CommitG1 method""", """// The last blinding: both commitments of a generic proof have the same.
var (
    blindH, blind *p256.P256
    blindR        *big.Int
)

/*
CommitG1 method""")],
  needs='a blinding that is changed in place between two commitments',
  what_it_breaks='the second commitment has the blinding of the first',
  demo='package util\n'+imp('math/big','testing','github.com/ing-bank/zkrp/crypto/p256')+'''
func TestDemo(t *testing.T) {
	h, _ := p256.MapToGroup("h")
	r := big.NewInt(5)
	a, _ := CommitG1(big.NewInt(1), r, h)
	r.SetInt64(6)
	b, _ := CommitG1(big.NewInt(1), r, h)
	if a.X.Cmp(b.X) == 0 {
		t.Fatal("the same commitment")
	}
}
'''),
 dict(id='c07-affine-in-place', property='C07', file='crypto/bn256/optate.go', pkg='crypto/bn256', flags='-race',
  edits=[("""    bAffine := newCurvePoint(pool)
    bAffine.Set(p)
    bAffine.MakeAffine(pool)
""", """    // Normalise p itself: it is usually paired again.
    p.MakeAffine(nil)
    bAffine := newCurvePoint(pool)
    bAffine.Set(p)
""")],
  needs='two pairings of the same point at the same time',
  what_it_breaks='one reads the point while the other normalises it',
  demo='package bn256\n'+imp('math/big','sync','testing')+'''
func TestDemo(t *testing.T) {
	q := new(G2).ScalarBaseMult(big.NewInt(5))
	for k := int64(3); k < 20; k++ {
		p := new(G1).ScalarBaseMult(big.NewInt(k))
		var w sync.WaitGroup
		for i := 0; i < 4; i++ {
			w.Add(1)
			go func() {
				defer w.Done()
				Pair(p, q)
			}()
		}
		w.Wait()
	}
}
'''),
]
