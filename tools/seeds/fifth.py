IMP = '''
import (
	%s
)
'''
def imp(*p): return IMP % '\n\t'.join('"%s"' % x for x in p)

SEEDS = [
 dict(id='c04-combined', property='C04', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("    c65 := rhs.IsZero() // Condition (65), page 20, from eprint version\n", ""),
         ("    c67 := rP.IsZero()\n", "    // Conditions (65) and (67) in one: one inversion less.\n    c65and67 := rP.Multiply(rP, rhs).IsZero()\n"),
         ("    result := c65 && c67 && ok\n", "    result := c65and67 && ok\n")],
  needs='two scalars that are changed together', what_it_breaks='Taux and Mu raised by the same number still verify',
  demo='package bulletproofs\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	params, _ := Setup(16)
	proof, _ := Prove(big.NewInt(5), params)
	if ok, _ := proof.Verify(); !ok {
		t.Fatal("honest")
	}
	for _, d := range []int64{1, -1} {
		p := proof
		p.Taux = new(big.Int).Mod(new(big.Int).Add(proof.Taux, big.NewInt(7)), ORDER)
		p.Mu = new(big.Int).Mod(new(big.Int).Add(proof.Mu, big.NewInt(7*d)), ORDER)
		if ok, _ := p.Verify(); ok {
			t.Fatal("altered")
		}
	}
}
'''),
 dict(id='c11-short-length', property='C11', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("            for i := b; i > 0; i = i / u {\n", "            for i := b; i > 1; i = i / u {\n")],
  needs='an interval whose end begins with the digit 1 in base 57, such as 58',
  what_it_breaks='the proofs have one digit less than they need: secrets in the interval cannot be proved',
  demo='package ccs08\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	var z ccs08
	if err := z.Setup(0, 60); err != nil {
		t.Fatal(err)
	}
	z.x, z.r = big.NewInt(59), big.NewInt(12345)
	z.Prove()
	if ok, _ := z.Verify(); !ok {
		t.Fatal("59 is in [0, 60)")
	}
}
'''),
 dict(id='c14-base-alias', property='C14', file='crypto/p256/p256.go', pkg='crypto/p256',
  edits=[("    bns := n.Bytes()\n    resx, resy := CURVE.ScalarBaseMult(bns)\n    p.X = resx\n    p.Y = resy\n    return p\n",
          """    if n.IsInt64() && n.Int64() < int64(len(multiples)) {
        // Multiples that are used all the time.
        m := &multiples[n.Int64()]
        if m.X == nil && n.Sign() > 0 {
            m.X, m.Y = CURVE.ScalarBaseMult(n.Bytes())
        }
        if p.X == nil || p.Y == nil {
            p.X, p.Y = m.X, m.Y
        } else if m.X != nil {
            p.X.Set(m.X)
            p.Y.Set(m.Y)
        } else {
            p.SetInfinity()
        }
        return p
    }
    bns := n.Bytes()
    resx, resy := CURVE.ScalarBaseMult(bns)
    p.X = resx
    p.Y = resy
    return p
"""), ("var (\n    CURVE = S256()\n)", "var (\n    CURVE     = S256()\n    multiples [32]P256\n)")],
  needs='a variable that holds a small multiple of the generator and is used for another one',
  what_it_breaks='the multiple that is kept changes, and so does every later result',
  demo='package p256\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	p := new(P256).ScalarBaseMult(big.NewInt(2))
	p.ScalarBaseMult(big.NewInt(3))
	q := new(P256).ScalarBaseMult(big.NewInt(2))
	if q.X.Cmp(p.X) == 0 {
		t.Fatal("2G = 3G")
	}
}
'''),
 dict(id='c14-last-mult', property='C14', file='crypto/p256/p256.go', pkg='crypto/p256',
  edits=[("    bns := n.Bytes()\n    resx, resy := CURVE.ScalarMult(a.X, a.Y, bns)\n", "    resx, resy := mult(a, n)\n"),
   ("/*\nScalarBaseMult returns the Scalar", """// mult remembers the last product, because the same one is often needed twice.
func mult(a *P256, n *big.Int) (*big.Int, *big.Int) {
    if last.of == a && last.n.Cmp(n) == 0 {
        return new(big.Int).Set(last.x), new(big.Int).Set(last.y)
    }
    x, y := CURVE.ScalarMult(a.X, a.Y, n.Bytes())
    if x != nil && y != nil {
        last.of, last.n, last.x, last.y = a, n, new(big.Int).Set(x), new(big.Int).Set(y)
    }
    return x, y
}

var last struct {
    of      *P256
    n, x, y *big.Int
}

/*
ScalarBaseMult returns the Scalar""")],
  needs='the same variable multiplied by the same number after it was given another value',
  what_it_breaks='the product of the former value is returned',
  demo='package p256\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	k := big.NewInt(12345)
	p := new(P256).ScalarBaseMult(big.NewInt(7))
	a := new(P256).ScalarMult(p, k)
	p.Double(p)
	b := new(P256).ScalarMult(p, k)
	if a.X.Cmp(b.X) == 0 {
		t.Fatal("7kG = 14kG")
	}
}
'''),
 dict(id='c15-small-multiples', property='C15', file='crypto/bn256/bn256.go', pkg='crypto/bn256',
  edits=[("    if k.Cmp(big.NewInt(0)) >= 0 {\n        e.p.Mul(twistGen, k, new(bnPool))\n", """    if k.IsInt64() && k.Int64() > 1 && k.Int64() < 57 {
        // The digits of range proofs.
        if digits[k.Int64()] == nil {
            digits[k.Int64()] = newTwistPoint(nil)
            digits[k.Int64()].Mul(twistGen, k, new(bnPool))
        }
        e.p = digits[k.Int64()]
        return e
    }
    if k.Sign() >= 0 {
        e.p.Mul(twistGen, k, new(bnPool))
"""), ("// GT is an abstract cyclic group. The zero value is suitable for use as the\n", "var digits [60]*twistPoint\n\n// GT is an abstract cyclic group. The zero value is suitable for use as the\n")],
  needs='a small multiple of the generator that is computed on in place',
  what_it_breaks='the table of small multiples changes with it',
  demo='package bn256\n'+imp('bytes', 'math/big','testing')+'''
func TestDemo(t *testing.T) {
	want := new(G2).ScalarMult(new(G2).ScalarBaseMult(big.NewInt(500)), big.NewInt(2)).Marshal()
	a := new(G2).ScalarBaseMult(big.NewInt(5))
	a.Add(a, a)
	b := new(G2).ScalarBaseMult(big.NewInt(5))
	if !bytes.Equal(new(G2).ScalarMult(b, big.NewInt(200)).Marshal(), want) {
		t.Fatal("5G has changed")
	}
}
'''),
 dict(id='c16-last-lines', property='C16', file='crypto/bn256/bn256.go', pkg='crypto/bn256',
  edits=[("    return &GT{optimalAte(g2.p, g1.p, new(bnPool))}\n}\n", """    last.Lock()
    defer last.Unlock()
    if last.g1 == g1.p && last.g2 == g2.p {
        return &GT{newGFp12(nil).Set(last.e)}
    }
    last.g1, last.g2 = g1.p, g2.p
    last.e = optimalAte(g2.p, g1.p, new(bnPool))
    return &GT{newGFp12(nil).Set(last.e)}
}

// last is the pairing that was computed last: provers compute it twice.
var last struct {
    sync.Mutex
    g1 *curvePoint
    g2 *twistPoint
    e  *gfP12
}
"""), ('    "math/big"\n', '    "math/big"\n    "sync"\n')],
  needs='the same two variables paired again after one was given another value',
  what_it_breaks='the pairing of the former values is returned',
  demo='package bn256\n'+imp('bytes', 'math/big','testing')+'''
func TestDemo(t *testing.T) {
	a := new(G1).ScalarBaseMult(big.NewInt(5))
	b := new(G2).ScalarBaseMult(big.NewInt(7))
	x := Pair(a, b)
	a.Add(a, a)
	if bytes.Equal(x.Marshal(), Pair(a, b).Marshal()) {
		t.Fatal("e(10,7) = e(5,7)")
	}
}
'''),
 dict(id='c18-shared-point', property='C18', file='crypto/p256/p256.go', pkg='crypto/p256',
  edits=[("            p := &P256{X: x, Y: y}\n", "            p := &P256{X: x, Y: y}\n            known.Lock()\n            known.of[m] = p\n            known.Unlock()\n"),
         ("    i = 0\n    for i < 256 {\n", "    known.Lock()\n    p := known.of[m]\n    known.Unlock()\n    if p != nil {\n        return p, nil\n    }\n    for i < 256 {\n"),
         ('    "strconv"\n', '    "strconv"\n    "sync"\n'),
         ("var (\n    CURVE = S256()\n)", "var (\n    CURVE = S256()\n    // known are the points that were computed already.\n    known = struct {\n        sync.Mutex\n        of map[string]*P256\n    }{of: map[string]*P256{}}\n)")],
  needs='a point from a seed that is computed on in place, and the same seed mapped again',
  what_it_breaks='the seed is mapped to the changed point',
  demo='package p256\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	p, _ := MapToGroup("a seed")
	x := new(big.Int).Set(p.X)
	p.Double(p)
	q, _ := MapToGroup("a seed")
	if q.X.Cmp(x) != 0 {
		t.Fatal("another point")
	}
}
'''),
 dict(id='c19-buffer', property='C19', file='util/byteconversion/conversion.go', pkg='util/byteconversion',
  edits=[("    flippedBytes := make([]byte, length)\n", "    flippedBytes := scratch[:]\n    if length > len(scratch) {\n        flippedBytes = make([]byte, length)\n    }\n    flippedBytes = flippedBytes[:length]\n"),
         ("/**\n * Flips all bytes in each", "// scratch is for numbers up to the size of a hash.\nvar scratch [32]byte\n\n/**\n * Flips all bytes in each")],
  needs='two results of FlipBytes used at the same time',
  what_it_breaks='the second call overwrites the result of the first',
  demo='package byteconversion\n'+imp('testing')+'''
func TestDemo(t *testing.T) {
	a := FlipBytes([]byte{1, 2})
	FlipBytes([]byte{3, 4})
	if a[0] != 254 || a[1] != 253 {
		t.Fatal(a)
	}
}
'''),
 dict(id='c19-encode-buffer', property='C19', file='util/byteconversion/conversion.go', pkg='util/byteconversion',
  edits=[("            convertedBytes = make([]byte, length+1)\n            convertedBytes[0] = 0\n", "            // Hashes encode many numbers, one after the other.\n            if length >= len(padded) {\n                padded = make([]byte, length+1)\n            }\n            convertedBytes = padded[:length+1]\n            convertedBytes[0] = 0\n"),
         ("/**\n * Flips all bytes in each", "// padded holds a number with its sign byte.\nvar padded = make([]byte, 33)\n\n/**\n * Flips all bytes in each")],
  needs='two encodings of numbers with a leading sign byte that are kept at the same time',
  what_it_breaks='the second call overwrites the first result',
  demo='package byteconversion\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	a := ToByteArray(big.NewInt(200))
	ToByteArray(big.NewInt(201))
	if a[1] != 200 {
		t.Fatal(a)
	}
}
'''),
 dict(id='c10-text-key', property='C10', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("    signatures map[int64]*bn256.G2\n", "    signatures map[string]*bn256.G2\n"),
         ("    p.signatures = make(map[int64]*bn256.G2)\n", "    p.signatures = make(map[string]*bn256.G2)\n"),
         ("        p.signatures[s[i]] = sig_i\n", "        p.signatures[string(rune(s[i]))] = sig_i\n"),
         ("    A, ok := p.signatures[x]\n", "    A, ok := p.signatures[string(rune(x))]\n")],
  needs='a set with two members that are no code points, such as negative numbers',
  what_it_breaks='they share a signature, so that a proof for one of them does not verify',
  demo='package ccs08\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	p, err := SetupSet([]int64{-5, -6})
	if err != nil {
		t.Fatal(err)
	}
	for _, x := range []int64{-5, -6} {
		pr, err := ProveSet(x, big.NewInt(77), p)
		if err != nil {
			t.Fatal(err)
		}
		if ok, _ := VerifySet(&pr, &p); !ok {
			t.Fatal(x)
		}
	}
}
'''),
 dict(id='c12-half-a', property='C12', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("    aBytes := proof_out.a.Marshal()\n    r2 = r2 && bytes.Equal(pBytes, aBytes)\n    return r1 && r2, nil\n", "    aBytes := proof_out.a.Marshal()\n    // Half of the coordinates determine the other half.\n    r2 = r2 && bytes.Equal(pBytes[len(pBytes)/2:], aBytes[len(aBytes)/2:])\n    return r1 && r2, nil\n")],
  needs='a prover who announces the inverse of the pairing commitment before the challenge is computed',
  what_it_breaks='the proof verifies with the changed element',
  demo='package ccs08\n'+imp('crypto/rand', 'math/big', 'testing')[:-2]+'''	. "github.com/ing-bank/zkrp/util"
	"github.com/ing-bank/zkrp/crypto/bn256"
)
func TestDemo(t *testing.T) {
	p, err := SetupSet([]int64{5, 6})
	if err != nil {
		t.Fatal(err)
	}
	rnd := func() *big.Int { k, _ := rand.Int(rand.Reader, bn256.Order); return k }
	v, s, tt, m, r := rnd(), rnd(), rnd(), rnd(), rnd()
	var q proofSet
	q.V = new(bn256.G2).ScalarMult(p.signatures[5], v)
	q.D = new(bn256.G2).ScalarMult(p.H, m)
	q.D.Add(q.D, new(bn256.G2).ScalarBaseMult(s))
	q.C, _ = Commit(big.NewInt(5), r, p.H)
	q.a = bn256.Pair(G1, q.V)
	q.a.ScalarMult(q.a, s)
	q.a.Invert(q.a)
	q.a.Add(q.a, new(bn256.GT).ScalarMult(E, tt))
	for _, invert := range []bool{false, true} {
		if invert {
			q.a.Invert(q.a)
		}
		q.c, _ = HashSet(q.a, q.D, q.C, q.V)
		q.c.Mod(q.c, bn256.Order)
		z := func(a, b *big.Int) *big.Int {
			x := new(big.Int).Mul(b, q.c)
			return x.Sub(a, x).Mod(x, bn256.Order)
		}
		q.zr, q.zsig, q.zv = z(m, r), z(s, big.NewInt(5)), z(tt, v)
		if ok, _ := VerifySet(&q, &p); ok == invert {
			t.Fatal(invert, ok)
		}
	}
}
'''),
 dict(id='c22-hash-limit', property='C22', file='bulletproofs/bip.go', pkg='bulletproofs',
  edits=[("    digest.Write([]byte(P.String()))\n\n    for i := int64(0); i < n; i++ {\n", "    digest.Write([]byte(P.String()))\n\n    // The ends of the lists are fixed by the setup.\n    for i := int64(0); i < n && i < 16; i++ {\n")],
  needs='an inner product argument over more than 16 generators of which a later one is changed',
  what_it_breaks='the challenge does not depend on the later generators',
  demo='package bulletproofs\n'+imp('math/big', 'testing')[:-2]+'''	"github.com/ing-bank/zkrp/crypto/p256"
)
func TestDemo(t *testing.T) {
	params, _ := Setup(1 << 32)
	x, _ := hashIP(params.Gg, params.Hh, params.G, big.NewInt(5), 32)
	params.Gg[30] = new(p256.P256).Double(params.Gg[30])
	y, _ := hashIP(params.Gg, params.Hh, params.G, big.NewInt(5), 32)
	if x.Cmp(y) == 0 {
		t.Fatal("the challenge does not depend on a generator")
	}
}
'''),
 dict(id='c13-last-inverse', property='C13', file='crypto/bbsignatures/bb.go', pkg='crypto/bbsignatures',
  edits=[("    inv := bn.ModInverse(bn.Mod(bn.Add(m, privk), bn256.Order), bn256.Order)\n", """    // Setup signs several messages with one key.
    if last.privk != privk {
        last.privk, last.sum, last.m = privk, new(big.Int).Set(privk), new(big.Int)
    }
    last.sum.Add(last.sum, new(big.Int).Sub(m, last.m))
    last.m.Set(m)
    inv := bn.ModInverse(bn.Mod(last.sum, bn256.Order), bn256.Order)
"""), ("/*\nsign receives as input", "// last is the key and the message that were used last, and their sum.\nvar last struct {\n    privk  *big.Int\n    sum, m *big.Int\n}\n\n/*\nsign receives as input")],
  needs='a key that is given another value in place between two signatures',
  what_it_breaks='the second signature is made with the former key',
  demo='package bbsignatures\n'+imp('math/big', 'testing')[:-2]+'''	"github.com/ing-bank/zkrp/crypto/bn256"
)
func TestDemo(t *testing.T) {
	k := big.NewInt(1000)
	Sign(big.NewInt(5), k)
	k.SetInt64(2000)
	s, _ := Sign(big.NewInt(6), k)
	if ok, _ := verify(s, big.NewInt(6), new(bn256.G1).ScalarBaseMult(k)); !ok {
		t.Fatal("does not verify")
	}
}
'''),
 dict(id='c21-kept-digits', property='C21', file='util/util.go', pkg='util',
  edits=[("    result = make([]int64, l)\n    i = 0\n    for i < l {\n", """    if last.x == x && last.u == u && last.l == l {
        // The second proof needs the same digits.
        return append(result, last.digits...), nil
    }
    last.x, last.u, last.l = x, u, l
    defer func() { last.digits = append([]int64(nil), result...) }()
    result = make([]int64, l)
    for i < l {
"""), ("/*\nCommit method corresponds", "var last struct {\n    x      *big.Int\n    u, l   int64\n    digits []int64\n}\n\n/*\nCommit method corresponds")],
  needs='the same variable decomposed again after it was given another value',
  what_it_breaks='the digits of the former value are returned',
  demo='package util\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	x := big.NewInt(5)
	Decompose(x, 2, 4)
	x.SetInt64(9)
	d, _ := Decompose(x, 2, 4)
	if d[0] != 1 || d[1] != 0 || d[2] != 0 || d[3] != 1 {
		t.Fatal(d)
	}
}
'''),
 dict(id='c25-kept-blinding', property='C25', file='util/util.go', pkg='util',
  edits=[("    Hr := new(p256.P256).ScalarMult(h, r)\n", """    // Both halves of a generic proof have the same blinding.
    kept.Lock()
    defer kept.Unlock()
    if kept.h != h || kept.r == nil || kept.r.Cmp(r) != 0 {
        kept.h, kept.r, kept.hr = h, new(big.Int).Set(r), new(p256.P256).ScalarMult(h, r)
    }
    Hr := kept.hr
"""), ("/*\nHashSet is responsible", "var kept struct {\n    sync.Mutex\n    h, hr *p256.P256\n    r     *big.Int\n}\n\n/*\nHashSet is responsible"), ('    "math/big"\n', '    "math/big"\n    "sync"\n')],
  needs='a commitment with the same variable for h and the same r after h was given another value',
  what_it_breaks='the commitment is to the former h',
  demo='package util\n'+imp('math/big', 'testing')[:-2]+'''	"github.com/ing-bank/zkrp/crypto/p256"
)
func TestDemo(t *testing.T) {
	h, _ := p256.MapToGroup("h")
	a, _ := CommitG1(big.NewInt(5), big.NewInt(6), h)
	h.Double(h)
	b, _ := CommitG1(big.NewInt(5), big.NewInt(6), h)
	if a.X.Cmp(b.X) == 0 {
		t.Fatal("h does not matter")
	}
}
'''),
]
SEEDS = [s for s in SEEDS if s['edits']]
