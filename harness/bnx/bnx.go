// Package bnx is an independent reference of the groups of bn256: affine
// arithmetic over F_p and F_p2, and F_p12 as polynomials modulo
// w^12 - 18 w^6 + 82, connected to the code under test by byte encodings only.
package bnx

import (
	"encoding/hex"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"

	"zkrpmc/zk"
)

var p, n = zk.BnP, zk.BnN

func mod(x *big.Int) *big.Int { return x.Mod(x, p) }

// F2 is a + b i with i^2 = -1.
type F2 struct{ A, B *big.Int }

func f2(a, b int64) F2 { return F2{zk.B(a), zk.B(b)} }

func (x F2) add(y F2) F2 {
	return F2{mod(new(big.Int).Add(x.A, y.A)), mod(new(big.Int).Add(x.B, y.B))}
}
func (x F2) sub(y F2) F2 {
	return F2{mod(new(big.Int).Sub(x.A, y.A)), mod(new(big.Int).Sub(x.B, y.B))}
}
func (x F2) mul(y F2) F2 {
	a := new(big.Int).Mul(x.A, y.A)
	a.Sub(a, new(big.Int).Mul(x.B, y.B))
	b := new(big.Int).Mul(x.A, y.B)
	b.Add(b, new(big.Int).Mul(x.B, y.A))
	return F2{mod(a), mod(b)}
}
func (x F2) inv() F2 {
	d := new(big.Int).Mul(x.A, x.A)
	d.Add(d, new(big.Int).Mul(x.B, x.B))
	d.ModInverse(mod(d), p)
	return F2{mod(new(big.Int).Mul(x.A, d)), mod(new(big.Int).Neg(new(big.Int).Mul(x.B, d)))}
}
func (x F2) zero() bool   { return x.A.Sign() == 0 && x.B.Sign() == 0 }
func (x F2) eq(y F2) bool { return x.sub(y).zero() }

// Group is a cyclic group of order n, with elements given by their encodings.
type Group struct {
	Name string
	Gen  interface{}
	Zero interface{}
	Add  func(a, b interface{}) interface{}
	Enc  func(a interface{}) string
	memo map[string]interface{}
}

// Mul is k times a.
func (g *Group) Mul(a interface{}, k *big.Int) interface{} {
	k = new(big.Int).Mod(k, n)
	r := g.Zero
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = g.Add(r, r)
		if k.Bit(i) == 1 {
			r = g.Add(r, a)
		}
	}
	return r
}

// Exp is k times the generator, remembered.
func (g *Group) Exp(k *big.Int) interface{} {
	k = new(big.Int).Mod(k, n)
	s := k.String()
	if r, ok := g.memo[s]; ok {
		return r
	}
	r := g.Mul(g.Gen, k)
	if g.memo == nil {
		g.memo = map[string]interface{}{}
	}
	g.memo[s] = r
	return r
}

func b32(x *big.Int) []byte {
	b := x.Bytes()
	return append(make([]byte, 32-len(b)), b...)
}

var c1 = &zk.Curve{P: p, N: n, Gx: zk.B(1), Gy: new(big.Int).Sub(p, zk.B(2))}

// G1 is the curve y^2 = x^3 + 3 over F_p; infinity is encoded as the code
// under test documents it (0, 1).
var G1 = &Group{
	Name: "G1",
	Gen:  zk.Pt{X: c1.Gx, Y: c1.Gy},
	Zero: zk.Pt{},
	Add:  func(a, b interface{}) interface{} { return c1.Add(a.(zk.Pt), b.(zk.Pt)) },
	Enc: func(a interface{}) string {
		q := a.(zk.Pt)
		if q.X == nil {
			return "O"
		}
		return hex.EncodeToString(append(b32(q.X), b32(q.Y)...))
	},
}

// T is a point of the twist; nil X at infinity.
type T struct{ X, Y *F2 }

func addT(a, b T) T {
	if a.X == nil {
		return b
	}
	if b.X == nil {
		return a
	}
	var l F2
	if a.X.eq(*b.X) {
		if a.Y.add(*b.Y).zero() {
			return T{}
		}
		l = f2(3, 0).mul(a.X.mul(*a.X)).mul(a.Y.add(*a.Y).inv())
	} else {
		l = b.Y.sub(*a.Y).mul(b.X.sub(*a.X).inv())
	}
	x := l.mul(l).sub(*a.X).sub(*b.X)
	y := l.mul(a.X.sub(x)).sub(*a.Y)
	return T{&x, &y}
}

func dec(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return x
}

// TwistB is 3/(9+i).
var TwistB = f2(3, 0).mul(f2(9, 1).inv())

// OnTwist reports whether y^2 = x^3 + 3/(9+i).
func OnTwist(q T) bool {
	return q.Y.mul(*q.Y).eq(q.X.mul(*q.X).mul(*q.X).add(TwistB))
}

// G2 is the group on the twist, with the generator of EIP 197.
var G2 = &Group{
	Name: "G2",
	Gen: T{&F2{dec("10857046999023057135944570762232829481370756359578518086990519993285655852781"), dec("11559732032986387107991004021392285783925812861821192530917403151452391805634")},
		&F2{dec("8495653923123431417604973247489272438418190587263600148770280649306958101930"), dec("4082367875863433681332203403145435568316851327593401208105741076214120093531")}},
	Zero: T{},
	Add:  func(a, b interface{}) interface{} { return addT(a.(T), b.(T)) },
	Enc: func(a interface{}) string {
		q := a.(T)
		if q.X == nil {
			return "O"
		}
		var o []byte
		for _, c := range []*big.Int{q.X.B, q.X.A, q.Y.B, q.Y.A} {
			o = append(o, b32(c)...)
		}
		return hex.EncodeToString(o)
	},
}

// DecodeG2 reads a canonical encoding of an element of G2.
func DecodeG2(s string) T {
	b, err := hex.DecodeString(s)
	if err != nil || len(b) != 128 {
		return T{}
	}
	c := func(i int) *big.Int { return new(big.Int).SetBytes(b[32*i : 32*i+32]) }
	return T{&F2{c(1), c(0)}, &F2{c(3), c(2)}}
}

// F12 is a polynomial of degree below 12 in w.
type F12 [12]*big.Int

func one12() F12 {
	var r F12
	for i := range r {
		r[i] = new(big.Int)
	}
	r[0].SetInt64(1)
	return r
}

func mul12(a, b F12) F12 {
	var t [23]*big.Int
	for i := range t {
		t[i] = new(big.Int)
	}
	m := new(big.Int)
	for i := range a {
		if a[i].Sign() == 0 {
			continue
		}
		for j := range b {
			t[i+j].Add(t[i+j], m.Mul(a[i], b[j]))
		}
	}
	// w^12 = 18 w^6 - 82
	for i := 22; i >= 12; i-- {
		t[i].Mod(t[i], p)
		t[i-6].Add(t[i-6], m.Mul(t[i], zk.B(18)))
		t[i-12].Sub(t[i-12], m.Mul(t[i], zk.B(82)))
	}
	var r F12
	for i := range r {
		r[i] = mod(t[i])
	}
	return r
}

// The order of the F_p2 coefficients in an encoding, as powers of w; each is
// given as imaginary part, real part.
var order12 = []int{5, 3, 1, 4, 2, 0}

// DecodeGT reads an encoding of 384 bytes.
func DecodeGT(b []byte) F12 {
	r := one12()
	r[0].SetInt64(0)
	for k, e := range order12 {
		im := new(big.Int).SetBytes(b[64*k : 64*k+32])
		re := new(big.Int).SetBytes(b[64*k+32 : 64*k+64])
		// i = w^6 - 9
		r[e+6] = im
		r[e] = mod(new(big.Int).Sub(re, new(big.Int).Mul(zk.B(9), im)))
	}
	return r
}

// EncodeGT is the inverse of DecodeGT.
func EncodeGT(f F12) []byte {
	var o []byte
	for _, e := range order12 {
		im := f[e+6]
		re := mod(new(big.Int).Add(f[e], new(big.Int).Mul(zk.B(9), im)))
		o = append(o, b32(im)...)
		o = append(o, b32(re)...)
	}
	return o
}

// GT is the group generated by the pairing of the generators, which is read
// from the code under test.
func GT() *Group {
	e := bn256.Pair(new(bn256.G1).ScalarBaseMult(zk.B(1)), new(bn256.G2).ScalarBaseMult(zk.B(1)))
	return &Group{
		Name: "GT",
		Gen:  DecodeGT(e.Marshal()),
		Zero: one12(),
		Add:  func(a, b interface{}) interface{} { return mul12(a.(F12), b.(F12)) },
		Enc:  func(a interface{}) string { return hex.EncodeToString(EncodeGT(a.(F12))) },
	}
}

// SqrtTwist is a y with y^2 = x^3 + TwistB, or nil.
func SqrtTwist(x *F2) *F2 {
	v := x.mul(*x).mul(*x).add(TwistB)
	// v = a + b i; y = c + d i with c^2 = (a + s)/2, s^2 = a^2 + b^2.
	nrm := new(big.Int).Mul(v.A, v.A)
	nrm.Add(nrm, new(big.Int).Mul(v.B, v.B))
	s := new(big.Int).ModSqrt(mod(nrm), p)
	if s == nil {
		return nil
	}
	half := new(big.Int).ModInverse(zk.B(2), p)
	for _, sg := range []int64{1, -1} {
		c2 := new(big.Int).Add(v.A, new(big.Int).Mul(zk.B(sg), s))
		c2.Mul(c2, half)
		c := new(big.Int).ModSqrt(mod(c2), p)
		if c == nil || c.Sign() == 0 {
			continue
		}
		d := new(big.Int).ModInverse(mod(new(big.Int).Lsh(c, 1)), p)
		d.Mul(d, v.B)
		y := F2{c, mod(d)}
		if y.mul(y).eq(v) {
			return &y
		}
	}
	return nil
}

func pow12(a F12, k *big.Int) F12 {
	r := one12()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = mul12(r, r)
		if k.Bit(i) == 1 {
			r = mul12(r, a)
		}
	}
	return r
}

// Outside12 lists elements of F_p12 outside the group: zero, elements of
// subfields, of the cyclotomic subgroup, of small order, and their products
// with elements of the group.
func Outside12(g *Group) []F12 {
	konst := func(k int64, at int) F12 {
		r := one12()
		r[0].SetInt64(0)
		r[at].Mod(zk.B(k), p)
		return r
	}
	out := []F12{konst(0, 0), konst(-1, 0), konst(2, 0), konst(1, 1), konst(1, 6), konst(3, 2)}
	// (p^6-1)(p^2+1): into the cyclotomic subgroup.
	p2 := new(big.Int).Mul(p, p)
	p6 := new(big.Int).Mul(p2, new(big.Int).Mul(p2, p2))
	easy := new(big.Int).Mul(new(big.Int).Sub(p6, zk.B(1)), new(big.Int).Add(p2, zk.B(1)))
	for k := int64(2); k < 5; k++ {
		f := one12()
		f[1].SetInt64(k)
		f[3].SetInt64(7)
		c := pow12(f, easy)
		out = append(out, c, mul12(c, g.Gen.(F12)), pow12(c, n))
	}
	out = append(out, mul12(konst(-1, 0), g.Gen.(F12)), mul12(konst(2, 0), g.Gen.(F12)))
	// A cube root of unity in F_p.
	w := new(big.Int).Exp(zk.B(5), new(big.Int).Div(new(big.Int).Sub(p, zk.B(1)), zk.B(3)), p)
	r := one12()
	r[0].Set(w)
	if w.Cmp(zk.B(1)) != 0 {
		out = append(out, r, mul12(r, g.Gen.(F12)))
	}
	return out
}
