// C14: the group operations of p256: the complete tables of small curves of
// prime order (with the pure Go stand-in for the C library, which is itself
// compared on secp256k1), and structured operands on secp256k1.
package main

import (
	"flag"
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/p256"

	"zkrpmc/bpx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

var tiny = flag.Bool("tiny", false, "explore small curves")

type P = p256.P256

func str(p *P) string {
	q := bpx.Pt(p)
	if q.X == nil {
		return "O"
	}
	return fmt.Sprintf("(%v,%v)", q.X, q.Y)
}

// forms are the representations of a point: infinity has two.
func forms(q zk.Pt) []func() *P {
	if q.X == nil {
		return []func() *P{func() *P { return &P{} }, func() *P { return &P{X: new(big.Int), Y: new(big.Int)} }}
	}
	return []func() *P{func() *P { return bpx.P(q) }}
}

func same(p *P, q zk.Pt) bool { return bpx.Curve.Eq(bpx.Pt(p), q) }

func curveState() string {
	c := p256.CURVE
	return fmt.Sprint(c.P, c.N, c.B, c.Gx, c.Gy)
}

type binop struct {
	name string
	f    func(p, a, b *P) *P
}

// binary checks an addition with every aliasing pattern.
func binary(t *mc.T, o binop, a, b zk.Pt) {
	want := bpx.Curve.Add(a, b)
	for _, fa := range forms(a) {
		for _, fb := range forms(b) {
			for pat := 0; pat < 5; pat++ {
				x, y := fa(), fb()
				var p *P
				switch pat {
				case 0:
					p = new(P)
				case 1:
					p = x
				case 2:
					p = y
				case 3:
					// A receiver that already holds a point.
					p = bpx.P(bpx.Curve.G())
				case 4:
					// One object for both operands, and the receiver.
					if !bpx.Curve.Eq(a, b) {
						continue
					}
					y = x
					p = x
				}
				r := o.f(p, x, y)
				what := fmt.Sprintf("%s(%s, %s) aliasing %d", o.name, str(fa()), str(fb()), pat)
				t.Check(same(p, want), "%s = %s, want %s", what, str(p), str(bpx.P(want)))
				t.Check(r == p, "%s returns something else than its receiver", what)
				t.Check(p == x || same(x, a), "%s changes its first operand", what)
				t.Check(p == y || same(y, b), "%s changes its second operand", what)
				if want.X != nil && p != x && p != y && pat == 0 {
					// The result stands on its own: using it as a receiver changes no operand.
					p.Double(p)
					p.SetInfinity()
					t.Check(same(x, a) && same(y, b), "reusing the result of %s changes an operand", what)
				}
				t.Eval(1)
				t.NonTrivial(1)
			}
		}
	}
}

// shared checks operations on points that share their coordinates with each
// other or with the base point of the curve, as code outside may build them.
func shared(t *mc.T, a, b zk.Pt) {
	c := bpx.Curve
	st := curveState()
	mk := func(q zk.Pt, o *P) *P {
		p := bpx.P(q)
		for _, x := range []*big.Int{p256.CURVE.Gx, p256.CURVE.Gy} {
			if p.X.Cmp(x) == 0 {
				p.X = x
			}
			if p.Y.Cmp(x) == 0 {
				p.Y = x
			}
		}
		if o != nil {
			if p.X.Cmp(o.X) == 0 {
				p.X = o.X
			}
			if p.Y.Cmp(o.Y) == 0 {
				p.Y = o.Y
			}
		}
		return p
	}
	for pat := 0; pat < 2; pat++ {
		x := mk(a, nil)
		y := mk(b, x)
		if pat == 1 {
			y = mk(b, nil)
			x = mk(a, y)
		}
		what := fmt.Sprintf("%s and %s, sharing coordinates (%d)", str(x), str(y), pat)
		keep := func(op string, p *P, want zk.Pt) {
			t.Check(same(p, want), "%s of %s = %s, want %s", op, what, str(p), str(bpx.P(want)))
			t.Check(same(x, a) && same(y, b), "%s of %s changes an operand", op, what)
			t.Check(curveState() == st, "%s of %s changes the curve", op, what)
			t.Eval(1)
			t.NonTrivial(1)
		}
		keep("Multiply", new(P).Multiply(x, y), c.Add(a, b))
		if !c.Eq(a, b) {
			keep("Add", new(P).Add(x, y), c.Add(a, b))
		}
		keep("Double", new(P).Double(x), c.Add(a, a))
		keep("Neg", new(P).Neg(y), c.Neg(b))
		for _, k := range []int64{0, 1, 2, -1, 5} {
			keep(fmt.Sprintf("ScalarMult by %d", k), new(P).ScalarMult(x, zk.B(k)), c.Mul(a, zk.B(k)))
		}
	}
}

func unary(t *mc.T, name string, a, want zk.Pt, f func(p, a *P) *P) {
	for _, fa := range forms(a) {
		for pat := 0; pat < 3; pat++ {
			x := fa()
			p := new(P)
			if pat == 1 {
				p = x
			} else if pat == 2 {
				p = bpx.P(bpx.Curve.G())
			}
			r := f(p, x)
			what := fmt.Sprintf("%s of %s aliasing %d", name, str(fa()), pat)
			t.Check(same(p, want) && r == p, "%s = %s, want %s", what, str(p), str(bpx.P(want)))
			t.Check(p == x || same(x, a), "%s changes its operand", what)
			t.Eval(1)
			t.NonTrivial(1)
		}
	}
}

func scalar(t *mc.T, a zk.Pt, k *big.Int, want zk.Pt) {
	in := new(big.Int).Set(k)
	unary(t, fmt.Sprintf("ScalarMult by %v", k), a, want, func(p, a *P) *P { return p.ScalarMult(a, in) })
	t.Check(in.Cmp(k) == 0, "ScalarMult changes the scalar %v", k)
}

func base(t *mc.T, k *big.Int, want zk.Pt) {
	in := new(big.Int).Set(k)
	for _, p := range []*P{new(P), bpx.P(bpx.Curve.G())} {
		r := p.ScalarBaseMult(in)
		t.Check(same(p, want) && r == p, "ScalarBaseMult(%v) = %s, want %s", k, str(p), str(bpx.P(want)))
	}
	t.Check(in.Cmp(k) == 0, "ScalarBaseMult changes the scalar %v", k)
	t.Eval(1)
	t.NonTrivial(1)
}

var add = binop{"Add", func(p, a, b *P) *P { return p.Add(a, b) }}
var mul = binop{"Multiply", func(p, a, b *P) *P { return p.Multiply(a, b) }}

func single(t *mc.T, a zk.Pt) {
	c := bpx.Curve
	unary(t, "Double", a, c.Add(a, a), func(p, a *P) *P { return p.Double(a) })
	unary(t, "Neg", a, c.Neg(a), func(p, a *P) *P { return p.Neg(a) })
	for _, f := range forms(a) {
		t.Check(f().IsZero() == (a.X == nil), "IsZero(%s) = %v", str(f()), f().IsZero())
	}
	if a.X != nil {
		t.Check(bpx.P(a).IsOnCurve(), "IsOnCurve(%s) = false", str(bpx.P(a)))
		for _, d := range []int64{1, -1} {
			q := zk.Pt{X: a.X, Y: new(big.Int).Mod(new(big.Int).Add(a.Y, zk.B(d)), c.P)}
			t.Check(bpx.P(q).IsOnCurve() == c.On(q), "IsOnCurve(%s) = %v", str(bpx.P(q)), !c.On(q))
			q = zk.Pt{X: new(big.Int).Mod(new(big.Int).Add(a.X, zk.B(d)), c.P), Y: a.Y}
			t.Check(bpx.P(q).IsOnCurve() == c.On(q), "IsOnCurve(%s) = %v", str(bpx.P(q)), !c.On(q))
		}
	}
}

func pair(t *mc.T, a, b zk.Pt) {
	binary(t, mul, a, b)
	if !bpx.Curve.Eq(a, b) {
		binary(t, add, a, b)
	} else if a.X == nil {
		binary(t, add, a, b)
	}
}

func tinyCurve(c *mc.Ctx, p, n int64) {
	name := fmt.Sprintf("complete group of order %d over F_%d", n, p)
	k := zk.Tiny(p, n)
	pts := make([]zk.Pt, n) // pts[i] = i*G
	for i := int64(1); i < n; i++ {
		pts[i] = k.Add(pts[i-1], k.G())
	}
	use := func(t *mc.T) string {
		bpx.UseTiny(p, n)
		return curveState()
	}
	for i := int64(0); i < n; i++ {
		i := i
		c.Case(name, fmt.Sprint(i), func(t *mc.T) {
			s := use(t)
			t.Check(k.Eq(k.Add(pts[n-1], k.G()), zk.Pt{}), "the reference table is wrong")
			single(t, pts[i])
			for j := int64(0); j < n; j++ {
				pair(t, pts[i], pts[j])
				if i > 0 && j > 0 && n < 100 {
					shared(t, pts[i], pts[j])
				}
			}
			lim := 3 * n
			if n > 400 {
				lim = n + 3
			}
			for m := -lim; m <= lim; m++ {
				scalar(t, pts[i], zk.B(m), pts[((i*m)%n+n)%n])
				if i == 1 {
					base(t, zk.B(m), pts[(m%n+n)%n])
				}
			}
			for _, m := range []*big.Int{zk.Pow2(64), zk.Pow2(256), zk.Pow2(257), new(big.Int).Neg(zk.Pow2(255)), new(big.Int).Sub(zk.Pow2(512), zk.B(1))} {
				r := new(big.Int).Mod(new(big.Int).Mul(m, zk.B(i)), zk.B(n)).Int64()
				scalar(t, pts[i], m, pts[r])
			}
			t.Check(curveState() == s, "the curve parameters change")
			t.States(1)
		})
	}
}

func secp(c *mc.Ctx, name string) {
	use := func() {
		if *tiny {
			bpx.UseTiny(43, 31)
			k := p256.CURVE
			k.P.Set(zk.SecpP)
			k.N.Set(zk.SecpN)
			k.Gx.Set(zk.SecpX)
			k.Gy.Set(zk.SecpY)
			bpx.Curve = zk.Secp
		}
	}
	k := zk.Secp
	lam := zk.Hex("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72") // endomorphism eigenvalue
	scal := zk.Uniq(append(append(zk.Scalars(zk.SecpN, 16, true), zk.Long(zk.SecpN, c.Thorough)...), lam, new(big.Int).Neg(lam), new(big.Int).Mul(lam, lam)))
	points := []int64{0, 1, 2, 3, 7, -1, -2, 1000003}
	memo := map[string]zk.Pt{}
	pt := func(m *big.Int) zk.Pt {
		m = new(big.Int).Mod(m, zk.SecpN)
		if p, ok := memo[m.String()]; ok {
			return p
		}
		p := k.Mul(k.G(), m)
		memo[m.String()] = p
		return p
	}
	for i := range scal {
		s := scal[i]
		c.Case(name+" scalars", s.Text(16), func(t *mc.T) {
			use()
			st := curveState()
			base(t, s, k.Mul(k.G(), s))
			for _, m := range points {
				if !c.Thorough && m == 1000003 {
					continue
				}
				a := pt(zk.B(m))
				scalar(t, a, s, pt(new(big.Int).Mul(s, zk.B(m))))
			}
			t.Check(curveState() == st, "the curve parameters change")
		})
	}
	// A point of unknown logarithm, and points with special coordinates.
	special := []zk.Pt{}
	for x := int64(0); x < 12; x++ {
		y2 := new(big.Int).Exp(zk.B(x), zk.B(3), nil)
		y2.Add(y2, zk.B(7))
		if y := new(big.Int).ModSqrt(y2, zk.SecpP); y != nil {
			special = append(special, zk.Pt{X: zk.B(x), Y: y})
		}
	}
	for x := int64(1); x < 12; x++ {
		xx := new(big.Int).Sub(zk.SecpP, zk.B(x))
		y2 := new(big.Int).Exp(xx, zk.B(3), zk.SecpP)
		y2.Add(y2, zk.B(7))
		if y := new(big.Int).ModSqrt(y2.Mod(y2, zk.SecpP), zk.SecpP); y != nil {
			special = append(special, zk.Pt{X: xx, Y: new(big.Int).Sub(zk.SecpP, y)})
		}
	}
	for i := range special {
		a := special[i]
		c.Case(name+" points with extreme coordinates", a.X.Text(16), func(t *mc.T) {
			use()
			single(t, a)
			for _, b := range special {
				pair(t, a, b)
				pair(t, a, k.Neg(b))
				pair(t, a, k.Add(b, b))
			}
			for _, s := range zk.Scalars(zk.SecpN, 2, false) {
				if c.Thorough || s.BitLen() < 70 {
					scalar(t, a, s, k.Mul(a, s))
				}
			}
		})
	}
	ms := zk.Scalars(zk.SecpN, 8, false)
	for i := range ms {
		i := i
		c.Case(name+" pairs", ms[i].Text(16), func(t *mc.T) {
			use()
			a := pt(ms[i])
			single(t, a)
			for j := i % 2; j < len(ms); j++ {
				pair(t, a, pt(ms[j]))
				if !c.Thorough {
					j++
				}
			}
			for _, b := range []zk.Pt{k.G(), k.Neg(k.G()), k.Neg(a), a, k.Add(a, a), k.Add(a, k.G())} {
				if a.X != nil && b.X != nil {
					shared(t, a, b)
					shared(t, b, a)
				}
			}
			pair(t, a, a)
			pair(t, a, k.Neg(a))
			pair(t, a, k.Add(a, a))
			pair(t, a, k.Neg(k.Add(a, a)))
		})
	}
}

// again makes histories of operations whose operands stay in the same
// variables and whose results are computed on in place.
func again(c *mc.Ctx) {
	cv := zk.Secp
	type st struct {
		a, b zk.Pt
		k    *big.Int
	}
	g := func(k int64) zk.Pt { return cv.Mul(cv.G(), zk.B(k)) }
	var sts []st
	for _, v := range [][3]int64{{7, 12, 12345}, {14, 12, 12345}, {7, 24, 12345}, {7, 12, 2}, {2, 3, 3}, {1, 2, 1}, {-7, 7, -1}, {0, 7, 5}, {7, 0, 0}, {1000003, -1000003, 31}, {5, 5, 31}} {
		sts = append(sts, st{g(v[0]), g(v[1]), zk.B(v[2])})
	}
	sts = append(sts, st{g(9), g(8), zk.SecpN}, st{g(9), g(8), zk.Pow2(255)})
	a, b, k := new(P), new(P), new(big.Int)
	op := func(name string, f func() *P, ref func(s st) zk.Pt) func(how int) mc.Reuse {
		return func(how int) mc.Reuse {
			set := func(p *P, q zk.Pt) {
				switch {
				case q.X == nil:
					p.SetInfinity()
				case how == 0 && p.X != nil && p.Y != nil:
					p.X.Set(q.X)
					p.Y.Set(q.Y)
				case how == 1:
					p.Add(bpx.P(cv.Add(q, cv.Neg(cv.Mul(cv.G(), zk.B(77777))))), bpx.P(cv.Mul(cv.G(), zk.B(77777))))
				default:
					p.X, p.Y = new(big.Int).Set(q.X), new(big.Int).Set(q.Y)
				}
			}
			return mc.Reuse{
				Set: func(i int) {
					set(a, sts[i].a)
					set(b, sts[i].b)
					k.Set(sts[i].k)
				},
				Call: func() interface{} { return f() },
				Want: func(i int) string { return str(bpx.P(ref(sts[i]))) },
				Read: func(r interface{}) string { return str(r.(*P)) },
				Scribble: func(r interface{}) {
					p := r.(*P)
					p.ScalarBaseMult(zk.B(3))
					p.Double(p)
					p.Neg(p)
					p.Multiply(p, bpx.P(cv.G()))
					p.ScalarMult(p, zk.B(5))
					p.ScalarBaseMult(zk.B(2))
				},
				Intact: func(i int) bool { return same(a, sts[i].a) && same(b, sts[i].b) && k.Cmp(sts[i].k) == 0 },
			}
		}
	}
	ops := []struct {
		name string
		mk   func(how int) mc.Reuse
		not  func(s st) bool
	}{
		{"Multiply", op("Multiply", func() *P { return new(P).Multiply(a, b) }, func(s st) zk.Pt { return cv.Add(s.a, s.b) }), nil},
		{"Add", op("Add", func() *P { return new(P).Add(a, b) }, func(s st) zk.Pt { return cv.Add(s.a, s.b) }), func(s st) bool { return cv.Eq(s.a, s.b) }},
		{"Double", op("Double", func() *P { return new(P).Double(a) }, func(s st) zk.Pt { return cv.Add(s.a, s.a) }), nil},
		{"Neg", op("Neg", func() *P { return new(P).Neg(a) }, func(s st) zk.Pt { return cv.Neg(s.a) }), nil},
		{"ScalarMult", op("ScalarMult", func() *P { return new(P).ScalarMult(a, k) }, func(s st) zk.Pt { return cv.Mul(s.a, s.k) }), nil},
		{"ScalarBaseMult", op("ScalarBaseMult", func() *P { return new(P).ScalarBaseMult(k) }, func(s st) zk.Pt { return cv.Mul(cv.G(), s.k) }), nil},
	}
	for _, o := range ops {
		for i := range sts {
			o, i := o, i
			c.Case("variables used again", fmt.Sprint(o.name, " ", i), func(t *mc.T) {
				for j := range sts {
					for how := 0; how < 3; how++ {
						// A sum with the identity may hold the coordinates of the other operand.
						if how == 0 && (sts[i].a.X == nil || sts[i].b.X == nil || sts[j].a.X == nil || sts[j].b.X == nil) {
							continue
						}
						if o.not != nil && (o.not(sts[i]) || o.not(sts[j])) {
							continue
						}
						o.mk(how).Run(t, o.name, i, j)
					}
				}
			})
		}
	}
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		if !*tiny {
			secp(c, "secp256k1")
			again(c)
			return
		}
		secp(c, "secp256k1 with the stand-in for the C library")
		curves := [][2]int64{{13, 7}, {43, 31}, {67, 79}, {79, 67}, {97, 79}, {163, 139}}
		if c.Thorough {
			curves = append(curves, [][2]int64{{211, 199}, {349, 313}, {1051, 1093}, {1237, 1279}}...)
		}
		for _, k := range curves {
			tinyCurve(c, k[0], k[1])
		}
	})
}
