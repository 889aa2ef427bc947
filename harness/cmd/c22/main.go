// C22: every challenge changes with every group element committed to before it.
// The challenges are recovered from the proofs with the scripted draws; one
// element at a time is changed while all others stay the same.
package main

import (
	"crypto/sha256"
	"flag"
	"fmt"
	"math/big"
	"reflect"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/ccs08"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"

	"zkrpmc/bpx"
	"zkrpmc/cx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

var tiny = flag.Bool("tiny", false, "small curve")

type proof = bulletproofs.BulletProof

var names = []string{"V", "A", "S", "T1", "T2"}

func points(p *proof) []*p256.P256 { return []*p256.P256{p.V, p.A, p.S, p.T1, p.T2} }

// changed says which of the commitments differ.
func changed(p, q *proof) string {
	s := ""
	for i, a := range points(p) {
		if !bpx.Curve.Eq(bpx.Pt(a), bpx.Pt(points(q)[i])) {
			s += " " + names[i]
		}
	}
	return s
}

// polys solves Tprime = t0 + t1 x + t2 x^2 from three proofs that differ in tau1 only.
type setting struct {
	t     *mc.T
	x     *big.Int
	par   bulletproofs.BulletProofSetupParams
	roles bpx.Roles
	k     *big.Int // H = G^k
}

func (s *setting) run(vals []*big.Int) (*proof, *big.Int, *big.Int) {
	p, err := bpx.Run(s.x, s.par, vals)
	s.t.Check(err == nil, "Prove: %v", err)
	x, z2 := bpx.Challenge(&p, s.roles, vals)
	s.t.Check(x != nil, "no challenge")
	return &p, x, z2
}

func (s *setting) polys(vals []*big.Int) (t1, t2 *big.Int) {
	var xs, ts []*big.Int
	for i := int64(0); i < 3; i++ {
		p, x, _ := s.run(bpx.Plus(vals, s.roles.Tau1, zk.B(i)))
		xs, ts = append(xs, x), append(ts, p.Tprime)
	}
	// Divided differences.
	d := func(a, b *big.Int) *big.Int { return bpx.SAdd(a, bpx.SNeg(b)) }
	f01 := bpx.SMul(d(ts[1], ts[0]), bpx.SInv(d(xs[1], xs[0])))
	f12 := bpx.SMul(d(ts[2], ts[1]), bpx.SInv(d(xs[2], xs[1])))
	t2 = bpx.SMul(d(f12, f01), bpx.SInv(d(xs[2], xs[0])))
	t1 = bpx.SAdd(f01, bpx.SNeg(bpx.SMul(t2, bpx.SAdd(xs[0], xs[1]))))
	return
}

// rangeProof checks the challenges x, y and z of proofs of x for N=n.
func rangeProof(t *mc.T, n uint, x *big.Int) {
	par := bpx.Params(n)
	// With a known relation between the generators, A can change while T1 and T2 do not.
	k := zk.Hex("6ac1a9d5b3f4e28716253443a5b6c7d8e9fa0b1c2d3e4f5061728394a5b6c7d8")
	par.H = new(p256.P256).ScalarBaseMult(k)
	vals := bpx.Draws(x, par, fmt.Sprint("c22", n, x))
	t.Check(vals != nil, "Prove fails")
	roles, bad := bpx.FindRoles(x, par, vals)
	t.Check(bad == "", "%s", bad)
	s := &setting{t, x, par, roles, k}
	base, x0, z0 := s.run(vals)
	t.Check(x0.Cmp(z0) != 0, "the challenge x is the square of z")
	z := []*big.Int{new(big.Int).ModSqrt(z0, zk.SecpN)}
	t.Check(z[0] != nil, "the recovered z^2 is not a square: prover and recovery disagree")
	z = append(z, bpx.SNeg(z[0]))
	t.Check(z[0].Cmp(x0) != 0 && z[1].Cmp(x0) != 0, "the challenges x and z are the same")
	yElem := func(p *proof) string {
		if n < 2 {
			return ""
		}
		return p.InnerProductProof.Params.Hh[1].String()
	}
	if n > 1 {
		for _, w := range append(z, x0) {
			for _, c := range []*big.Int{w, bpx.SInv(w)} {
				t.Check(!bpx.Curve.Eq(bpx.Pt(base.InnerProductProof.Params.Hh[1]), bpx.Curve.Mul(bpx.Pt(par.Hh[1]), c)), "the challenge y is another one of the proof")
			}
		}
	}
	t1, t2 := s.polys(vals)
	one := zk.B(1)
	draws := map[string]int{"V": roles.Gamma, "A": roles.Alpha, "S": roles.Rho}
	for i := range roles.SL {
		if i < 2 || i == int(n)-1 {
			draws[fmt.Sprintf("S by sL[%d]", i)] = roles.SL[i]
			draws[fmt.Sprintf("S by sR[%d]", i)] = roles.SR[i]
		}
	}
	for name, d := range draws {
		w := bpx.Plus(vals, d, one)
		p, _, z1 := s.run(w)
		// y and z come after V, A and S.
		t.Check(changed(base, p)[:2] == " "+name[:1], "draw %d changes%s, not %s", d, changed(base, p), name)
		t.Check(z1.Cmp(z0) != 0, "the challenge z does not depend on %s (N=%d)", name, n)
		t.Check(n < 2 || yElem(p) != yElem(base), "the challenge y does not depend on %s (N=%d)", name, n)
		t.Eval(2)
		t.NonTrivial(2)
		// x comes after T1 and T2 too: change the element, and not T1 and T2.
		u1, u2 := s.polys(w)
		ki := bpx.SInv(k)
		w = bpx.With(w, roles.Tau1, bpx.SAdd(w[roles.Tau1], bpx.SMul(bpx.SAdd(t1, bpx.SNeg(u1)), ki)))
		w = bpx.With(w, roles.Tau2, bpx.SAdd(w[roles.Tau2], bpx.SMul(bpx.SAdd(t2, bpx.SNeg(u2)), ki)))
		q, x1, _ := s.run(w)
		t.Check(changed(base, q) == " "+name[:1], "only %s should change, but%s do", name, changed(base, q))
		t.Check(x1.Cmp(x0) != 0, "the challenge x does not depend on %s (N=%d)", name, n)
		t.Eval(1)
		t.NonTrivial(1)
	}
	for name, d := range map[string]int{"T1": roles.Tau1, "T2": roles.Tau2} {
		for _, v := range []*big.Int{one, zk.Pow2(200), zk.B(-1)} {
			p, x1, z1 := s.run(bpx.Plus(vals, d, v))
			t.Check(changed(base, p) == " "+name, "only %s should change, but%s do", name, changed(base, p))
			t.Check(x1.Cmp(x0) != 0, "the challenge x does not depend on %s (N=%d)", name, n)
			t.Check(z1.Cmp(z0) == 0 && yElem(p) == yElem(base), "the challenges y and z depend on %s, which comes later", name)
			t.Eval(1)
			t.NonTrivial(1)
		}
	}
	// Opposite points have the same x coordinate: V to -V and so on.
	opp := func(name string, d int, e *big.Int) {
		// The draw that turns G^e H^draw into its inverse.
		v := bpx.SAdd(bpx.SNeg(vals[d]), bpx.SMul(zk.B(-2), e, bpx.SInv(k)))
		w := bpx.With(vals, d, v)
		p, x1, z1 := s.run(w)
		i := map[string]int{"V": 0, "T1": 3, "T2": 4}[name]
		t.Check(bpx.Curve.Eq(bpx.Pt(points(p)[i]), bpx.Curve.Neg(bpx.Pt(points(base)[i]))), "%s is not the opposite point", name)
		if name == "V" {
			t.Check(z1.Cmp(z0) != 0, "the challenge z is the same for V and -V")
			t.Check(n < 2 || yElem(p) != yElem(base), "the challenge y is the same for V and -V")
		} else {
			t.Check(x1.Cmp(x0) != 0, "the challenge x is the same for %s and its opposite", name)
		}
		t.Eval(1)
		t.NonTrivial(1)
	}
	opp("V", roles.Gamma, x)
	opp("T1", roles.Tau1, t1)
	opp("T2", roles.Tau2, t2)
	// The inner product argument's own challenge depends on the vector commitment and on the
	// claimed product.
	for name, d := range map[string]int{"the commitment by sL": roles.SL[0], "tau1": roles.Tau1} {
		p, _, _ := s.run(bpx.Plus(vals, d, one))
		t.Check(p.InnerProductProof.U.String() != base.InnerProductProof.U.String(), "the challenge of the inner product argument does not depend on %s", name)
		t.Eval(1)
		t.NonTrivial(1)
	}
}

func gen(k int64) *p256.P256 { return new(p256.P256).ScalarBaseMult(zk.B(k)) }

// Uu gives the argument's base for the claim.
func argue(t *mc.T, g, h []*p256.P256, P *p256.P256, c *big.Int, a, b []*big.Int) bulletproofs.InnerProductProof {
	params, err := bulletproofs.XSetupInnerProduct(gen(5), g, h, c, int64(len(g)))
	t.Check(err == nil, "%v", err)
	pr, err := bulletproofs.XProveInnerProduct(a, b, P, params)
	t.Check(err == nil, "%v", err)
	return pr
}

func cpPts(ps []*p256.P256) []*p256.P256 { return append([]*p256.P256(nil), ps...) }

// argument checks the challenges of the inner product argument.
func argument(t *mc.T, n int) {
	var g, h []*p256.P256
	var a, b []*big.Int
	for i := 0; i < n; i++ {
		g, h = append(g, gen(int64(100+7*i))), append(h, gen(int64(1000+11*i)))
		a, b = append(a, zk.B(int64(31+i))), append(b, zk.B(int64(57+3*i)))
	}
	c := zk.B(424242)
	P := gen(777)
	base := argue(t, g, h, P, c, a, b)
	differs := func(p bulletproofs.InnerProductProof, what string) {
		t.Check(p.U.String() != base.U.String(), "the challenge of the inner product argument does not depend on %s (n=%d)", what, n)
		t.Eval(1)
		t.NonTrivial(1)
	}
	differs(argue(t, g, h, gen(778), c, a, b), "the commitment")
	differs(argue(t, g, h, bpx.P(bpx.Curve.Neg(bpx.Pt(P))), c, a, b), "the sign of the commitment")
	for _, d := range []*big.Int{zk.B(1), zk.Pow2(64), zk.Pow2(255)} {
		differs(argue(t, g, h, P, new(big.Int).Add(c, d), a, b), "the claim")
	}
	differs(argue(t, g, h, P, new(big.Int).Neg(c), a, b), "the sign of the claim")
	for i := 0; i < n; i++ {
		for _, q := range []*p256.P256{gen(5555), bpx.P(bpx.Curve.Neg(bpx.Pt(g[i])))} {
			w := cpPts(g)
			w[i] = q
			differs(argue(t, w, h, P, c, a, b), fmt.Sprintf("generator g[%d]", i))
		}
		for _, q := range []*p256.P256{gen(5555), bpx.P(bpx.Curve.Neg(bpx.Pt(h[i])))} {
			w := cpPts(h)
			w[i] = q
			differs(argue(t, g, w, P, c, a, b), fmt.Sprintf("generator h[%d]", i))
		}
	}
	if n != 2 {
		return
	}
	// One round: with a = (a0, 0) and b = (b0, 0), the round's L is g1^a0, its R is h1^b0 and
	// the final scalars are a0.x and b0/x.
	round := func(P *p256.P256, c, a0, b0 *big.Int, g1, h1 *p256.P256) (*big.Int, bulletproofs.InnerProductProof) {
		p := argue(t, []*p256.P256{g[0], g1}, []*p256.P256{h[0], h1}, P, c, []*big.Int{a0, zk.B(0)}, []*big.Int{b0, zk.B(0)})
		t.Check(len(p.Ls) == 1 && p.Ls[0].String() == new(p256.P256).ScalarMult(g1, a0).String() && p.Rs[0].String() == new(p256.P256).ScalarMult(h1, b0).String(), "unexpected round elements")
		x := bpx.SMul(p.A, bpx.SInv(a0))
		t.Check(bpx.SMul(p.B, x).Cmp(bpx.SMul(b0, zk.B(1))) == 0, "the final scalars belong to different challenges")
		return x, p
	}
	a0, b0 := zk.B(31), zk.B(57)
	x0, _ := round(P, c, a0, b0, g[1], h[1])
	cases := map[string]func() *big.Int{
		"P":             func() *big.Int { x, _ := round(gen(778), c, a0, b0, g[1], h[1]); return x },
		"-P":            func() *big.Int { x, _ := round(bpx.P(bpx.Curve.Neg(bpx.Pt(P))), c, a0, b0, g[1], h[1]); return x },
		"the claim":     func() *big.Int { x, _ := round(P, zk.B(5), a0, b0, g[1], h[1]); return x },
		"L":             func() *big.Int { x, _ := round(P, c, zk.B(32), b0, g[1], h[1]); return x },
		"the sign of L": func() *big.Int { x, _ := round(P, c, bpx.SNeg(a0), b0, g[1], h[1]); return x },
		"R":             func() *big.Int { x, _ := round(P, c, a0, zk.B(58), g[1], h[1]); return x },
		"the sign of R": func() *big.Int { x, _ := round(P, c, a0, bpx.SNeg(b0), g[1], h[1]); return x },
	}
	for name, f := range cases {
		t.Check(f().Cmp(x0) != 0, "the challenge of a round does not depend on %s", name)
		t.Eval(1)
		t.NonTrivial(1)
	}
}

// rounds recovers the challenges of all rounds of an argument over a small
// curve from its final scalars and folded generators, and wants them different.
func rounds(t *mc.T, n, salt int) string {
	q := bpx.Curve.N.Int64()
	var g, h []*p256.P256
	var a, b []*big.Int
	// Generators with known logarithms, so that the folded ones give two more equations.
	for i := 0; i < n; i++ {
		g, h = append(g, gen(3+int64(5*i*i+salt)%q)), append(h, gen(2+int64(7*i+3*salt)%q))
		a, b = append(a, zk.B(int64(1+3*i+salt)%q)), append(b, zk.B(int64(2+i*i+salt)%q))
	}
	p := argue(t, g, h, gen(int64(1+salt)), zk.B(int64(salt)), a, b)
	log := map[string]int64{}
	{
		r := zk.Pt{}
		for i := int64(0); i < q; i++ {
			log[key(r)] = i
			r = bpx.Curve.Add(r, bpx.Curve.G())
		}
	}
	lg := func(ps []*p256.P256) (out []int64) {
		for _, x := range ps {
			out = append(out, log[key(bpx.Pt(x))])
		}
		return
	}
	num := func(xs []*big.Int) (out []int64) {
		for _, x := range xs {
			out = append(out, x.Int64()%q)
		}
		return
	}
	inv := func(x int64) int64 { return new(big.Int).ModInverse(zk.B(x), zk.B(q)).Int64() }
	wantA, wantB := p.A.Int64()%q, p.B.Int64()%q
	wantG, wantH := log[key(bpx.Pt(p.Gg))], log[key(bpx.Pt(p.Hh))]
	var found [][]int64
	var rec func(av, bv, gv, hv []int64, xs []int64)
	rec = func(av, bv, gv, hv []int64, xs []int64) {
		m := len(av) / 2
		if m == 0 {
			if av[0] == wantA && bv[0] == wantB && gv[0] == wantG && hv[0] == wantH {
				found = append(found, append([]int64(nil), xs...))
			}
			return
		}
		for x := int64(1); x < q; x++ {
			xi := inv(x)
			f := func(v []int64, lo, hi int64) []int64 {
				o := make([]int64, m)
				for i := range o {
					o[i] = (v[i]*lo + v[m+i]*hi) % q
				}
				return o
			}
			rec(f(av, x, xi), f(bv, xi, x), f(gv, xi, x), f(hv, x, xi), append(xs, x))
		}
	}
	rec(num(a), num(b), lg(g), lg(h), nil)
	t.Eval(1)
	if len(found) == 0 {
		return "no challenges explain the folded values"
	}
	// Different unless every explanation repeats one.
	for _, xs := range found {
		seen := map[int64]bool{}
		for _, x := range xs {
			seen[x] = true
		}
		if len(seen) == len(xs) {
			t.NonTrivial(1)
			return ""
		}
	}
	return fmt.Sprintf("challenges of different rounds are the same: %v", found[0])
}

func key(p zk.Pt) string {
	if p.X == nil {
		return "inf"
	}
	return p.X.String() + "," + p.Y.String()
}

// hashes checks the hash functions element by element.
func hashes(c *mc.Ctx) {
	var pts []*p256.P256
	for i := int64(1); i <= 9; i++ {
		pts = append(pts, gen(i))
	}
	for n := 2; n <= 9; n++ {
		n := n
		c.Case("hash functions", fmt.Sprintf("HashBP of %d points", n), func(t *mc.T) {
			f := reflect.ValueOf(bulletproofs.HashBP)
			if !f.Type().IsVariadic() && n != f.Type().NumIn() {
				t.Skipf("HashBP takes %d points", f.Type().NumIn())
			}
			call := func(ps []*p256.P256) (string, string) {
				var in []reflect.Value
				for _, p := range ps {
					in = append(in, reflect.ValueOf(p))
				}
				out := f.Call(in)
				return out[0].Interface().(*big.Int).String(), out[1].Interface().(*big.Int).String()
			}
			y0, z0 := call(pts[:n])
			t.Check(y0 != z0, "both challenges are the same")
			y1, z1 := call(pts[:n])
			t.Check(y0 == y1 && z0 == z1, "not a function of its input")
			for i := 0; i < n; i++ {
				for _, r := range []*p256.P256{gen(99), bpx.P(bpx.Curve.Neg(bpx.Pt(pts[i]))), {X: pts[i].X, Y: new(big.Int).Add(pts[i].Y, zk.B(1))}, {X: new(big.Int).Add(pts[i].X, zk.B(1)), Y: pts[i].Y}, pts[(i+1)%n], {X: pts[i].Y, Y: pts[i].X}} {
					w := cpPts(pts[:n])
					w[i] = r
					y, z := call(w)
					t.Check(y != y0, "the first challenge does not depend on point %d of %d", i, n)
					t.Check(z != z0, "the second challenge does not depend on point %d of %d", i, n)
					t.Check(y != z, "both challenges are the same")
					t.Eval(2)
					t.NonTrivial(2)
				}
				// The same objects, of which one gets another value in place.
				w := cpPts(pts[:n])
				ya, za := call(w)
				t.Check(ya == y0 && za == z0, "not a function of the values of its input")
				*w[i] = *gen(99)
				yb, zb := call(w)
				t.Check(yb != y0 && zb != z0, "the challenges do not follow a change of point %d of %d in place", i, n)
				*w[i] = *gen(int64(i + 1))
				ya, za = call(w)
				t.Check(ya == y0 && za == z0, "not a function of the values of its input, when they change in place")
				for j := 0; j < i; j++ {
					w := cpPts(pts[:n])
					w[i], w[j] = w[j], w[i]
					y, z := call(w)
					t.Check(y != y0 && z != z0, "the challenges do not depend on the order of points %d and %d", j, i)
					t.Eval(1)
					t.NonTrivial(1)
				}
			}
		})
	}
	// All lists over an alphabet that holds the point at infinity and opposite points: no two
	// of them have the same challenges.
	for n := 2; n <= 5; n++ {
		n := n
		c.Case("hash functions, all lists of special points", fmt.Sprintf("%d points", n), func(t *mc.T) {
			f := reflect.ValueOf(bulletproofs.HashBP)
			if !f.Type().IsVariadic() && n != f.Type().NumIn() {
				t.Skipf("HashBP takes %d points", f.Type().NumIn())
			}
			alphabet := []*p256.P256{new(p256.P256).SetInfinity(), gen(1), gen(2), bpx.P(bpx.Curve.Neg(bpx.Pt(gen(1))))}
			seen := map[string]string{}
			total := 1
			for i := 0; i < n; i++ {
				total *= len(alphabet)
			}
			for k := 0; k < total; k++ {
				var in []reflect.Value
				name := ""
				for i, r := 0, k; i < n; i, r = i+1, r/len(alphabet) {
					in = append(in, reflect.ValueOf(alphabet[r%len(alphabet)]))
					name += []string{"O", "G", "2G", "-G"}[r%len(alphabet)] + " "
				}
				out := f.Call(in)
				for i := 0; i < 2; i++ {
					v := out[i].Interface().(*big.Int).String()
					t.Check(seen[v] == "", "a challenge of the points %sis one of the points %stoo", name, seen[v])
					seen[v] = name
				}
				t.Eval(1)
				t.NonTrivial(1)
			}
		})
	}
	gt := func(k int64) *bn256.GT { return new(bn256.GT).ScalarMult(util.E, zk.B(k)) }
	g2 := func(k int64) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(zk.B(k)) }
	// The same for the hash functions of CCS08.
	for na := 1; na <= 2; na++ {
		for ns := 0; ns <= 2; ns++ {
			na, ns := na, ns
			for _, set := range []bool{false, true} {
				set := set
				if set && na != 1 {
					continue
				}
				c.Case("hash functions, all lists of special points", fmt.Sprintf("set=%v %d elements of GT, %d of G2", set, na, ns+1), func(t *mc.T) {
					f := reflect.ValueOf(util.Hash)
					if set {
						f = reflect.ValueOf(util.HashSet)
					}
					if !f.Type().IsVariadic() && ns+2 != f.Type().NumIn() {
						t.Skipf("the function takes %d arguments", f.Type().NumIn())
					}
					ks := []int64{0, 1, 2, -1}
					var gts []*bn256.GT
					var g2s []*bn256.G2
					for _, k := range ks {
						gts, g2s = append(gts, gt(k)), append(g2s, g2(k))
					}
					total := 1
					for i := 0; i < na+ns+1; i++ {
						total *= len(ks)
					}
					seen := map[string]string{}
					for m := 0; m < total; m++ {
						var a []*bn256.GT
						var d []reflect.Value
						name := ""
						for i, r := 0, m; i < na+ns+1; i, r = i+1, r/len(ks) {
							if i < na {
								a = append(a, gts[r%len(ks)])
							} else {
								d = append(d, reflect.ValueOf(g2s[r%len(ks)]))
							}
							name += fmt.Sprint(ks[r%len(ks)], " ")
						}
						in := []reflect.Value{reflect.ValueOf(a)}
						if set {
							in[0] = reflect.ValueOf(a[0])
						}
						v := f.Call(append(in, d...))[0].Interface().(*big.Int).String()
						t.Check(seen[v] == "", "the challenge of the multiples %sis that of %stoo", name, seen[v])
						seen[v] = name
						t.Eval(1)
						t.NonTrivial(1)
					}
				})
			}
		}
	}
	// Hash and HashSet: lists of up to four elements of GT, and all counts of statement elements.
	for na := 0; na <= 12; na++ {
		for ns := 0; ns <= 12; ns++ {
			if na > 4 && ns > 2 || ns > 5 && na > 1 {
				continue
			}
			na, ns := na, ns
			for _, set := range []bool{false, true} {
				set := set
				if set && na != 1 {
					continue
				}
				c.Case("hash functions", fmt.Sprintf("set=%v %d elements of GT, %d of G2", set, na, ns), func(t *mc.T) {
					var f reflect.Value
					if set {
						f = reflect.ValueOf(util.HashSet)
					} else {
						f = reflect.ValueOf(util.Hash)
					}
					if !f.Type().IsVariadic() && ns+2 != f.Type().NumIn() {
						t.Skipf("the function takes %d arguments", f.Type().NumIn())
					}
					call := func(a []*bn256.GT, d []*bn256.G2) string {
						var in []reflect.Value
						if set {
							in = append(in, reflect.ValueOf(a[0]))
						} else {
							in = append(in, reflect.ValueOf(a))
						}
						for _, x := range d {
							in = append(in, reflect.ValueOf(x))
						}
						return f.Call(in)[0].Interface().(*big.Int).String()
					}
					mk := func() (a []*bn256.GT, d []*bn256.G2) {
						for i := 0; i < na; i++ {
							a = append(a, gt(int64(2+i)))
						}
						for i := 0; i <= ns; i++ {
							d = append(d, g2(int64(20+i)))
						}
						return
					}
					a, d := mk()
					base := call(a, d)
					b, e := mk()
					t.Check(call(b, e) == base, "not a function of the values of its input")
					// The same objects, of which one gets another value in place.
					for i := range d {
						d[i].Add(g2(99), g2(0))
						t.Check(call(a, d) != base, "the challenge does not follow a change of element %d of %d in G2 in place", i, ns+1)
						d[i].Add(g2(int64(20+i)), g2(0))
						t.Check(call(a, d) == base, "not a function of the values of its input, when they change in place")
						t.Eval(2)
						t.NonTrivial(2)
					}
					for i := range a {
						a[i].Add(gt(99), gt(0))
						t.Check(call(a, d) != base, "the challenge does not follow a change of element %d of %d in GT in place", i, na)
						a[i].Add(gt(int64(2+i)), gt(0))
						t.Check(call(a, d) == base, "not a function of the values of its input, when they change in place")
						t.Eval(2)
						t.NonTrivial(2)
					}
					for i := range a {
						for _, r := range []*bn256.GT{gt(77), gt(-int64(2 + i)), gt(0), gt(1)} {
							a, d := mk()
							a[i] = r
							t.Check(call(a, d) != base, "the challenge does not depend on element %d of %d in GT", i, na)
							t.Eval(1)
							t.NonTrivial(1)
						}
						for _, r := range coordinates(a[i]) {
							a, d := mk()
							a[i] = r
							t.Check(call(a, d) != base, "the challenge does not depend on a coordinate of element %d of %d in GT", i, na)
							t.Eval(1)
							t.NonTrivial(1)
						}
						for j := 0; j < i; j++ {
							a, d := mk()
							a[i], a[j] = a[j], a[i]
							t.Check(call(a, d) != base, "the challenge does not depend on the order in GT")
							t.Eval(1)
							t.NonTrivial(1)
						}
					}
					for i := range d {
						for _, r := range []*bn256.G2{g2(77), g2(-int64(20 + i)), g2(0), g2(1)} {
							a, d := mk()
							d[i] = r
							t.Check(call(a, d) != base, "the challenge does not depend on element %d of %d in G2", i, len(d))
							t.Eval(1)
							t.NonTrivial(1)
						}
						for j := 0; j < i; j++ {
							a, d := mk()
							d[i], d[j] = d[j], d[i]
							t.Check(call(a, d) != base, "the challenge does not depend on the order in G2")
							t.Eval(1)
							t.NonTrivial(1)
						}
					}
				})
			}
		}
	}
}

// coordinates makes the 12 elements that differ from x in one coordinate (not in the group).
func coordinates(x *bn256.GT) []*bn256.GT {
	var out []*bn256.GT
	for i := 0; i < 12; i++ {
		y := zk.Clone(x).(*bn256.GT)
		l := zk.Leaves(y)
		if len(l) != 12 {
			return nil
		}
		v := l[i].V.Interface().(*big.Int)
		l[i].V.Set(reflect.ValueOf(new(big.Int).Xor(v, zk.B(1))))
		out = append(out, y)
	}
	return out
}

// challengeOf reads the challenge of a ccs08 proof.
func challengeOf(t *mc.T, p interface{}) *big.Int {
	c, ok := cx.Get(p, "c").(*big.Int)
	t.Check(ok && c != nil, "no challenge in the proof")
	return c
}

// ccs checks the challenge of set membership and [0,u^l) proofs.
func ccs(c *mc.Ctx, name string, l int, sk *big.Int, digits []int64, prove func(vals []*big.Int, r *big.Int) (interface{}, error)) {
	c.Case("CCS08", name, func(t *mc.T) {
		r := zk.Hex("77777777abcdef0123456789")
		n := 1 + 3*l
		var vals []*big.Int
		for k := 0; k < n; k++ {
			b := make([]byte, 32)
			mc.NewTape(name).Default(k, b)
			vals = append(vals, new(big.Int).SetBytes(b))
		}
		run := func(vals []*big.Int, r *big.Int) interface{} {
			p, err := prove(vals, r)
			t.Check(err == nil, "%v", err)
			return p
		}
		flat := func(p interface{}) map[string]string {
			m := map[string]string{}
			for _, f := range []string{"V", "D", "C", "a"} {
				v := reflect.ValueOf(cx.Get(p, f))
				if v.Kind() == reflect.Slice {
					for i := 0; i < v.Len(); i++ {
						m[fmt.Sprintf("%s[%d]", f, i)] = cx.Enc(v.Index(i).Interface())
					}
				} else if f == "V" || f == "a" {
					m[f+"[0]"] = cx.Enc(v.Interface())
				} else {
					m[f] = cx.Enc(v.Interface())
				}
			}
			return m
		}
		base := run(vals, r)
		c0, f0 := challengeOf(t, base), flat(base)
		diff := func(p interface{}) string {
			s := ""
			f := flat(p)
			for _, k := range keys(f0) {
				if f[k] != f0[k] {
					s += " " + k
				}
			}
			return s
		}
		// The role of each draw.
		m := -1
		v, s, tt := make([]int, l), make([]int, l), make([]int, l)
		for i := range v {
			v[i], s[i], tt[i] = -1, -1, -1
		}
		inc := func(vals []*big.Int, k int, d *big.Int) []*big.Int {
			out := append([]*big.Int(nil), vals...)
			out[k] = new(big.Int).Mod(new(big.Int).Add(vals[k], d), zk.BnN)
			return out
		}
		one := zk.B(1)
		for k := range vals {
			p := run(inc(vals, k, one), r)
			d := diff(p)
			t.Check(d != "", "draw %d changes nothing", k)
			t.Check(challengeOf(t, p).Cmp(c0) != 0, "draw %d changes%s but not the challenge", k, d)
			t.Eval(1)
			t.NonTrivial(1)
			hit := false
			if d == " D" {
				m, hit = k, true
			}
			for i := 0; i < l; i++ {
				switch d {
				case fmt.Sprintf(" V[%d] a[%d]", i, i):
					v[i], hit = k, true
				case fmt.Sprintf(" D a[%d]", i):
					s[i], hit = k, true
				case fmt.Sprintf(" a[%d]", i):
					tt[i], hit = k, true
				}
			}
			t.Check(hit, "draw %d changes%s", k, d)
		}
		t.Check(m >= 0, "D has no draw of its own")
		// C alone.
		for _, d := range []*big.Int{one, zk.B(-1), zk.Pow2(128)} {
			p := run(vals, new(big.Int).Mod(new(big.Int).Add(r, d), zk.BnN))
			t.Check(diff(p) == " C", "only C should change, but%s do", diff(p))
			t.Check(challengeOf(t, p).Cmp(c0) != 0, "the challenge does not depend on the commitment C")
			t.Eval(1)
			t.NonTrivial(1)
		}
		for i := 0; i < l; i++ {
			t.Check(v[i] >= 0 && s[i] >= 0 && tt[i] >= 0, "digit %d misses a draw", i)
			// V alone: a = e(g,V)^-s e(g,g)^t with V = g^(v/(digit+sk)).
			e := new(big.Int).ModInverse(new(big.Int).Add(zk.B(digits[i]), sk), zk.BnN)
			for _, d := range []*big.Int{one, new(big.Int).Lsh(vals[v[i]], 0)} {
				w := inc(vals, v[i], d)
				w = inc(w, tt[i], new(big.Int).Mul(new(big.Int).Mul(vals[s[i]], d), e))
				p := run(w, r)
				t.Check(diff(p) == fmt.Sprintf(" V[%d]", i), "only V[%d] should change, but%s do", i, diff(p))
				t.Check(challengeOf(t, p).Cmp(c0) != 0, "the challenge does not depend on V[%d]", i)
				t.Eval(1)
				t.NonTrivial(1)
			}
			// V to -V, with D and a as they are: v to -v and t to t - 2 s v e.
			w := append([]*big.Int(nil), vals...)
			w[v[i]] = new(big.Int).Sub(zk.BnN, vals[v[i]])
			w = inc(w, tt[i], new(big.Int).Mul(new(big.Int).Mul(vals[s[i]], new(big.Int).Mul(zk.B(-2), vals[v[i]])), e))
			p := run(w, r)
			t.Check(diff(p) == fmt.Sprintf(" V[%d]", i), "only V[%d] should change, but%s do", i, diff(p))
			t.Check(challengeOf(t, p).Cmp(c0) != 0, "the challenge is the same for V[%d] and its opposite", i)
			// a alone, D alone.
			p = run(inc(vals, tt[i], zk.Pow2(100)), r)
			t.Check(diff(p) == fmt.Sprintf(" a[%d]", i) && challengeOf(t, p).Cmp(c0) != 0, "the challenge does not depend on a[%d]", i)
			t.Eval(2)
			t.NonTrivial(2)
		}
		for _, d := range []*big.Int{zk.Pow2(100), zk.B(-1)} {
			p := run(inc(vals, m, d), r)
			t.Check(diff(p) == " D" && challengeOf(t, p).Cmp(c0) != 0, "the challenge does not depend on D")
			t.Eval(1)
			t.NonTrivial(1)
		}
		t.Sample("%s: %d draws", name, n)
	})
}

func keys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if order(ks[j]) < order(ks[i]) {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// order sorts C, D, V[..], a[..].
func order(s string) string { return s }

func main() {
	_ = sha256.New
	mc.Main(func(c *mc.Ctx) {
		cx.Canonical()
		if *tiny {
			bpx.UseTiny(79, 67)
			salts := 12
			if c.Thorough {
				salts = 120
			}
			for _, n := range []int{2, 4, 8} {
				if n == 8 && !c.Thorough {
					continue
				}
				n := n
				c.Case("rounds of the argument", fmt.Sprint(n), func(t *mc.T) {
					// In a small group challenges coincide now and then: the rounds share a
					// challenge when they do so for all inputs.
					bad, last := 0, ""
					k := salts
					if n == 8 {
						k = 6
					}
					for salt := 1; salt <= k; salt++ {
						if m := rounds(t, n, salt); m != "" {
							bad++
							last = m
						}
					}
					t.Check(bad*2 < k, "n=%d: %s (%d of %d inputs)", n, last, bad, k)
				})
			}
			return
		}
		for _, n := range bpx.Ns {
			n := n
			if n > 16 && !c.Thorough {
				continue
			}
			xs := []*big.Int{zk.B(0), new(big.Int).Sub(zk.Pow2(n), zk.B(1))}
			if c.Thorough && n < 16 {
				xs = append(xs, zk.InRange(n)...)
			}
			for _, x := range zk.Uniq(xs) {
				x := x
				if n == 16 && x.Sign() == 0 && !c.Thorough {
					continue
				}
				c.Case("range proofs", fmt.Sprintf("N=%d %v", n, x), func(t *mc.T) { rangeProof(t, n, x) })
			}
		}
		for n := 1; n <= 64; n *= 2 {
			n := n
			c.Case("inner product arguments", fmt.Sprint(n), func(t *mc.T) { argument(t, n) })
		}
		hashes(c)
		key := func(label string) (*big.Int, *mc.Tape) {
			sk := zk.Hex("1234567812345678123456781234567812345678")
			tape := mc.NewTape(label)
			tape.Answer = map[int][]byte{0: sk.Bytes()}
			return sk, tape
		}
		sk, tape := key("setup")
		mc.UseTape(tape)
		ps, err := ccs08.SetupSet([]int64{1, 5, -12})
		if err != nil {
			panic(err)
		}
		for _, x := range []int64{5, -12} {
			x := x
			ccs(c, fmt.Sprintf("set membership proof of %d", x), 1, sk, []int64{x}, func(vals []*big.Int, r *big.Int) (interface{}, error) {
				mc.UseTape(bpx.Script(vals))
				return cx.ProveSet(x, r, &ps)
			})
		}
		for _, ul := range [][]int64{{3, 1, 2}, {3, 2, 7}, {2, 3, 5}, {5, 3, 117}} {
			ul := ul
			sk, tape := key("setup")
			mc.UseTape(tape)
			pu, err := ccs08.SetupUL(ul[0], ul[1])
			if err != nil {
				panic(err)
			}
			var digits []int64
			for i, x := int64(0), ul[2]; i < ul[1]; i++ {
				digits = append(digits, x%ul[0])
				x /= ul[0]
			}
			if len(digits) > 2 && !c.Thorough && ul[0] > 2 {
				continue
			}
			ccs(c, fmt.Sprintf("proof of %d in [0,%d^%d)", ul[2], ul[0], ul[1]), int(ul[1]), sk, digits, func(vals []*big.Int, r *big.Int) (interface{}, error) {
				mc.UseTape(bpx.Script(vals))
				return cx.ProveUL(zk.B(ul[2]), r, &pu)
			})
		}
	})
}
