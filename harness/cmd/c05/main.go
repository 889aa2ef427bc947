// C05: the inner product argument verifies exactly for the right claim and commitment.
package main

import (
	"flag"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"

	"zkrpmc/bpx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

var tinyP = flag.Int64("tinyp", 0, "small field")
var tinyN = flag.Int64("tinyn", 0, "order of the small curve")

var pointType = reflect.TypeOf((*p256.P256)(nil))

func ip(a, b []*big.Int) *big.Int {
	r := new(big.Int)
	for i := range a {
		r.Add(r, new(big.Int).Mul(a[i], b[i]))
	}
	return r.Mod(r, bulletproofs.ORDER)
}

func cpv(a []*big.Int) []*big.Int {
	var r []*big.Int
	for _, x := range a {
		r = append(r, new(big.Int).Set(x))
	}
	return r
}

// argue proves the claim c about a and b against a commitment to ca and cb.
func argue(a, b []*big.Int, c *big.Int, ca, cb []*big.Int) (pr bulletproofs.InnerProductProof, ok bool, err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			ok, pan = false, fmt.Sprint(r)
		}
	}()
	params, err := bulletproofs.XSetupInnerProduct(nil, nil, nil, c, int64(len(ca)))
	if err != nil {
		return
	}
	commit := bulletproofs.XCommitInnerProduct(params.Gg, params.Hh, ca, cb)
	pr, err = bulletproofs.XProveInnerProduct(a, b, commit, params)
	if err != nil {
		return
	}
	ok, err = pr.Verify()
	return
}

func verify(p bulletproofs.InnerProductProof) (ok bool, pan bool) {
	defer func() {
		if recover() != nil {
			ok, pan = false, true
		}
	}()
	ok, _ = p.Verify()
	return
}

func vecs(n int, all []*big.Int) [][]*big.Int {
	var out [][]*big.Int
	big0 := zk.B(0)
	mk := func(f func(i int) *big.Int) {
		v := make([]*big.Int, n)
		for i := range v {
			v[i] = f(i)
		}
		out = append(out, v)
	}
	for _, x := range all {
		x := x
		mk(func(int) *big.Int { return x })
	}
	for k := 0; k < n; k++ {
		if n > 8 && k%5 != 0 && k != n-1 {
			continue
		}
		k := k
		mk(func(i int) *big.Int {
			if i == k {
				return zk.B(1)
			}
			return big0
		})
	}
	mk(func(i int) *big.Int { return all[i%len(all)] })
	mk(func(i int) *big.Int { return all[(i*7+3)%len(all)] })
	mk(func(i int) *big.Int { return zk.B(int64(1 - 2*(i%2))) })
	mk(func(i int) *big.Int { return zk.B(int64(i + 1)) })
	return out
}

func check(t *mc.T, a, b []*big.Int) {
	q := bulletproofs.ORDER
	right := ip(a, b)
	for d, c := range map[string]*big.Int{"right": right, "+1": new(big.Int).Mod(new(big.Int).Add(right, zk.B(1)), q), "-1": new(big.Int).Mod(new(big.Int).Sub(right, zk.B(1)), q),
		"negated": new(big.Int).Mod(new(big.Int).Neg(right), q), "0": zk.B(0), "doubled": new(big.Int).Mod(new(big.Int).Lsh(right, 1), q), "beyond the order": new(big.Int).Add(right, q)} {
		_, ok, err, pan := argue(cpv(a), cpv(b), c, cpv(a), cpv(b))
		want := new(big.Int).Sub(c, right).Mod(new(big.Int).Sub(c, right), q).Sign() == 0
		t.Check(ok == want, "a=%v b=%v claim %v (%s): verifies = %v, expected %v (err %v %s)", a, b, c, d, ok, want, err, pan)
		t.Outcome(fmt.Sprintf("claim right: %v, verifies: %v", want, ok))
		t.Eval(1)
		t.NonTrivial(1)
	}
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		if *tinyP != 0 {
			bpx.UseTiny(*tinyP, *tinyN)
			tiny(c)
			fitted(c)
			return
		}
		special(c)
		N := zk.SecpN
		alpha := []*big.Int{zk.B(0), zk.B(1), zk.B(2), new(big.Int).Sub(N, zk.B(1)), zk.B(-1), new(big.Int).Rsh(N, 1), zk.Pow2(255), new(big.Int).Add(N, zk.B(5)),
			zk.Hex("123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0")}
		for _, n := range []int{1, 2} {
			var all [][]*big.Int
			for _, x := range alpha {
				if n == 1 {
					all = append(all, []*big.Int{x})
					continue
				}
				for _, y := range alpha {
					all = append(all, []*big.Int{x, y})
				}
			}
			for i, a := range all {
				for j, b := range all {
					if n == 2 && !c.Thorough && (i*31+j)%17 != 0 {
						continue
					}
					a, b := a, b
					c.Case(fmt.Sprintf("n=%d vectors", n), fmt.Sprintf("%d,%d", i, j), func(t *mc.T) { check(t, a, b) })
				}
			}
		}
		for _, n := range []int{4, 8, 16, 32} {
			vs := vecs(n, alpha)
			for i, a := range vs {
				for j, b := range vs {
					if !c.Thorough && n > 4 && (i+j*3)%(n/2) != 0 {
						continue
					}
					a, b := a, b
					c.Case(fmt.Sprintf("n=%d vectors", n), fmt.Sprintf("%d,%d", i, j), func(t *mc.T) { check(t, a, b) })
				}
			}
		}
		// Lengths beyond those of range proofs: a vector that is not zero anywhere, and single
		// entries at and around every boundary.
		for _, n := range []int{64, 128, 256} {
			n := n
			mk := func(f func(i int) *big.Int) []*big.Int {
				v := make([]*big.Int, n)
				for i := range v {
					v[i] = f(i)
				}
				return v
			}
			dense := mk(func(i int) *big.Int { return zk.B(int64(3*i + 2)) })
			large := mk(func(i int) *big.Int { return new(big.Int).Add(alpha[i%len(alpha)], zk.B(int64(i))) })
			if n == 256 && !c.Thorough {
				for d := int64(0); d < 2; d++ {
					d := d
					c.Case("long vectors", fmt.Sprintf("n=%d dense, claim off by %d", n, d), func(t *mc.T) {
						_, ok, err, pan := argue(cpv(dense), cpv(large), new(big.Int).Add(ip(dense, large), zk.B(d)), cpv(dense), cpv(large))
						t.Check(ok == (d == 0), "n=%d: verifies = %v for the claim off by %d (%v %s)", n, ok, d, err, pan)
						t.Eval(1)
						t.NonTrivial(1)
					})
				}
				continue
			}
			c.Case("long vectors", fmt.Sprintf("n=%d dense", n), func(t *mc.T) { check(t, dense, large) })
			for _, k := range []int{0, n/2 - 1, n / 2, n - 2, n - 1} {
				k := k
				c.Case("long vectors", fmt.Sprintf("n=%d entry %d", n, k), func(t *mc.T) {
					e := mk(func(i int) *big.Int {
						if i == k {
							return zk.B(7)
						}
						return zk.B(0)
					})
					for _, ab := range [][2][]*big.Int{{e, dense}, {large, e}} {
						a, b := ab[0], ab[1]
						for d := int64(-7); d <= 7; d += 7 {
							_, ok, err, pan := argue(cpv(a), cpv(b), new(big.Int).Add(ip(a, b), zk.B(d)), cpv(a), cpv(b))
							t.Check(ok == (d == 0), "n=%d, entry %d: verifies = %v for the claim off by %d (%v %s)", n, k, ok, d, err, pan)
							t.Eval(1)
							t.NonTrivial(1)
						}
					}
				})
			}
		}
		// The commitment must be to a and b.
		for _, n := range []int{1, 2, 4, 8} {
			n := n
			for k := 0; k < n; k++ {
				k := k
				c.Case(fmt.Sprintf("n=%d commitment", n), fmt.Sprint(k), func(t *mc.T) {
					a, b := make([]*big.Int, n), make([]*big.Int, n)
					for i := range a {
						a[i], b[i] = zk.B(int64(3+i)), zk.B(int64(10*i+7))
					}
					for _, which := range []string{"a", "b", "both"} {
						for _, d := range []int64{1, -1, 1000} {
							ca, cb := cpv(a), cpv(b)
							if which != "b" {
								ca[k].Add(ca[k], zk.B(d))
							}
							if which != "a" {
								cb[k].Add(cb[k], zk.B(d))
							}
							for _, cl := range []*big.Int{ip(a, b), ip(ca, cb)} {
								_, ok, _, _ := argue(cpv(a), cpv(b), cl, ca, cb)
								t.Check(!ok, "the commitment is to other vectors (%s[%d] %+d), and it verifies", which, k, d)
								t.Eval(1)
								t.NonTrivial(1)
							}
						}
					}
				})
			}
		}
		// Lengths that differ.
		for n := 0; n <= 5; n++ {
			for m := 0; m <= 5; m++ {
				n, m := n, m
				if n == m {
					continue
				}
				c.Case("lengths", fmt.Sprintf("%d,%d", n, m), func(t *mc.T) {
					a, b := make([]*big.Int, n), make([]*big.Int, m)
					for i := range a {
						a[i] = zk.B(int64(i + 1))
					}
					for i := range b {
						b[i] = zk.B(int64(i + 2))
					}
					params, err := bulletproofs.XSetupInnerProduct(nil, nil, nil, zk.B(1), 4)
					if err != nil {
						t.Failf("setup: %v", err)
					}
					_, err = bulletproofs.XProveInnerProduct(a, b, params.Gg[0], params)
					t.Check(err != nil, "vectors of lengths %d and %d are accepted", n, m)
				})
			}
		}
		for _, n := range []int64{0, -1, -8, -1 << 62} {
			n := n
			c.Case("lengths", fmt.Sprintf("setup %d", n), func(t *mc.T) {
				_, err := bulletproofs.XSetupInnerProduct(nil, nil, nil, zk.B(1), n)
				t.Check(err != nil, "setup accepts length %d", n)
			})
		}
		// Alterations.
		for _, n := range []int{1, 2, 4, 8} {
			n := n
			mk := func(k int64) bulletproofs.InnerProductProof {
				a, b := make([]*big.Int, n), make([]*big.Int, n)
				for i := range a {
					a[i], b[i] = zk.B(int64(3+i)*k), zk.B(int64(10*i+7)+k*5)
				}
				pr, _, _, _ := argue(a, b, ip(a, b), a, b)
				return pr
			}
			alter(c, n, mk)
			// Arguments in which terms of the last equation vanish.
			if n > 4 {
				continue
			}
			for _, k := range []string{"a=0", "b=0", "a=b=0", "<a,b>=0", "a=b", "a=-b"} {
				k := k
				c.Case(fmt.Sprintf("n=%d vanishing terms", n), k, func(t *mc.T) {
					a, b := make([]*big.Int, n), make([]*big.Int, n)
					for i := range a {
						a[i], b[i] = zk.B(int64(3+i)), zk.B(int64(10*i+7))
						if k == "a=0" || k == "a=b=0" {
							a[i] = zk.B(0)
						}
						if k == "b=0" || k == "a=b=0" {
							b[i] = zk.B(0)
						}
						if k == "<a,b>=0" && (i > 0 || n == 1) {
							b[i] = zk.B(0)
						}
						if k == "a=b" || k == "a=-b" {
							b[i] = new(big.Int).Set(a[i])
						}
						if k == "a=-b" {
							b[i].Neg(b[i])
						}
					}
					if k == "<a,b>=0" {
						a[0] = zk.B(0)
					}
					pr, ok, err, pan := argue(cpv(a), cpv(b), ip(a, b), cpv(a), cpv(b))
					t.Check(ok, "n=%d, %s: does not verify (%v %s)", n, k, err, pan)
					q := bulletproofs.ORDER
					vals := func(v *big.Int) []*big.Int {
						return []*big.Int{v, new(big.Int).Neg(v), new(big.Int).Sub(q, v), zk.B(0), zk.B(1), zk.B(-1), new(big.Int).Lsh(v, 1), new(big.Int).Sub(v, zk.B(1))}
					}
					same := func(x, y *big.Int) bool {
						d := new(big.Int).Sub(x, y)
						return d.Mod(d, q).Sign() == 0
					}
					for _, A := range append(vals(pr.A), pr.B) {
						for _, B := range append(vals(pr.B), pr.A) {
							alt := zk.Clone(pr).(bulletproofs.InnerProductProof)
							alt.A, alt.B = A, B
							got, _ := verify(alt)
							want := same(A, pr.A) && same(B, pr.B)
							t.Check(got == want, "n=%d, %s: verifies = %v with A=%v B=%v instead of %v and %v", n, k, got, A, B, pr.A, pr.B)
							t.Eval(1)
							t.NonTrivial(1)
						}
					}
					// Points negated, in all combinations.
					g := func(p *bulletproofs.InnerProductProof) []**p256.P256 {
						o := []**p256.P256{&p.P, &p.U}
						for i := range p.Ls {
							o = append(o, &p.Ls[i], &p.Rs[i])
						}
						return o
					}
					cu := bpx.Curve
					for m := 1; m < 1<<uint(len(g(&pr))); m++ {
						alt := zk.Clone(pr).(bulletproofs.InnerProductProof)
						neg := ""
						changed := false
						for i, pt := range g(&alt) {
							if m>>uint(i)&1 == 1 {
								r := bpx.Pt(*pt)
								changed = changed || !cu.Eq(r, cu.Neg(r))
								*pt = bpx.P(cu.Neg(r))
								neg += []string{"P", "U", "L0", "R0", "L1", "R1"}[i] + " "
							}
						}
						if !changed {
							continue
						}
						// U does not matter where <a,b> and all cross terms vanish.
						if got, _ := verify(alt); got {
							q := alt
							q.U = pr.U
							if zk.Dump(q) == zk.Dump(pr) && ip([]*big.Int{pr.A}, []*big.Int{pr.B}).Sign() == 0 {
								continue
							}
							t.Failf("n=%d, %s: verifies with %snegated", n, k, neg)
						}
						t.Eval(1)
						t.NonTrivial(1)
					}
				})
			}
		}
	})
}

// relevant are the parts of an argument that its equation involves.
func relevant(path string) bool {
	for _, p := range []string{".Params.Cc", ".Params.Uu", ".Params.H.", ".Params.N", ".N"} {
		if len(path) >= len(p) && path[:len(p)] == p {
			return false
		}
	}
	return path != ".Params.H"
}

func alter(c *mc.Ctx, n int, mk func(k int64) bulletproofs.InnerProductProof) {
	shape := mk(1)
	rej := func(t *mc.T, q *bulletproofs.InnerProductProof, f string, a ...interface{}) {
		ok, _ := verify(*q)
		t.Check(!ok, "n=%d: verifies with %s", n, fmt.Sprintf(f, a...))
		t.Eval(1)
		t.NonTrivial(1)
	}
	cp := func(p bulletproofs.InnerProductProof) *bulletproofs.InnerProductProof {
		q := zk.Clone(p).(bulletproofs.InnerProductProof)
		return &q
	}
	for li, l := range zk.Leaves(&shape) {
		li, path := li, l.Path
		if !relevant(path) {
			continue
		}
		c.Case(fmt.Sprintf("n=%d altered integers", n), path, func(t *mc.T) {
			p := mk(1)
			if ok, _ := verify(p); !ok {
				t.Failf("the unaltered argument does not verify")
			}
			v, isBig := zk.Leaves(&p)[li].V.Interface().(*big.Int)
			if !isBig || v == nil {
				return
			}
			for _, w := range []*big.Int{new(big.Int).Add(v, zk.B(1)), new(big.Int).Sub(v, zk.B(1)), zk.B(0), zk.B(1), new(big.Int).Neg(v), new(big.Int).Lsh(v, 1), new(big.Int).Xor(v, zk.Pow2(200))} {
				if new(big.Int).Sub(w, v).Mod(new(big.Int).Sub(w, v), zk.SecpN).Sign() == 0 {
					continue
				}
				// Coordinates outside of the field are no elements at all: see C26.
				if (strings.HasSuffix(path, ".X") || strings.HasSuffix(path, ".Y")) && (w.Sign() < 0 || w.Cmp(zk.SecpP) >= 0) {
					continue
				}
				q := cp(p)
				zk.Leaves(q)[li].V.Set(reflect.ValueOf(w))
				rej(t, q, "%s = %v", path, w)
			}
		})
	}
	for pi, l := range zk.Find(&shape, pointType) {
		pi, path := pi, l.Path
		if !relevant(path) {
			continue
		}
		c.Case(fmt.Sprintf("n=%d altered points", n), path, func(t *mc.T) {
			p, o := mk(1), mk(2)
			at := func(p *bulletproofs.InnerProductProof, i int) reflect.Value { return zk.Find(p, pointType)[i].V }
			v := at(&p, pi).Interface().(*p256.P256)
			if v == nil {
				return
			}
			ref := bpx.Pt(v)
			cu := bpx.Curve
			cands := []*p256.P256{bpx.P(cu.Neg(ref)), {}, bpx.P(cu.G()), bpx.P(cu.Add(ref, ref)), bpx.P(cu.Add(ref, cu.G())), at(&o, pi).Interface().(*p256.P256)}
			for j := range zk.Find(&p, pointType) {
				if j != pi {
					cands = append(cands, at(&p, j).Interface().(*p256.P256))
				}
			}
			for k, w := range cands {
				if w == nil || cu.Eq(bpx.Pt(w), ref) {
					continue
				}
				q := cp(p)
				at(q, pi).Set(reflect.ValueOf(w))
				rej(t, q, "%s replaced by candidate %d", path, k)
			}
		})
	}
	// Parts exchanged with another argument, all subsets.
	type part struct {
		name string
		f    func(q, o *bulletproofs.InnerProductProof)
	}
	parts := []part{
		{"Ls", func(q, o *bulletproofs.InnerProductProof) { q.Ls = o.Ls }},
		{"Rs", func(q, o *bulletproofs.InnerProductProof) { q.Rs = o.Rs }},
		{"U", func(q, o *bulletproofs.InnerProductProof) { q.U = o.U }},
		{"P", func(q, o *bulletproofs.InnerProductProof) { q.P = o.P }},
		{"Gg", func(q, o *bulletproofs.InnerProductProof) { q.Gg = o.Gg }},
		{"Hh", func(q, o *bulletproofs.InnerProductProof) { q.Hh = o.Hh }},
		{"A", func(q, o *bulletproofs.InnerProductProof) { q.A = o.A }},
		{"B", func(q, o *bulletproofs.InnerProductProof) { q.B = o.B }},
		{"Params", func(q, o *bulletproofs.InnerProductProof) { q.Params = o.Params }},
	}
	for m := 1; m < 1<<uint(len(parts))-1; m++ {
		m := m
		c.Case(fmt.Sprintf("n=%d spliced", n), fmt.Sprintf("%09b", m), func(t *mc.T) {
			p, o := mk(1), mk(2)
			q := cp(p)
			names := ""
			for i, pt := range parts {
				if m>>uint(i)&1 == 1 {
					pt.f(q, cp(o))
					names += pt.name + " "
				}
			}
			d := zk.Dump(*q)
			if d == zk.Dump(p) || d == zk.Dump(o) {
				return
			}
			// A, B and the folded points are all that differs when n=1.
			rej(t, q, "%sof another argument", names)
		})
	}
	// Lengths of the rounds.
	c.Case(fmt.Sprintf("n=%d rounds", n), "lists", func(t *mc.T) {
		p := mk(1)
		if n > 1 {
			q := cp(p)
			q.Ls, q.Rs = q.Ls[:len(q.Ls)-1], q.Rs[:len(q.Rs)-1]
			rej(t, q, "the last round dropped")
			q = cp(p)
			q.Ls, q.Rs = q.Ls[1:], q.Rs[1:]
			rej(t, q, "the first round dropped")
			q = cp(p)
			q.Ls, q.Rs = nil, nil
			rej(t, q, "no rounds")
		}
		q := cp(p)
		q.Ls, q.Rs = append(q.Ls, bpx.P(bpx.Curve.G())), append(q.Rs, bpx.P(bpx.Curve.G()))
		rej(t, q, "one more round")
	})
}

func tiny(c *mc.Ctx) {
	q := *tinyN
	b1 := func(x int64) []*big.Int { return []*big.Int{zk.B(x)} }
	for a := int64(0); a < q; a++ {
		for b := int64(0); b < q; b++ {
			a, b := a, b
			c.Case("small group, n=1, all a, b and claims", fmt.Sprintf("%d,%d", a, b), func(t *mc.T) {
				for cl := int64(0); cl < q; cl++ {
					cl := cl
					bpx.Persistent(t, func() string {
						_, ok, err, pan := argue(b1(a), b1(b), zk.B(cl), b1(a), b1(b))
						if want := a*b%q == cl; ok != want {
							return fmt.Sprintf("a=%d b=%d claim %d: verifies = %v (%v %s)", a, b, cl, ok, err, pan)
						}
						return ""
					})
					t.Eval(1)
					t.NonTrivial(1)
				}
			})
		}
	}
	// All vectors of length 2 over a set of residues; all claims.
	m := int64(6)
	if c.Thorough {
		m = q
		if m > 13 {
			m = 13
		}
	}
	step := q / m
	for i := int64(0); i < m*m; i++ {
		i := i
		a := []*big.Int{zk.B(i / m * step), zk.B(i % m * step)}
		c.Case("small group, n=2", fmt.Sprint(i), func(t *mc.T) {
			for j := int64(0); j < m*m; j++ {
				b := []*big.Int{zk.B(j / m * step), zk.B(j % m * step)}
				right := ip(a, b).Int64()
				for cl := int64(0); cl < q; cl++ {
					cl := cl
					bpx.Persistent(t, func() string {
						_, ok, err, pan := argue(cpv(a), cpv(b), zk.B(cl), cpv(a), cpv(b))
						if want := right == cl; ok != want {
							return fmt.Sprintf("a=%v b=%v claim %d: verifies = %v (%v %s)", a, b, cl, ok, err, pan)
						}
						return ""
					})
					t.Eval(1)
					t.NonTrivial(1)
				}
			}
		})
	}
	// Length 4 over {0,1,-1}: right claim and one wrong claim.
	al := []int64{0, 1, -1}
	lim := int64(81)
	for i := int64(0); i < lim; i++ {
		i := i
		dec := func(i int64) []*big.Int {
			return []*big.Int{zk.B(al[i%3]), zk.B(al[i/3%3]), zk.B(al[i/9%3]), zk.B(al[i/27%3])}
		}
		c.Case("small group, n=4", fmt.Sprint(i), func(t *mc.T) {
			for j := int64(0); j < lim; j++ {
				a, b := dec(i), dec(j)
				right := ip(a, b)
				for d := int64(0); d < 2; d++ {
					d := d
					bpx.Persistent(t, func() string {
						_, ok, err, pan := argue(cpv(a), cpv(b), new(big.Int).Add(right, zk.B(d)), cpv(a), cpv(b))
						if ok != (d == 0) {
							return fmt.Sprintf("a=%v b=%v claim %d beside the right one: verifies = %v (%v %s)", a, b, d, ok, err, pan)
						}
						return ""
					})
					t.Eval(1)
					t.NonTrivial(1)
				}
			}
		})
	}
}

// fitted lets a prover fit the claim or the commitment to the challenge of an
// earlier attempt. In a small group it learns that challenge from U = Uu^x, so
// that nothing is assumed about how the challenge is computed.
func fitted(c *mc.Ctx) {
	const P, N = 8053, 7879
	for _, n := range []int64{1, 2, 4, 8} {
		for k := int64(0); k < 6; k++ {
			n, k := n, k
			c.Case("small group, claim or commitment fitted to the challenge", fmt.Sprintf("n=%d %d", n, k), func(t *mc.T) {
				bpx.UseTiny(P, N)
				defer bpx.UseTiny(*tinyP, *tinyN)
				var a, b []*big.Int
				for i := int64(0); i < n; i++ {
					a, b = append(a, zk.B(2+i*k)), append(b, zk.B(1+k+3*i))
				}
				ab := ip(a, b)
				for _, delta := range []int64{1, 12, 3000, N - 1} {
					delta := zk.B(delta)
					bpx.Persistent(t, func() string {
						par, err := bulletproofs.XSetupInnerProduct(nil, nil, nil, new(big.Int).Set(ab), n)
						if err != nil {
							return ""
						}
						log := map[string]int64{}
						g := bpx.Pt(par.Uu)
						for x, acc := int64(0), (zk.Pt{}); x < N; x++ {
							log[fmt.Sprint(acc)] = x
							acc = bpx.Curve.Add(acc, g)
						}
						com := bulletproofs.XCommitInnerProduct(par.Gg, par.Hh, cpv(a), cpv(b))
						run := func(cl *big.Int, com *p256.P256) (x *big.Int, ok bool) {
							par := par
							par.Cc = cl
							pr, err := bulletproofs.XProveInnerProduct(cpv(a), cpv(b), com, par)
							if err != nil {
								return zk.B(1), false
							}
							ok, _ = pr.Verify()
							return zk.B(log[fmt.Sprint(bpx.Pt(pr.U))]), ok
						}
						inv := func(x *big.Int) *big.Int { return new(big.Int).ModInverse(x, zk.B(N)) }
						bad := ""
						// P = g^a h^b Uu^delta; the claim must be ab - delta/x.
						P := bpx.Mul(com, bpx.Exp(par.Uu, delta))
						cl := ab
						for i := 0; i < 3; i++ {
							x, ok := run(cl, P)
							if ok && cl.Cmp(ab) != 0 {
								bad = fmt.Sprintf("<a,b> = %v is proved to be %v: the claim was fitted to the challenge", ab, cl)
							}
							if x.Sign() == 0 {
								break
							}
							cl = new(big.Int).Mul(delta, inv(x))
							cl.Sub(ab, cl).Mod(cl, zk.B(N))
							t.Eval(1)
							t.NonTrivial(1)
						}
						// The claim is ab - delta; P must be g^a h^b U^delta.
						cl = new(big.Int).Sub(ab, delta)
						cl.Mod(cl, zk.B(N))
						P = com
						for i := 0; i < 3; i++ {
							x, ok := run(cl, P)
							if ok {
								bad = fmt.Sprintf("<a,b> = %v is proved to be %v: the commitment was fitted to the challenge", ab, cl)
							}
							P = bpx.Mul(com, bpx.Exp(par.Uu, new(big.Int).Mul(x, delta)))
							t.Eval(1)
							t.NonTrivial(1)
						}
						return bad
					})
				}
			})
		}
	}
}

// special lets a prover send rounds with special points (at infinity, equal, opposite, or
// parts of the statement), in case the challenge of such rounds is a number that it knows.
func special(c *mc.Ctx) {
	O := func() *p256.P256 { return new(p256.P256).SetInfinity() }
	cp := func(p *p256.P256) *p256.P256 { return bpx.P(bpx.Pt(p)) }
	neg := func(p *p256.P256) *p256.P256 { return bpx.P(bpx.Curve.Neg(bpx.Pt(p))) }
	for _, n := range []int64{2, 4, 8} {
		n := n
		c.Case("rounds of special points", fmt.Sprintf("n=%d", n), func(t *mc.T) {
			q := bulletproofs.ORDER
			var a, b []*big.Int
			for i := int64(0); i < n; i++ {
				a, b = append(a, zk.B(3+i)), append(b, zk.B(7+i*i))
			}
			par, err := bulletproofs.XSetupInnerProduct(nil, nil, nil, zk.B(4711), n)
			t.Check(err == nil, "setup: %v", err)
			com := bulletproofs.XCommitInnerProduct(par.Gg, par.Hh, a, b)
			tpl, err := bulletproofs.XProveInnerProduct(a, b, com, par)
			t.Check(err == nil, "prove: %v", err)
			wrong := tpl.Params.P
			var xs []*big.Int
			for _, x := range []int64{1, -1, 2, -2, 3} {
				xs = append(xs, new(big.Int).Mod(zk.B(x), q), new(big.Int).ModInverse(zk.B(x), q))
			}
			for _, in := range [][]*p256.P256{{O(), O()}, {O(), O(), O()}} {
				// What the hash of nothing is.
				if h, ok := hash(in); ok {
					xs = append(xs, h)
				}
			}
			A, B := zk.B(11), zk.B(13)
			for _, x := range xs {
				xi := new(big.Int).ModInverse(x, q)
				if xi == nil {
					continue
				}
				g, h := par.Gg, par.Hh
				fold := func(v []*p256.P256, l, r *big.Int) (out []*p256.P256) {
					for i := 0; i < len(v)/2; i++ {
						out = append(out, bpx.Mul(bpx.Exp(v[i], l), bpx.Exp(v[i+len(v)/2], r)))
					}
					return
				}
				for len(g) > 1 {
					g, h = fold(g, xi, x), fold(h, x, xi)
				}
				T := bpx.Mul(bpx.Mul(bpx.Exp(g[0], A), bpx.Exp(h[0], B)), bpx.Exp(tpl.U, new(big.Int).Mul(A, B)))
				x2 := new(big.Int).Mod(new(big.Int).Mul(x, x), q)
				xi2 := new(big.Int).ModInverse(x2, q)
				try := func(name string, P, L, R *p256.P256) {
					f := tpl
					f.Params.P, f.P, f.Gg, f.Hh, f.A, f.B = cp(P), cp(T), cp(g[0]), cp(h[0]), A, B
					f.Ls, f.Rs = nil, nil
					for k := int64(2); k < n; k *= 2 {
						f.Ls, f.Rs = append(f.Ls, O()), append(f.Rs, O())
					}
					f.Ls, f.Rs = append(f.Ls, L), append(f.Rs, R)
					// The plan works against a verifier with that challenge.
					end := bpx.Mul(bpx.Mul(bpx.Exp(L, x2), P), bpx.Exp(R, xi2))
					if fmt.Sprint(bpx.Pt(end)) != fmt.Sprint(bpx.Pt(T)) {
						panic("the plan does not work: " + name)
					}
					ok, _ := verify(f)
					t.Check(!ok, "n=%d: a wrong inner product is accepted with a last round of the points %s (challenge %v), the others at infinity", n, name, x)
					t.Eval(1)
					t.NonTrivial(1)
				}
				// Y^k = T/P.
				solve := func(rest *p256.P256, k *big.Int) *p256.P256 {
					ki := new(big.Int).ModInverse(new(big.Int).Mod(k, q), q)
					if ki == nil {
						return nil
					}
					return bpx.Exp(bpx.Mul(T, neg(rest)), ki)
				}
				// The statement that needs no rounds: its inner product is n*A*B, not A*B.
				try("(O, O)", T, O(), O())
				try("(O, Y)", wrong, O(), solve(wrong, xi2))
				try("(Y, O)", wrong, solve(wrong, x2), O())
				if Y := solve(wrong, new(big.Int).Add(x2, xi2)); Y != nil {
					try("(Y, Y)", wrong, Y, cp(Y))
				}
				if Y := solve(wrong, new(big.Int).Sub(x2, xi2)); Y != nil {
					try("(Y, -Y)", wrong, Y, neg(Y))
				}
				for name, S := range map[string]*p256.P256{"P": wrong, "-P": neg(wrong), "g": par.Gg[0], "h": par.Hh[0], "U": tpl.U} {
					try("("+name+", Y)", wrong, cp(S), solve(bpx.Mul(wrong, bpx.Exp(S, x2)), xi2))
					try("(Y, "+name+")", wrong, solve(bpx.Mul(wrong, bpx.Exp(S, xi2)), x2), cp(S))
				}
			}
		})
	}
}

// hash is the library's challenge for the points.
func hash(ps []*p256.P256) (x *big.Int, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	var in []reflect.Value
	for _, p := range ps {
		in = append(in, reflect.ValueOf(p))
	}
	x = reflect.ValueOf(bulletproofs.HashBP).Call(in)[0].Interface().(*big.Int)
	return new(big.Int).Mod(x, bulletproofs.ORDER), true
}
