// C16: the pairing against exponent arithmetic in an independent F_p12, for
// all pairs of exponents of an alphabet in every representation, and the
// multi-pairing check for all lists over an alphabet.
package main

import (
	"encoding/hex"
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"

	"zkrpmc/bnx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

func p1(k *big.Int) *bn256.G1 { return new(bn256.G1).ScalarBaseMult(k) }
func p2(k *big.Int) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(k) }

// forms of k*g: unnormalised, affine, and through an addition.
func forms1(k *big.Int) []*bn256.G1 {
	aff, ok := new(bn256.G1).Unmarshal(p1(k).Marshal())
	if !ok {
		panic("G1 round trip")
	}
	out := []*bn256.G1{p1(k), aff, new(bn256.G1).Add(p1(new(big.Int).Sub(k, zk.B(3))), p1(zk.B(3))), new(bn256.G1).Neg(p1(new(big.Int).Neg(k)))}
	if new(big.Int).Mod(k, zk.BnN).Sign() == 0 {
		out = append(out, new(bn256.G1).SetInfinity())
	}
	return out
}

func forms2(k *big.Int) []*bn256.G2 {
	aff, ok := new(bn256.G2).Unmarshal(p2(k).Marshal())
	if !ok {
		panic("G2 round trip")
	}
	out := []*bn256.G2{p2(k), aff, new(bn256.G2).Add(p2(new(big.Int).Sub(k, zk.B(3))), p2(zk.B(3))), new(bn256.G2).Neg(p2(new(big.Int).Neg(k)))}
	if new(big.Int).Mod(k, zk.BnN).Sign() == 0 {
		out = append(out, new(bn256.G2).SetInfinity())
	}
	return out
}

func enc(e *bn256.GT) string { return hex.EncodeToString(e.Marshal()) }

// again pairs variables that are given one value after the other in place.
func again(c *mc.Ctx) {
	ref := bnx.GT()
	type st struct{ a, b int64 }
	sts := []st{{5, 7}, {10, 7}, {5, 14}, {7, 5}, {-5, 7}, {5, -7}, {1, 1}, {0, 7}, {5, 0}, {1, 35}}
	if c.Thorough {
		sts = append(sts, st{-1, 1}, st{1, -1}, st{1 << 40, 3}, st{0, 0}, st{35, 1}, st{2, 2})
	}
	x, y := p1(zk.B(1)), p2(zk.B(1))
	set := func(i int) {
		// In place: the objects inside the variables stay the same, too.
		x.ScalarBaseMult(zk.B(sts[i].a))
		y.ScalarBaseMult(zk.B(sts[i].b))
	}
	intact := func(i int) bool {
		return zk.Dump(zk.Clone(x).(*bn256.G1).Marshal()) == zk.Dump(p1(zk.B(sts[i].a)).Marshal()) && zk.Dump(zk.Clone(y).(*bn256.G2).Marshal()) == zk.Dump(p2(zk.B(sts[i].b)).Marshal())
	}
	for i := range sts {
		i := i
		c.Case("variables used again", fmt.Sprint(sts[i]), func(t *mc.T) {
			for j := range sts {
				if !c.Thorough && j%2 != i%2 && sts[i].a != sts[j].a && sts[i].b != sts[j].b {
					continue
				}
				mc.Reuse{Set: set, Intact: intact,
					Call:     func() interface{} { return bn256.Pair(x, y) },
					Want:     func(i int) string { return ref.Enc(ref.Exp(zk.B(sts[i].a * sts[i].b))) },
					Read:     func(r interface{}) string { return enc(zk.Clone(r).(*bn256.GT)) },
					Scribble: func(r interface{}) { e := r.(*bn256.GT); e.Add(e, e); e.Invert(e); e.ScalarMult(e, zk.B(3)) },
				}.Run(t, "Pair", i, j)
			}
			// The multi-pairing, with one pair of the list in the variables.
			u, v := p1(zk.B(-5)), p2(zk.B(7))
			for j := range sts {
				mc.Reuse{Set: set, Intact: intact,
					Call: func() interface{} {
						return bn256.PairingCheck([]*bn256.G1{x, u}, []*bn256.G2{y, v})
					},
					Want: func(i int) string { return fmt.Sprint(sts[i].a*sts[i].b == 35) },
					Read: func(r interface{}) string { return fmt.Sprint(r) },
				}.Run(t, "PairingCheck", i, j)
			}
		})
	}
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		again(c)
		ref := bnx.GT()
		small := []*big.Int{}
		for k := int64(-4); k <= 6; k++ {
			small = append(small, zk.B(k))
		}
		ks := append([]*big.Int{new(big.Int).Sub(zk.BnN, zk.B(1)), zk.BnN, new(big.Int).Add(zk.BnN, zk.B(1)), new(big.Int).Rsh(zk.BnN, 1), zk.Pow2(64), zk.Pow2(128), zk.Pow2(255),
			new(big.Int).Neg(zk.Pow2(200)), zk.Hex("123456789abcdef0fedcba9876543210ffeeddccbbaa99887766554433221100")}, small...)
		if c.Thorough {
			ks = zk.Scalars(zk.BnN, 6, false)
		}
		check := func(t *mc.T, what string, a *bn256.G1, b *bn256.G2, exp *big.Int) {
			ra, rb := zk.Dump(a), zk.Dump(b)
			e := bn256.Pair(a, b)
			t.Check(zk.Dump(a) == ra && zk.Dump(b) == rb, "pairing %s changes its inputs", what)
			want := ref.Enc(ref.Exp(exp))
			t.Check(enc(e) == want, "e(%s) = %s, want %s", what, enc(e), want)
			t.Check(e.IsOne() == (new(big.Int).Mod(exp, zk.BnN).Sign() == 0), "e(%s).IsOne() = %v", what, e.IsOne())
			// The result stands on its own.
			e.Add(e, e)
			t.Check(zk.Dump(a) == ra && zk.Dump(b) == rb, "using the result of pairing %s changes its inputs", what)
			t.Eval(1)
			t.NonTrivial(1)
		}
		c.Case("non-degenerate", "", func(t *mc.T) {
			g := ref.Gen
			t.Check(ref.Enc(g) != ref.Enc(ref.Zero), "e(P, Q) is one")
			t.Check(ref.Enc(ref.Mul(ref.Add(ref.Mul(g, new(big.Int).Sub(zk.BnN, zk.B(1))), g), zk.B(1))) == ref.Enc(ref.Zero), "e(P, Q)^n is not one")
		})
		for i := range ks {
			a := ks[i]
			c.Case("bilinear", a.Text(16), func(t *mc.T) {
				fa := forms1(a)
				for j, b := range ks {
					if !c.Thorough && (i+j)%2 == 1 && a.BitLen() > 8 && b.BitLen() > 8 {
						continue
					}
					ab := new(big.Int).Mul(a, b)
					fb := forms2(b)
					x := fa[(i+j)%len(fa)]
					y := fb[(i+2*j)%len(fb)]
					check(t, fmt.Sprintf("%v P, %v Q; forms %d %d", a, b, (i+j)%len(fa), (i+2*j)%len(fb)), x, y, ab)
				}
			})
		}
		// Every pair of representations.
		fks := []int64{0, 1, -1, 3}
		for _, a := range fks {
			for _, b := range fks {
				a, b := zk.B(a), zk.B(b)
				c.Case("representations", fmt.Sprintf("%v %v", a, b), func(t *mc.T) {
					for i, x := range forms1(a) {
						for j, y := range forms2(b) {
							check(t, fmt.Sprintf("%v P, %v Q; forms %d %d", a, b, i, j), x, y, new(big.Int).Mul(a, b))
						}
					}
				})
			}
		}
		// Lists.
		type pr struct{ a, b int64 }
		list := func(t *mc.T, l []pr, form int) {
			var x []*bn256.G1
			var y []*bn256.G2
			sum := int64(0)
			for i, q := range l {
				f1, f2 := forms1(zk.B(q.a)), forms2(zk.B(q.b))
				x = append(x, f1[(form+i)%len(f1)])
				y = append(y, f2[(form+2*i)%len(f2)])
				sum += q.a * q.b
			}
			r := zk.Dump(x) + zk.Dump(y)
			got := bn256.PairingCheck(x, y)
			t.Check(got == (sum == 0), "PairingCheck(%v) = %v", l, got)
			t.Check(zk.Dump(x)+zk.Dump(y) == r, "PairingCheck(%v) changes its inputs", l)
			t.Eval(1)
			t.NonTrivial(1)
			t.Outcome(fmt.Sprint(got))
		}
		// fixed checks a list whose entries all have the same representation (form >= 0), or
		// where entries for the same multiple are one object (form < 0).
		fixed := func(t *mc.T, l []pr, form int) {
			var x []*bn256.G1
			var y []*bn256.G2
			sum := int64(0)
			m1, m2 := map[int64]*bn256.G1{}, map[int64]*bn256.G2{}
			for _, q := range l {
				sum += q.a * q.b
				if form >= 0 {
					x = append(x, forms1(zk.B(q.a))[form])
					y = append(y, forms2(zk.B(q.b))[form])
					continue
				}
				if m1[q.a] == nil {
					m1[q.a] = forms1(zk.B(q.a))[-form-1]
				}
				if m2[q.b] == nil {
					m2[q.b] = forms2(zk.B(q.b))[-form-1]
				}
				x, y = append(x, m1[q.a]), append(y, m2[q.b])
			}
			r := zk.Dump(x) + zk.Dump(y)
			for i := 0; i < 2; i++ {
				got := bn256.PairingCheck(x, y)
				t.Check(got == (sum == 0), "PairingCheck(%v) = %v with all in form %d", l, got, form)
				t.Check(zk.Dump(x)+zk.Dump(y) == r, "PairingCheck(%v) changes its inputs", l)
			}
			t.Eval(1)
			t.NonTrivial(1)
			t.Outcome(fmt.Sprint(sum == 0))
		}
		affine := [][]pr{{{1, 1}, {1, -1}}, {{1, 1}, {1, 1}}, {{1, 1}, {-1, 1}}, {{2, 1}, {1, -1}}, {{2, 1}, {1, -2}}, {{1, 1}, {2, -1}}, {{1, 2}, {2, -1}}, {{3, 1}, {3, -1}}, {{3, 1}, {-3, -1}}, {{1, 3}, {1, -3}}, {{2, 3}, {3, -2}}, {{-1, 1}, {-1, 1}},
			{{1, 1}, {1, -1}, {1, 1}}, {{1, 1}, {1, -1}, {0, 1}}, {{1, 1}, {0, 1}, {1, -1}}, {{1, 1}, {1, 0}, {1, -1}}, {{1, 1}, {1, 1}, {1, -2}}, {{1, 1}, {1, 1}, {2, -1}}, {{1, 1}, {1, -1}, {2, -1}}, {{2, 1}, {1, -1}, {1, -1}}, {{0, 1}, {1, 1}, {1, -1}}, {{1, 0}, {1, 1}, {1, -1}},
			{{1, 1}, {1, -1}, {1, 1}, {1, -1}}, {{1, 1}, {-1, 1}, {1, 1}, {-1, 1}}, {{1, 1}, {1, -1}, {1, 1}, {1, 1}}, {{1, 2}, {1, -2}, {2, 1}, {2, -1}}, {{1, 1}, {1, 1}, {1, 1}, {1, -3}}, {{1, 1}, {1, 1}, {1, 1}, {3, -1}}, {{0, 1}, {1, 0}, {0, 0}, {1, 1}}, {{1, 1}, {1, 1}, {-1, 1}, {-1, 1}, {0, 1}, {1, 0}}}
		for _, l := range affine {
			l := l
			for form := -4; form < 4; form++ {
				form := form
				c.Case("lists in one representation", fmt.Sprint(l, form), func(t *mc.T) { fixed(t, l, form) })
			}
		}
		var abc, abc3 []pr
		for _, a := range []int64{-2, -1, 0, 1, 2} {
			for _, b := range []int64{-1, 0, 1, 2} {
				abc = append(abc, pr{a, b})
			}
		}
		for _, a := range []int64{-1, 0, 1, 2} {
			for _, b := range []int64{0, 1} {
				abc3 = append(abc3, pr{a, b})
			}
		}
		abc3 = append(abc3, pr{1, -3})
		c.Case("lists of length 0", "", func(t *mc.T) { list(t, nil, 0) })
		for i, p := range abc {
			i, p := i, p
			c.Case("lists of length 1 and 2", fmt.Sprint(p), func(t *mc.T) {
				for f := 0; f < 5; f++ {
					list(t, []pr{p}, f)
				}
				for j, q := range abc {
					list(t, []pr{p, q}, i+j)
					fixed(t, []pr{p, q}, (i+j)%8-4)
				}
			})
		}
		// Longer lists: neutral but for one pair, in every position.
		long := []int{5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17}
		if c.Thorough {
			for n := 18; n <= 40; n++ {
				long = append(long, n)
			}
		}
		for _, n := range long {
			n := n
			for k := -1; k < n; k++ {
				k := k
				if n > 9 && k > 0 && k < n-4 && !c.Thorough {
					continue
				}
				c.Case("longer lists", fmt.Sprint(n, k), func(t *mc.T) {
					// All pairs neutral.
					var l []pr
					for i := 0; i < n; i++ {
						l = append(l, pr{int64(i % 2), int64(1 - i%2)})
					}
					if k >= 0 {
						l[k] = pr{1, 2}
					}
					list(t, l, k+1)
					// Pairs that cancel at a distance.
					for i := range l {
						if i < n/2 {
							l[i] = pr{1, int64(i + 1)}
						} else {
							l[i] = pr{-1, int64(n - i)}
						}
					}
					if n%2 == 1 {
						l[n/2] = pr{0, 1}
					}
					if k >= 0 {
						l[k].a += 3
					}
					list(t, l, k+2)
				})
			}
		}
		n := 3
		if c.Thorough {
			n = 4
		}
		for _, p := range abc3 {
			for _, q := range abc3 {
				p, q := p, q
				c.Case(fmt.Sprintf("lists of length %d", n), fmt.Sprint(p, q), func(t *mc.T) {
					for i, r := range abc3 {
						if n == 3 {
							list(t, []pr{p, q, r}, i)
							continue
						}
						for j, s := range abc3 {
							list(t, []pr{p, q, r, s}, i+j)
						}
					}
				})
			}
		}
	})
}
