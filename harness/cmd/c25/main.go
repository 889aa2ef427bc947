// C25: Pedersen commitments: exact for all openings of small groups, for
// structured ones of the real groups, and second generators without a
// discrete logarithm that anybody can know.
package main

import (
	"flag"
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/ccs08"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"

	"zkrpmc/bnx"
	"zkrpmc/bpx"
	"zkrpmc/cx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

var tiny = flag.Bool("tiny", false, "use small curves of prime order")

type key struct{ x, y string }

func keyOf(p zk.Pt) key {
	if p.X == nil {
		return key{}
	}
	return key{p.X.String(), p.Y.String()}
}

// commit calls CommitG1 and checks that its arguments are left alone.
func commit(t *mc.T, x, r *big.Int, h *p256.P256) zk.Pt {
	xs, rs, hs := new(big.Int).Set(x), new(big.Int).Set(r), zk.Dump(h)
	c, err := util.CommitG1(x, r, h)
	t.Check(err == nil, "CommitG1(%v,%v): %v", x, r, err)
	t.Check(x.Cmp(xs) == 0 && r.Cmp(rs) == 0, "CommitG1(%v,%v) changes its arguments to %v, %v", xs, rs, x, r)
	t.Check(zk.Dump(h) == hs, "CommitG1(%v,%v) changes h", x, r)
	return bpx.Pt(c)
}

func small(c *mc.Ctx, p, n int64) {
	for k := int64(1); k < n; k++ {
		if n > 50 && !c.Thorough && k > 3 && k < n-3 && k%40 != 0 {
			continue
		}
		k := k
		c.Case(fmt.Sprintf("all openings, order %d", n), fmt.Sprintf("h=g^%d", k), func(t *mc.T) {
			bpx.UseTiny(p, n)
			cv := bpx.Curve
			mul := make([]zk.Pt, n)
			for i := int64(1); i < n; i++ {
				mul[i] = cv.Add(mul[i-1], cv.G())
			}
			h := bpx.P(mul[k])
			dl := map[key]int64{}
			for i := range mul {
				dl[keyOf(mul[i])] = int64(i)
			}
			lo, hi := -n-2, 2*n+2
			got := map[[2]int64]int64{}
			for x := lo; x <= hi; x++ {
				reached := map[int64]int64{}
				for r := lo; r <= hi; r++ {
					q := commit(t, zk.B(x), zk.B(r), h)
					want := (((x+k*r)%n)%n + n) % n
					e, ok := dl[keyOf(q)]
					t.Check(ok, "CommitG1(%d,%d) is not in the group", x, r)
					t.Check(e == want, "CommitG1(%d,%d) = g^%d, not g^%d", x, r, e, want)
					got[[2]int64{x, r}] = e
					if r >= 0 && r < n {
						if o, dup := reached[e]; dup {
							t.Failf("CommitG1(%d,%d) = CommitG1(%d,%d)", x, r, x, o)
						}
						reached[e] = r
					}
				}
				t.Check(int64(len(reached)) == n, "only %d of %d elements are commitments to %d", len(reached), n, x)
			}
			// Sums of commitments, computed by the code under test.
			for x := int64(0); x < n; x++ {
				for r := int64(0); r < n; r++ {
					a := bpx.P(mul[got[[2]int64{x, r}]])
					for _, o := range [][2]int64{{0, 0}, {1, 0}, {0, 1}, {x, r}, {n - 1, n - 1}, {(n - x) % n, (n - r) % n}, {r, x}} {
						b := bpx.P(mul[got[o]])
						s := bpx.Pt(new(p256.P256).Multiply(a, b))
						t.Check(dl[keyOf(s)] == got[[2]int64{(x + o[0]) % n, (r + o[1]) % n}], "the commitments (%d,%d) and (%d,%d) do not add", x, r, o[0], o[1])
					}
				}
			}
			w := int(hi - lo + 1)
			t.Eval(w*w + int(n*n)*7)
			t.NonTrivial(w * w)
			t.States(w * w)
			t.Sample("%d openings, every element reached for every x", w*w)
		})
	}
}

// again commits with variables that are used again for other values: all
// sequences of two assignments, with x, r and h in the same objects.
func again(c *mc.Ctx) {
	cv := zk.Secp
	vals := []int64{0, 1, 2, -5, 77}
	type st struct{ x, r, h int64 }
	var all []st
	for _, x := range vals {
		for _, r := range vals {
			for _, h := range []int64{3, 8, -3} {
				all = append(all, st{x, r, h})
			}
		}
	}
	for i := range all {
		a := all[i]
		c.Case("variables used again", fmt.Sprint(a), func(t *mc.T) {
			for j, b := range all {
				if !c.Thorough && (i+j)%4 != 0 && a.h == b.h && a.x != b.x && a.r != b.r {
					continue
				}
				x, r := new(big.Int), new(big.Int)
				h := new(p256.P256)
				h2 := new(bn256.G2)
				for _, s := range []st{a, b, a} {
					x.SetInt64(s.x)
					r.SetInt64(s.r)
					h.ScalarBaseMult(zk.B(s.h))
					want := cv.Mul(cv.G(), zk.B(s.x+s.h*s.r))
					t.Check(cv.Eq(commit(t, x, r, h), want), "CommitG1(%d,%d) with h = g^%d, after %v in the same variables, is wrong", s.x, s.r, s.h, a)
					if j%5 == 0 {
						h2.ScalarBaseMult(zk.B(s.h))
						q, err := util.Commit(x, r, h2)
						t.Check(err == nil && cx.Enc(q) == cx.Enc(new(bn256.G2).ScalarBaseMult(zk.B(s.x+s.h*s.r))), "Commit(%d,%d) with h = g^%d, after %v in the same variables, is wrong", s.x, s.r, s.h, a)
					}
					t.Eval(1)
					t.NonTrivial(1)
				}
				// A commitment belongs to its caller.
				p, _ := util.CommitG1(x, r, h)
				p.Multiply(p, p)
				if p.X != nil {
					p.X.SetInt64(1)
				}
				t.Check(cv.Eq(commit(t, x, r, h), cv.Mul(cv.G(), zk.B(a.x+a.h*a.r))), "changing a commitment changes the next one")
			}
		})
	}
}

// scalars of commitments in the real groups.
func alphabet(ord *big.Int, thorough bool) []*big.Int {
	if thorough {
		return append(zk.Scalars(ord, 12, false), zk.Long(ord, false)...)
	}
	xs := []*big.Int{zk.B(0), zk.B(1), zk.B(-1), zk.B(2), zk.B(-2), zk.B(3), zk.B(255), zk.B(256), zk.B(-65536), zk.Pow2(32), new(big.Int).Sub(zk.Pow2(63), zk.B(1)), new(big.Int).Neg(zk.Pow2(63)), zk.Pow2(64), zk.Pow2(128), zk.Pow2(255), zk.Pow2(256), zk.Pow2(300), zk.Pow2(1030)}
	for m := int64(-2); m <= 2; m++ {
		if m == 0 {
			continue
		}
		for d := int64(-1); d <= 1; d++ {
			xs = append(xs, new(big.Int).Add(new(big.Int).Mul(ord, zk.B(m)), zk.B(d)))
		}
	}
	half := new(big.Int).Rsh(ord, 1)
	xs = append(xs, half, new(big.Int).Add(half, zk.B(1)))
	for _, s := range []string{"5555555555555555555555555555555555555555555555555555555555555555", "deadbeef00000000000000000000000000000000000000000000000000000001"} {
		xs = append(xs, new(big.Int).Mod(zk.Hex(s), ord))
	}
	return zk.Uniq(xs)
}

func secp(c *mc.Ctx) {
	xs := alphabet(zk.SecpN, c.Thorough)
	cv := zk.Secp
	type hh struct {
		name string
		p    zk.Pt
	}
	var hs []hh
	for _, k := range []int64{1, -1, 2, -3, 7} {
		hs = append(hs, hh{fmt.Sprintf("g^%d", k), cv.Mul(cv.G(), zk.B(k))})
	}
	par := bpx.Params(4)
	hs = append(hs, hh{"H", bpx.Pt(par.H)}, hh{"Gg[0]", bpx.Pt(par.Gg[0])}, hh{"Hh[3]", bpx.Pt(par.Hh[3])})
	gx := map[string]zk.Pt{}
	for _, x := range xs {
		gx[x.String()] = cv.Mul(cv.G(), x)
	}
	for _, h := range hs {
		for _, r := range xs {
			h, r := h, r
			c.Case("secp256k1", fmt.Sprintf("h=%s r=%x", h.name, r), func(t *mc.T) {
				hr := cv.Mul(h.p, r)
				for _, x := range xs {
					q := commit(t, x, r, bpx.P(h.p))
					t.Check(cv.Eq(q, cv.Add(gx[x.String()], hr)), "CommitG1(%x,%x) is not g^x h^r", x, r)
				}
				// Openings that meet: g^x = h^r, and g^x = h^-r.
				for _, k := range []int64{1, -1, 2, -3, 7} {
					if h.name == fmt.Sprintf("g^%d", k) {
						x := new(big.Int).Mul(zk.B(k), r)
						t.Check(cv.Eq(commit(t, x, r, bpx.P(h.p)), cv.Add(hr, hr)), "CommitG1 with g^x = h^r, r=%x", r)
						x.Neg(x)
						t.Check(cv.Eq(commit(t, x, r, bpx.P(h.p)), zk.Pt{}), "CommitG1 with g^x = h^-r, r=%x", r)
					}
				}
				t.Eval(len(xs) + 2)
				t.NonTrivial(len(xs))
			})
		}
	}
}

func bn(c *mc.Ctx) {
	xs := alphabet(zk.BnN, c.Thorough)
	g := bnx.G2
	ks := []*big.Int{zk.B(1), zk.B(-1), zk.B(2), zk.Hex("1234567890abcdef1234567890abcdef1234567890abcdef1234567890abcd00")}
	if c.Thorough {
		ks = append(ks, zk.B(-3), zk.Pow2(200))
	}
	for _, k := range ks {
		for _, r := range xs {
			k, r := k, r
			c.Case("bn256", fmt.Sprintf("h=g^%x r=%x", k, r), func(t *mc.T) {
				for form := 0; form < 2; form++ {
					h := new(bn256.G2).ScalarBaseMult(k)
					if form == 1 {
						h, _ = new(bn256.G2).Unmarshal(h.Marshal())
					}
					enc := cx.Enc(h)
					for i, x := range xs {
						if !c.Thorough && i%2 != form && x.BitLen() > 2 {
							continue
						}
						xc, rc := new(big.Int).Set(x), new(big.Int).Set(r)
						q, err := util.Commit(xc, rc, h)
						t.Check(err == nil, "Commit(%x,%x): %v", x, r, err)
						t.Check(xc.Cmp(x) == 0 && rc.Cmp(r) == 0 && cx.Enc(h) == enc, "Commit(%x,%x) changes its arguments", x, r)
						e := new(big.Int).Add(x, new(big.Int).Mul(k, r))
						want := g.Enc(g.Exp(e))
						got := cx.Enc(q)
						if e.Mod(e, zk.BnN).Sign() == 0 {
							t.Check(zk.Clone(q).(*bn256.G2).IsZero(), "Commit(%x,%x) with h=g^%x is not the identity", x, r, k)
						} else {
							t.Check(got == want, "Commit(%x,%x) with h=g^%x is not g^x h^r", x, r, k)
						}
						t.Eval(1)
						t.NonTrivial(1)
					}
				}
			})
		}
	}
}

// numbers anybody can find: those in the sources, small ones, and the answers of the random source.
func exponents() []*big.Int {
	out, words := zk.Numbers("/repo")
	for i := int64(0); i <= 1024; i++ {
		out = append(out, zk.B(i), zk.B(-i))
	}
	for _, w := range words {
		if len(w) > 3 && len(w) < 60 {
			for i := 0; i < 10; i++ {
				out = append(out, new(big.Int).SetBytes(sha(fmt.Sprintf("%d%s", i, w))), new(big.Int).SetBytes(sha(fmt.Sprintf("%s%d", w, i))))
			}
		}
	}
	return out
}

var powers = map[string]string{}

func main() {
	mc.Main(func(c *mc.Ctx) {
		c.Dynamic()
		if *tiny {
			curves := [][2]int64{{13, 7}, {43, 31}, {67, 79}, {163, 139}}
			if c.Thorough {
				curves = append(curves, [][2]int64{{79, 67}, {97, 79}, {211, 199}, {349, 313}}...)
			}
			for _, k := range curves {
				small(c, k[0], k[1])
			}
			return
		}
		secp(c)
		again(c)
		bn(c)
		// The generators that setup announces are those of commitments.
		for _, n := range bpx.Ns {
			n := n
			c.Case("commitments under the announced generators", fmt.Sprintf("Setup(2^%d)", n), func(t *mc.T) {
				par := bpx.Params(n)
				cv := zk.Secp
				for _, x := range []*big.Int{zk.B(0), zk.B(1), zk.B(-1), zk.B(77), zk.Pow2(n), zk.Pow2(200)} {
					for _, r := range []*big.Int{zk.B(0), zk.B(1), zk.B(-5), zk.Pow2(199)} {
						t.Check(cv.Eq(commit(t, x, r, par.H), cv.Add(cv.Mul(bpx.Pt(par.G), x), cv.Mul(bpx.Pt(par.H), r))), "CommitG1(%x,%x) is not G^x H^r for the generators of Setup(2^%d)", x, r, n)
						t.Eval(1)
						t.NonTrivial(1)
					}
				}
			})
		}
		ks := exponents()
		// The second generators of Bulletproofs.
		for _, n := range bpx.Ns {
			n := n
			c.Case("no known discrete logarithm", fmt.Sprintf("Setup(2^%d)", n), func(t *mc.T) {
				a, err := bulletproofs.Setup(1 << n)
				t.Check(err == nil, "%v", err)
				tape := record()
				b, _ := bulletproofs.Setup(1 << n)
				t.Check(zk.Dump(a) == zk.Dump(b), "Setup gives other generators with other randomness")
				h, g := bpx.Pt(a.H), bpx.Pt(a.G)
				t.Check(h.X != nil && zk.Secp.On(h), "H is not a point of the curve")
				t.Check(g.X != nil && zk.Secp.Eq(g, zk.Secp.G()), "G is not the base point")
				for i, k := range append(ks, tape()...) {
					q := bpx.Pt(new(p256.P256).ScalarBaseMult(k))
					t.Check(!zk.Secp.Eq(q, h), "H = G^k for the known k = %v (%d)", k, i)
					t.Check(!zk.Secp.Eq(q, zk.Secp.Neg(h)), "H = G^-k for the known k = %v (%d)", k, i)
				}
				t.Eval(2 * len(ks))
				t.NonTrivial(2 * len(ks))
			})
		}
		// The second generator of the CCS08 proofs.
		type set struct {
			name string
			f    func() (*bn256.G2, error)
		}
		for _, s := range []set{
			{"SetupSet", func() (*bn256.G2, error) {
				p, err := ccs08.SetupSet([]int64{1, 2})
				return cx.Get(&p, "H").(*bn256.G2), err
			}},
			{"SetupUL", func() (*bn256.G2, error) {
				p, err := ccs08.SetupUL(2, 1)
				return cx.Get(&p, "H").(*bn256.G2), err
			}},
			{"Setup", func() (*bn256.G2, error) {
				var z ccs08.XCcs08
				err := z.Setup(18, 200)
				return cx.Get(&z, "p", "p", "H").(*bn256.G2), err
			}}} {
			s := s
			c.Case("no known discrete logarithm", "ccs08."+s.name, func(t *mc.T) {
				tape := record()
				h, err := s.f()
				t.Check(err == nil, "%v", err)
				draws := tape()
				enc := cx.Enc(h)
				q, ok := new(bn256.G2).Unmarshal(zk.Clone(h).(*bn256.G2).Marshal())
				t.Check(ok && !q.IsZero(), "H is not an element of order %v", bn256.Order)
				small := bnx.G2.Zero
				seen := map[string]*big.Int{}
				for i := int64(0); i <= 1024; i++ {
					seen[bnx.G2.Enc(small)] = zk.B(i)
					small = bnx.G2.Add(small, bnx.G2.Gen)
				}
				found := map[string]bool{}
				for pass, list := range [][]*big.Int{draws, ks} {
					for _, k := range list {
						// Powers are computed once, for this case and its confirmations.
						e, ok := powers[k.String()]
						if !ok {
							if k.BitLen() > 10 {
								e = cx.Enc(new(bn256.G2).ScalarBaseMult(k))
							} else {
								e = bnx.G2.Enc(bnx.G2.Exp(k))
							}
							powers[k.String()] = e
						}
						if e == enc {
							k := new(big.Int).Mod(k, zk.BnN)
							if pass == 0 {
								t.FailKey(fmt.Sprintf("H = g^k for k drawn in %s", s.name), "H = g^k for a k that is drawn from the random source")
							}
							found[k.String()] = true
						}
					}
				}
				if k, ok := seen[enc]; ok {
					found[k.String()] = true
				}
				t.Eval(len(ks) + len(draws))
				t.NonTrivial(len(ks) + len(draws))
				for k := range found {
					t.FailKey(fmt.Sprintf("ccs08 H = g^%s", k), "%s: H = g^k for the k = %s that the sources state", s.name, k)
				}
			})
		}
	})
}
