// C28: the commitment that a proof carries is the one to its secret with the
// randomness that was asked for, for every kind of proof.
package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/ccs08"
	"github.com/ing-bank/zkrp/crypto/bn256"

	"zkrpmc/bnx"
	"zkrpmc/bpx"
	"zkrpmc/cx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

func add(x *big.Int, d int64) *big.Int { return new(big.Int).Add(x, zk.B(d)) }
func neg(x *big.Int) *big.Int          { return new(big.Int).Neg(x) }

// randomness is the alphabet of blindings.
func randomness(thorough bool) []*big.Int {
	n := zk.BnN
	out := []*big.Int{zk.Hex("1234567890abcdef1234567890abcdef1234567890abcdef1234567890abcd00"), zk.B(0), zk.B(1), zk.B(-1), zk.B(2), add(n, -1), n, add(n, 1),
		zk.Pow2(32), zk.Pow2(63), zk.Pow2(64), add(zk.Pow2(64), 1), zk.Pow2(128), add(zk.Pow2(128), 3), zk.Pow2(253), zk.Pow2(256), add(zk.Pow2(256), 5), zk.Pow2(300),
		zk.Pow2(512), add(zk.Pow2(513), 1), zk.Pow2(1030), neg(zk.Pow2(2050)), neg(zk.Pow2(64)), neg(zk.Pow2(200)), neg(zk.Pow2(300)), new(big.Int).Rsh(n, 1), new(big.Int).Lsh(n, 1), zk.Hex("ff00000000000000000000000000000000000000000000000000000000000000")}
	if thorough {
		for k := uint(0); k < 260; k += 3 {
			out = append(out, zk.Pow2(k), neg(zk.Pow2(k)), add(zk.Pow2(k), -1), new(big.Int).Sub(n, zk.Pow2(k)))
		}
	}
	return zk.Uniq(out)
}

var powers = map[string]bnx.T{}

// opening is the encoding of g^x H^r, computed by the reference.
func opening(h *bn256.G2, x, r *big.Int) string {
	enc := cx.Enc(h)
	k := enc + new(big.Int).Mod(r, zk.BnN).String()
	hr, ok := powers[k]
	if !ok {
		hr = bnx.G2.Mul(bnx.DecodeG2(enc), r).(bnx.T)
		powers[k] = hr
	}
	return bnx.G2.Enc(bnx.G2.Add(bnx.G2.Exp(x), hr))
}

// holds checks that c is the commitment to x with r.
func holds(t *mc.T, what string, c interface{}, h *bn256.G2, x, r *big.Int) {
	q, ok := c.(*bn256.G2)
	t.Check(ok && q != nil, "%s carries no commitment", what)
	want := opening(h, x, r)
	if want == "O" {
		t.Check(zk.Clone(q).(*bn256.G2).IsZero(), "the commitment in %s is not g^x H^r with x=%v r=%v: it should be the identity", what, x, r)
	} else {
		t.Check(cx.Enc(q) == want, "the commitment in %s is not g^x H^r with x=%v r=%v", what, x, r)
	}
	t.Eval(1)
	t.NonTrivial(1)
}

func H(p interface{}) *bn256.G2 { return cx.Get(p, "H").(*bn256.G2) }

func sets(c *mc.Ctx) {
	members := []int64{0, 1, -1, 2, 57, 255, 256, 1 << 31, 1 << 32, -(1 << 32), 1<<53 + 1, math.MaxInt64, math.MinInt64}
	var params interface{}
	get := func(t *mc.T) interface{} {
		if params == nil {
			mc.UseTape(mc.NewTape("set"))
			p, err := ccs08.SetupSet(members)
			t.Check(err == nil, "SetupSet: %v", err)
			params = &p
		}
		return params
	}
	rs := randomness(c.Thorough)
	for i, r := range rs {
		i, r := i, r
		c.Case("set membership proof", fmt.Sprintf("r=%x", r), func(t *mc.T) {
			p := get(t)
			mc.UseTape(mc.NewTape("member"))
			for k, x := range members {
				if !c.Thorough && (i+k)%4 != 0 && i > 0 {
					continue
				}
				xr := new(big.Int).Set(r)
				proof, err := cx.ProveSet(x, xr, p)
				t.Check(err == nil, "ProveSet(%d): %v", x, err)
				holds(t, fmt.Sprintf("the proof of %d", x), cx.Get(proof, "C"), H(p), zk.B(x), r)
				// The proof keeps nothing of the variable.
				xr.Add(xr, zk.B(3))
				xr.Lsh(xr, 7)
				holds(t, fmt.Sprintf("the proof of %d, after its randomness was changed,", x), cx.Get(proof, "C"), H(p), zk.B(x), r)
				ok, err := cx.VerifySet(proof, p)
				t.Check(ok && err == nil, "the proof of %d with r=%v does not verify: %v", x, r, err)
			}
		})
	}
	// The same variable with one value after the other, and proofs of other members between.
	for i := range rs {
		i := i
		if i > 6 && !c.Thorough {
			break
		}
		c.Case("variables used again", fmt.Sprintf("set membership, r=%x first", rs[i]), func(t *mc.T) {
			p := get(t)
			mc.UseTape(mc.NewTape("again"))
			r := new(big.Int)
			var kept []interface{}
			var wants []string
			for k, j := range []int{i, i, (i + 1) % len(rs), i, (i + 2) % len(rs)} {
				x := members[(i+k/2)%len(members)]
				r.Set(rs[j])
				proof, err := cx.ProveSet(x, r, p)
				t.Check(err == nil, "ProveSet: %v", err)
				kept = append(kept, cx.Get(proof, "C"))
				wants = append(wants, opening(H(p), zk.B(x), r))
				for n, q := range kept {
					same := cx.Enc(q) == wants[n] || wants[n] == "O" && zk.Clone(q).(*bn256.G2).IsZero()
					t.Check(same, "after %d proofs, the commitment of proof %d is not the one to its secret", k+1, n+1)
					t.Eval(1)
					t.NonTrivial(1)
				}
			}
		})
	}
}

func digits(c *mc.Ctx) {
	type ul struct{ u, l int64 }
	cache := map[ul]interface{}{}
	get := func(t *mc.T, k ul) interface{} {
		if cache[k] == nil {
			mc.UseTape(mc.NewTape("ul"))
			p, err := ccs08.SetupUL(k.u, k.l)
			t.Check(err == nil, "SetupUL(%d,%d): %v", k.u, k.l, err)
			cache[k] = &p
		}
		return cache[k]
	}
	one := func(t *mc.T, k ul, x, r *big.Int, verify bool) {
		p := get(t, k)
		mc.UseTape(mc.NewTape("digits"))
		xc, rc := new(big.Int).Set(x), new(big.Int).Set(r)
		proof, err := cx.ProveUL(xc, rc, p)
		t.Check(err == nil, "ProveUL(%v) for [0,%d^%d): %v", x, k.u, k.l, err)
		what := fmt.Sprintf("the proof of %v in [0,%d^%d)", x, k.u, k.l)
		holds(t, what, cx.Get(proof, "C"), H(p), x, r)
		xc.Add(xc, zk.B(1))
		rc.Lsh(rc, 3)
		holds(t, what+", after its arguments were changed,", cx.Get(proof, "C"), H(p), x, r)
		if verify {
			ok, err := cx.VerifyUL(proof, p)
			t.Check(ok && err == nil, "%s with r=%v does not verify: %v", what, r, err)
		}
	}
	rs := randomness(c.Thorough)
	for i, r := range rs {
		i, r := i, r
		c.Case("digit proof", fmt.Sprintf("r=%x", r), func(t *mc.T) {
			for x := int64(0); x < 9; x++ {
				if (int(x)+i)%3 == 0 || c.Thorough || i == 0 {
					one(t, ul{3, 2}, zk.B(x), r, x%2 == 0)
				}
			}
		})
	}
	ks := []ul{{2, 1}, {2, 8}, {2, 16}, {57, 1}, {57, 2}, {10, 3}}
	if c.Thorough {
		ks = append(ks, ul{2, 64}, ul{2, 70}, ul{57, 11}, ul{57, 12}, ul{256, 3}, ul{10, 20}, ul{2, 130})
	} else {
		ks = append(ks, ul{2, 33}, ul{57, 12}, ul{16, 16})
	}
	for i, k := range ks {
		k := k
		max := new(big.Int).Exp(zk.B(k.u), zk.B(k.l), nil)
		xs := []*big.Int{zk.B(0), zk.B(1), add(max, -1), new(big.Int).Div(max, zk.B(k.u)), new(big.Int).Div(max, zk.B(3)), add(zk.B(k.u), -1)}
		for j, x := range zk.Uniq(xs) {
			x, r := x, rs[(3*i+j)%len(rs)]
			c.Case("digit proof, other ranges", fmt.Sprintf("u=%d l=%d x=%v r=%x", k.u, k.l, x, r), func(t *mc.T) {
				one(t, k, x, r, false)
			})
		}
	}
}

// intervals checks the two halves of a proof for [a, b).
func intervals(c *mc.Ctx) {
	type iv struct{ a, b int64 }
	rs := randomness(c.Thorough)
	ivs := []iv{{18, 200}, {0, 2}, {3, 3249}, {1 << 20, 1<<20 + 5}, {0, 1 << 40}, {1, math.MaxInt64}}
	for i, v := range ivs {
		i, v := i, v
		c.Case("interval proof", fmt.Sprintf("[%d,%d)", v.a, v.b), func(t *mc.T) {
			mc.UseTape(mc.NewTape("interval"))
			z := new(ccs08.XCcs08)
			t.Check(z.Setup(v.a, v.b) == nil, "Setup(%d,%d) fails", v.a, v.b)
			xs := []*big.Int{zk.B(v.a), zk.B(v.b - 1), zk.B(v.a + (v.b-v.a)/3)}
			ul := new(big.Int).Exp(zk.B(cx.Get(z, "p", "p", "u").(int64)), zk.B(cx.Get(z, "p", "p", "l").(int64)), nil)
			h := H(cx.Get(z, "p", "p"))
			type kept struct {
				half  string
				c     interface{}
				x, r  *big.Int
				proof int
			}
			var all []kept
			n := len(rs)
			if !c.Thorough {
				n = 5
			}
			x, r := new(big.Int), new(big.Int)
			for k := 0; k < n; k++ {
				// The object and the variables are used again, with the same
				// randomness twice for other secrets, and twice for the same.
				x.Set(xs[(k+1)/2%len(xs)])
				r.Set(rs[(4*i+k-k%3)%len(rs)])
				ccs08.XSet(z, x, r)
				t.Check(z.Prove() == nil, "Prove fails")
				lower := add(x, -v.a)
				upper := new(big.Int).Add(add(x, -v.b), ul)
				po := cx.Get(z, "proof_out")
				c1, c2 := cx.Get(po, "p1", "C"), cx.Get(po, "p2", "C")
				all = append(all, kept{"first", c1, upper, new(big.Int).Set(r), k}, kept{"second", c2, lower, new(big.Int).Set(r), k})
				for _, o := range all {
					if o.proof < k-1 && !c.Thorough {
						continue
					}
					holds(t, fmt.Sprintf("the %s half of the proof %d for [%d,%d), after %d proofs,", o.half, o.proof+1, v.a, v.b, k+1), o.c, h, o.x, o.r)
				}
				if k < 3 {
					ok, err := z.Verify()
					t.Check(ok && err == nil, "the proof of %v for [%d,%d) does not verify: %v", x, v.a, v.b, err)
				}
			}
		})
	}
}

// tape records what is drawn.
func tape(label string, answer map[int][]byte) func() []*big.Int {
	tp := mc.NewTape(label)
	var out []*big.Int
	tp.All = func(k int, p []byte) {
		tp.Default(k, p)
		if a, ok := answer[k]; ok {
			copy(p, make([]byte, len(p)))
			copy(p[len(p)-len(a):], a)
		}
		out = append(out, new(big.Int).SetBytes(p))
	}
	mc.UseTape(tp)
	return func() []*big.Int { return out }
}

var secpPowers = map[string]zk.Pt{}

// blinding is the drawn number r with v = g^x h^r, if there is one.
func blinding(v, h zk.Pt, x *big.Int, draws []*big.Int) *big.Int {
	cv := zk.Secp
	rest := cv.Add(v, cv.Neg(cv.Mul(cv.G(), x)))
	for _, d := range draws {
		q, ok := secpPowers[d.String()]
		if !ok {
			q = cv.Mul(h, d)
			secpPowers[d.String()] = q
		}
		if cv.Eq(q, rest) {
			return d
		}
	}
	return nil
}

func generators(p bulletproofs.BulletProofSetupParams) string {
	return zk.Dump([]interface{}{p.N, p.G, p.H, p.Gg, p.Hh})
}

func bullets(c *mc.Ctx) {
	for _, n := range bpx.Ns {
		n := n
		max := zk.Pow2(n)
		xs := zk.Uniq([]*big.Int{zk.B(0), zk.B(1), add(max, -1), new(big.Int).Rsh(max, 1), new(big.Int).Div(max, zk.B(3))})
		if c.Thorough {
			xs = zk.InRange(n)
		}
		for _, x := range xs {
			x := x
			if x.Sign() < 0 || x.Cmp(max) >= 0 {
				continue
			}
			c.Case("range proof", fmt.Sprintf("N=%d x=%v", n, x), func(t *mc.T) {
				par := bpx.Params(n)
				before := generators(par)
				draws := tape("bullets", nil)
				xc := new(big.Int).Set(x)
				p, err := bulletproofs.Prove(xc, par)
				t.Check(err == nil, "Prove: %v", err)
				xc.Add(xc, zk.B(1))
				t.Check(blinding(bpx.Pt(p.V), bpx.Pt(par.H), x, draws()) != nil, "V is not G^%v H^r for any drawn r", x)
				t.Check(generators(p.Params) == before, "the proof carries other parameters than those it was made with")
				t.Eval(2)
				t.NonTrivial(2)
			})
		}
	}
	type iv struct{ a, b int64 }
	ivs := []iv{{18, 200}, {-5, 5}, {0, 1 << 32}, {-1 << 40, -1<<40 + 9}, {math.MinInt64, math.MinInt64 + 2}, {math.MaxInt64 - 5, math.MaxInt64}, {1 << 31, 1<<32 + 7}}
	for _, v := range ivs {
		v := v
		for k := 0; k < 3; k++ {
			k := k
			c.Case("generic range proof", fmt.Sprintf("[%d,%d) %d", v.a, v.b, k), func(t *mc.T) {
				par, err := bulletproofs.SetupGeneric(v.a, v.b)
				t.Check(err == nil, "SetupGeneric: %v", err)
				x := []*big.Int{zk.B(v.a), zk.B(v.b - 1), zk.B(v.a + (v.b-v.a)/2)}[k]
				draws := tape("generic", nil)
				xc := new(big.Int).Set(x)
				p, err := bulletproofs.ProveGeneric(xc, par)
				t.Check(err == nil, "ProveGeneric: %v", err)
				xc.Add(xc, zk.B(1))
				h := bpx.Pt(p.P1.Params.H)
				r1 := blinding(bpx.Pt(p.P1.V), h, new(big.Int).Add(add(x, 0), new(big.Int).Sub(zk.Pow2(32), zk.B(v.b))), draws())
				r2 := blinding(bpx.Pt(p.P2.V), h, new(big.Int).Sub(x, zk.B(v.a)), draws())
				t.Check(r1 != nil, "V of the first half is not a commitment to %v - %d + 2^32 with a drawn blinding", x, v.b)
				t.Check(r2 != nil, "V of the second half is not a commitment to %v - %d with a drawn blinding", x, v.a)
				t.Check(r1.Cmp(r2) == 0, "the halves have different blindings")
				t.Check(p.A == v.a && p.B == v.b, "the proof for [%d,%d) states [%d,%d)", v.a, v.b, p.A, p.B)
				t.Check(generators(p.P1.Params) == generators(bpx.Params(32)) && generators(p.P2.Params) == generators(bpx.Params(32)), "the halves carry other parameters than those of setup")
				t.Eval(5)
				t.NonTrivial(5)
			})
		}
	}
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		cx.Canonical()
		sets(c)
		digits(c)
		intervals(c)
		bullets(c)
	})
}
