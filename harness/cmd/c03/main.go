// C03: a generic proof verifies if and only if A <= x < B, and its halves belong together.
package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"

	"zkrpmc/bpx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

type iv struct{ a, b int64 }

func prove(t *mc.T, i iv, x *big.Int) (bulletproofs.ProofBPRP, error) {
	params, err := bulletproofs.SetupGeneric(i.a, i.b)
	if err != nil {
		t.Failf("SetupGeneric(%d,%d): %v", i.a, i.b, err)
	}
	return bulletproofs.ProveGeneric(x, params)
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		ivs := []iv{{0, 1}, {0, 2}, {5, 6}, {18, 200}, {-5, 5}, {-100, -50}, {-1, 0}, {-1, 1}, {1, 3}, {0, 1 << 32}, {1, 1<<32 + 1},
			{-1 << 31, 1 << 31}, {-1 << 32, 0}, {1 << 31, 1<<32 + 1<<31}, {1 << 40, 1<<40 + 7}, {-1 << 40, -1<<40 + 1000},
			{math.MinInt64, math.MinInt64 + 10}, {math.MinInt64, math.MinInt64 + 1<<32}, {math.MaxInt64 - 10, math.MaxInt64}, {math.MaxInt64 - 1<<32, math.MaxInt64},
			{7, 7}, {10, 5}, {0, 1<<32 - 1}, {0, 0}, {1<<32 - 1, 1 << 32}, {1 << 32, 1<<32 + 1}, {0, 65536}, {0, 256}, {-65536, 65536}, {1000000, 1000001}}
		// Wider than 2^32: not complete, but still sound.
		wide := []iv{{0, 1<<32 + 1}, {0, 1 << 33}, {-1 << 40, 1 << 40}, {math.MinInt64, math.MaxInt64}}
		if c.Thorough {
			for a := int64(-4); a <= 4; a++ {
				for b := a; b <= a+5; b++ {
					ivs = append(ivs, iv{a, b})
				}
			}
			for k := uint(1); k < 33; k++ {
				ivs = append(ivs, iv{0, 1 << k}, iv{3, 3 + 1<<k}, iv{-1 << k, 0}, iv{1 << k, 1<<k + 100}, iv{1<<k - 1, 1 << k})
			}
			for k := uint(33); k < 63; k++ {
				ivs = append(ivs, iv{1 << k, 1<<k + 100}, iv{-1 << k, -1<<k + 100})
			}
		}
		for wi, list := range [][]iv{ivs, wide} {
			for _, i := range list {
				i := i
				A, B := zk.B(i.a), zk.B(i.b)
				var xs []*big.Int
				for d := int64(-2); d <= 1; d++ {
					xs = append(xs, new(big.Int).Add(A, zk.B(d)), new(big.Int).Add(B, zk.B(d)))
				}
				m := new(big.Int).Add(A, B)
				xs = append(xs, m.Rsh(m, 1))
				w := zk.Pow2(32)
				xs = append(xs, new(big.Int).Sub(A, w), new(big.Int).Add(A, w), new(big.Int).Sub(B, w), new(big.Int).Add(B, w), zk.B(0), zk.B(-1),
					new(big.Int).Neg(B), new(big.Int).Add(zk.Pow2(64), A), new(big.Int).Sub(new(big.Int).Add(A, w), zk.B(1)), new(big.Int).Add(zk.Pow2(256), A), new(big.Int).Add(zk.Pow2(512), A), new(big.Int).Add(zk.Pow2(1030), A), new(big.Int).Sub(A, zk.Pow2(1024)))
				for _, x := range zk.Uniq(xs) {
					x := x
					if m := new(big.Int).Mod(new(big.Int).Sub(x, A), zk.SecpN); m.Cmp(new(big.Int).Sub(x, A)) != 0 && m.Cmp(zk.Pow2(32)) < 0 {
						continue
					}
					c.Case("interval", fmt.Sprintf("[%d,%d) x=%v", i.a, i.b, x), func(t *mc.T) {
						in := x.Cmp(A) >= 0 && x.Cmp(B) < 0
						params, err := bulletproofs.SetupGeneric(i.a, i.b)
						if err != nil {
							t.Failf("SetupGeneric: %v", err)
						}
						var p bulletproofs.ProofBPRP
						pan := ""
						func() {
							defer func() {
								if r := recover(); r != nil {
									pan = fmt.Sprint(r)
								}
							}()
							p, err = bulletproofs.ProveGeneric(x, params)
						}()
						ok := false
						if pan == "" {
							ok, _ = p.Verify()
						}
						if in && wi == 0 {
							t.Check(pan == "" && err == nil, "ProveGeneric fails for x in the interval: %v %s", err, pan)
							t.Check(ok, "the proof of x in the interval does not verify")
							t.Outcome("in the interval: verifies")
						} else if !in {
							t.Check(!ok, "the proof of x outside the interval verifies")
							t.Outcome("outside the interval: rejected")
						} else {
							t.Outcome(fmt.Sprintf("interval wider than 2^32, x inside: %v", ok))
						}
						t.Check(p.A == i.a && p.B == i.b || err != nil || pan != "", "the proof states the interval [%d,%d)", p.A, p.B)
					})
				}
			}
		}
		// Halves that do not belong together.
		type src struct {
			i iv
			x int64
			s string
		}
		srcs := []src{{iv{18, 200}, 40, "a"}, {iv{18, 200}, 41, "b"}, {iv{18, 200}, 40, "c"}, {iv{19, 200}, 40, "d"}, {iv{18, 201}, 40, "e"}, {iv{17, 199}, 39, "f"}}
		if c.Thorough {
			srcs = append(srcs, src{iv{-5, 5}, 0, "g"}, src{iv{18, 200}, 199, "h"}, src{iv{0, 1 << 32}, 40, "i"}, src{iv{18, 200}, 18, "a"}, src{iv{18, 200}, 199, "a"})
		}
		get := func(t *mc.T, s src) bulletproofs.ProofBPRP {
			mc.UseTape(mc.NewTape(c.Seed + s.s))
			p, err := prove(t, s.i, zk.B(s.x))
			if err != nil {
				t.Failf("%v", err)
			}
			return p
		}
		for k, s := range srcs {
			for l, u := range srcs {
				k, l, s, u := k, l, s, u
				c.Case("halves", fmt.Sprintf("P1 of [%d,%d) x=%d (%s), P2 of [%d,%d) x=%d (%s)", s.i.a, s.i.b, s.x, s.s, u.i.a, u.i.b, u.x, u.s), func(t *mc.T) {
					p, o := get(t, s), get(t, u)
					if k == l {
						for _, q := range []bulletproofs.ProofBPRP{{A: p.A, B: p.B, P1: p.P2, P2: p.P1}, {A: p.A, B: p.B, P1: p.P1, P2: p.P1}, {A: p.A, B: p.B, P1: p.P2, P2: p.P2},
							{A: p.A + 1, B: p.B, P1: p.P1, P2: p.P2}, {A: p.A, B: p.B + 1, P1: p.P1, P2: p.P2}, {A: p.A - 1, B: p.B, P1: p.P1, P2: p.P2}, {A: p.A, B: p.B - 1, P1: p.P1, P2: p.P2},
							{A: p.B, B: p.A, P1: p.P1, P2: p.P2}, {A: p.A, B: p.B, P1: p.P1}, {A: p.A, B: p.B, P2: p.P2}, {P1: p.P1, P2: p.P2}} {
							if s.i.b-s.i.a == 1<<32 && q.A == p.A && q.B == p.B {
								continue // P1 and P2 are about the same value
							}
							ok, _ := q.Verify()
							t.Check(!ok, "a proof with altered halves or limits [%d,%d) verifies", q.A, q.B)
							t.Eval(1)
							t.NonTrivial(1)
						}
						ok, _ := p.Verify()
						t.Check(ok, "the unaltered proof does not verify")
						return
					}
					for _, q := range []bulletproofs.ProofBPRP{{A: p.A, B: p.B, P1: p.P1, P2: o.P2}, {A: o.A, B: o.B, P1: p.P1, P2: o.P2}, {A: p.A, B: o.B, P1: p.P1, P2: o.P2}, {A: o.A, B: p.B, P1: p.P1, P2: o.P2}} {
						if s.s == u.s && q.B == p.B && q.A == o.A && s.x == u.x {
							continue
						}
						ok, _ := q.Verify()
						t.Check(!ok, "halves of two proofs verify together as [%d,%d)", q.A, q.B)
						t.Eval(1)
						t.NonTrivial(1)
					}
				})
			}
		}
		// Several parameter sets at a time, used in another order than they were made.
		js := []iv{{18, 200}, {0, 182}, {-200, -18}, {18, 201}, {17, 200}, {0, 1 << 32}, {7, 7}}
		for k, i := range js {
			for l, j := range js {
				k, l, i, j := k, l, i, j
				if !c.Thorough && (k > 4 || l > 4) && (k+l)%3 != 0 {
					continue
				}
				c.Case("several parameter sets", fmt.Sprintf("[%d,%d), then [%d,%d)", i.a, i.b, j.a, j.b), func(t *mc.T) {
					mc.UseTape(mc.NewTape(c.Seed + "several"))
					p, err := bulletproofs.SetupGeneric(i.a, i.b)
					t.Check(err == nil, "SetupGeneric: %v", err)
					q, err := bulletproofs.SetupGeneric(j.a, j.b)
					t.Check(err == nil, "SetupGeneric: %v", err)
					for round, x := range []int64{i.a, j.a} {
						first, err := bulletproofs.ProveGeneric(zk.B(x), p)
						t.Check(err == nil, "ProveGeneric: %v", err)
						second, err := bulletproofs.ProveGeneric(zk.B(x), q)
						t.Check(err == nil, "ProveGeneric: %v", err)
						for n, f := range []struct {
							p bulletproofs.ProofBPRP
							i iv
						}{{first, i}, {second, j}} {
							ok, _ := f.p.Verify()
							t.Check(f.p.A == f.i.a && f.p.B == f.i.b, "the proof under the parameters for [%d,%d) states [%d,%d)", f.i.a, f.i.b, f.p.A, f.p.B)
							t.Check(ok == (x >= f.i.a && x < f.i.b), "the proof of %d for [%d,%d) verifies: %v (round %d, parameters %d)", x, f.i.a, f.i.b, ok, round, n)
							t.Eval(1)
							t.NonTrivial(1)
						}
					}
				})
			}
		}
		// Limits whose difference is that of the proof modulo 2^64 only.
		for _, i := range []iv{{0, 10}, {18, 200}, {-5, 5}, {0, 1 << 32}} {
			i := i
			c.Case("halves", fmt.Sprintf("[%d,%d) with limits that wrap around", i.a, i.b), func(t *mc.T) {
				mc.UseTape(mc.NewTape(c.Seed + "wrap"))
				p, err := prove(t, i, zk.B(i.a+3))
				t.Check(err == nil, "ProveGeneric: %v", err)
				for _, d := range []int64{1, (i.b - i.a) / 2, i.b - i.a - 1} {
					p.B = math.MinInt64 + d
					p.A = p.B - (i.b - i.a)
					ok, _ := p.Verify()
					t.Check(!ok, "a proof for [%d,%d) verifies as one for [%d,%d)", i.a, i.b, p.A, p.B)
					t.Eval(1)
					t.NonTrivial(1)
				}
			})
		}
		// Halves made on purpose by somebody who wants to prove x outside of the interval.
		type forge struct {
			i      iv
			x1, x2 int64 // the values the halves are about
		}
		for _, f := range []forge{{iv{18, 200}, 5, 5}, {iv{18, 200}, 1<<32 - 1, 0}, {iv{18, 200}, 0, 1<<32 - 1}, {iv{18, 200}, 1<<32 - 160, 23}, {iv{18, 200}, 1<<32 - 160, 22}} {
			f := f
			c.Case("forged", fmt.Sprintf("[%d,%d) halves about %d and %d", f.i.a, f.i.b, f.x1, f.x2), func(t *mc.T) {
				p1 := bpx.MustProve(t, zk.B(f.x1), 32, c.Seed+"1")
				p2 := bpx.MustProve(t, zk.B(f.x2), 32, c.Seed+"2")
				q := bulletproofs.ProofBPRP{A: f.i.a, B: f.i.b, P1: *p1, P2: *p2}
				ok, _ := q.Verify()
				t.Check(!ok, "two unrelated proofs verify as one about [%d,%d)", f.i.a, f.i.b)
				// With the same blinding, but about different secrets.
				if f.x1-f.x2 != (1<<32)-(f.i.b-f.i.a) {
					p1 = bpx.MustProve(t, zk.B(f.x1), 32, c.Seed+"1")
					p2 = bpx.MustProve(t, zk.B(f.x2), 32, c.Seed+"1")
					q = bulletproofs.ProofBPRP{A: f.i.a, B: f.i.b, P1: *p1, P2: *p2}
					ok, _ = q.Verify()
					t.Check(!ok, "two proofs about different secrets verify as one about [%d,%d)", f.i.a, f.i.b)
				}
			})
		}
		// Halves for smaller ranges, which prove more than they should for some intervals.
		for _, n := range []uint{1, 8, 16} {
			n := n
			c.Case("forged", fmt.Sprintf("halves with N=%d", n), func(t *mc.T) {
				p1 := bpx.MustProve(t, zk.B(1), n, c.Seed+"1")
				p2 := bpx.MustProve(t, zk.B(1), n, c.Seed+"1")
				q := bulletproofs.ProofBPRP{A: 0, B: 1 << 30, P1: *p1, P2: *p2}
				ok, _ := q.Verify()
				t.Check(!ok, "halves of N=%d verify for [0,2^30)", n)
			})
		}
	})
}
