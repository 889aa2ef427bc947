// C10: set membership: all small sets over an alphabet with extremes, every x
// of the alphabet, all boundary answers of the random source.
package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/ing-bank/zkrp/ccs08"

	"zkrpmc/cx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

var alphabet = []int64{0, 1, -1, 2, 42, 57, 1 << 32, math.MaxInt64, math.MinInt64, -math.MaxInt64}

func add(x *big.Int, d int64) *big.Int { return new(big.Int).Add(x, zk.B(d)) }

func rs() []*big.Int {
	return []*big.Int{zk.Hex("1234567890abcdef1234567890abcdef1234567890abcdef1234567890abcd00"), zk.B(0), zk.B(1), add(zk.BnN, -1), zk.BnN, zk.B(-1), zk.Pow2(256), add(zk.BnN, 1), add(zk.Pow2(513), 5), zk.Pow2(1030)}
}

func setup(t *mc.T, s []int64, label string) interface{} {
	mc.UseTape(mc.NewTape("setup" + label))
	sc := append([]int64{}, s...)
	p, err := ccs08.SetupSet(sc)
	t.Check(err == nil, "SetupSet(%v): %v", s, err)
	t.Check(fmt.Sprint(sc) == fmt.Sprint(s), "SetupSet changes the list of members")
	return &p
}

// member proves x and checks everything the statement says about a member.
func member(t *mc.T, s []int64, p interface{}, x int64, r *big.Int, others ...interface{}) {
	pp := pOf(p)
	before := zk.Dump(p)
	rc := new(big.Int).Set(r)
	proof, err := pp.prove(x, rc)
	t.Check(err == nil, "ProveSet(%d) for %v: %v", x, s, err)
	t.Check(rc.Cmp(r) == 0 && zk.Dump(p) == before, "ProveSet changes its arguments")
	for i := 0; i < 2; i++ {
		d := zk.Dump(proof)
		ok, err := pp.verify(proof)
		t.Check(ok && err == nil, "the proof of %d, a member of %v, r=%v, does not verify (time %d): %v", x, s, r, i+1, err)
		t.Check(zk.Dump(proof) == d && zk.Dump(p) == before, "VerifySet changes the proof or the parameters")
	}
	t.Eval(1)
	t.NonTrivial(1)
	t.Outcome("member: verifies")
	for i, o := range others {
		ok, _ := pOf(o).verify(zk.Clone(proof))
		t.Check(!ok, "the proof for %v verifies under the parameters of another setup (%d)", s, i)
		t.Eval(1)
		t.NonTrivial(1)
		t.Outcome("other parameters: rejected")
	}
}

func outsider(t *mc.T, s []int64, p interface{}, x int64, r *big.Int) {
	pp := pOf(p)
	var proof interface{}
	var err error
	pan := false
	func() {
		defer func() {
			if recover() != nil {
				pan = true
			}
		}()
		proof, err = pp.prove(x, new(big.Int).Set(r))
	}()
	t.Check(pan || err != nil, "ProveSet(%d) for %v gives no error", x, s)
	ok := false
	func() {
		defer func() { recover() }()
		ok, _ = pp.verify(proof)
	}()
	t.Check(!ok, "what ProveSet(%d) for %v returns verifies", x, s)
	t.Eval(1)
	t.NonTrivial(1)
	t.Outcome("outsider: error")
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		cx.Canonical()
		var sets [][]int64
		sets = append(sets, nil, []int64{})
		for i, a := range alphabet {
			sets = append(sets, []int64{a})
			for j, b := range alphabet[:i] {
				if c.Thorough || (i+j)%2 == 0 || i-j == 1 {
					sets = append(sets, []int64{b, a})
				}
				if c.Thorough {
					for _, d := range alphabet[:j] {
						sets = append(sets, []int64{d, a, b})
					}
				}
			}
		}
		sets = append(sets, []int64{7, 7}, []int64{5, 3, 5, 1}, []int64{12, 42, 61, 71}, alphabet)
		long := make([]int64, 60)
		for i := range long {
			long[i] = int64(i * i)
		}
		sets = append(sets, long)
		if c.Thorough {
			l2 := make([]int64, 600)
			for i := range l2 {
				l2[i] = int64(i) - 300
			}
			sets = append(sets, l2)
		}
		for si, s := range sets {
			si, s := si, s
			name := fmt.Sprint(s)
			if len(s) > 12 {
				name = fmt.Sprintf("%v... (%d)", s[:5], len(s))
			}
			c.Case("sets", name, func(t *mc.T) {
				p := setup(t, s, "a")
				q := setup(t, s, "b")
				in := map[int64]bool{}
				for _, x := range s {
					in[x] = true
				}
				xs := append([]int64{}, alphabet...)
				for i, x := range s {
					if i < 2 || i == len(s)-1 {
						xs = append(xs, x+1, x-1, -x, x)
					}
					if i == len(s)/2 || i%16 == 1 && len(s) > 12 {
						xs = append(xs, x)
					}
				}
				done := map[int64]bool{}
				mc.UseTape(mc.NewTape(name))
				for k, x := range xs {
					if done[x] {
						continue
					}
					done[x] = true
					r := rs()[(si+k)%len(rs())]
					if in[x] {
						if len(done)%3 == 1 {
							member(t, s, p, x, r, q)
						} else {
							member(t, s, p, x, r)
						}
					} else {
						outsider(t, s, p, x, r)
					}
				}
			})
		}
		// Sets of every size, and their members at the ends, next to powers of two and multiples of the size's parts.
		sizes := []int{}
		for n := 1; n <= 40; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 63, 65, 101, 127, 129, 257)
		if c.Thorough {
			for n := 41; n <= 135; n++ {
				sizes = append(sizes, n)
			}
			sizes = append(sizes, 255, 256, 258, 511, 513, 1023, 1025, 2049)
		}
		for _, n := range sizes {
			n := n
			c.Case("sizes of sets", fmt.Sprint(n), func(t *mc.T) {
				s := make([]int64, n)
				for i := range s {
					s[i] = int64(i)*7 - 20
				}
				p := setup(t, s, "a")
				mc.UseTape(mc.NewTape("sizes"))
				done := map[int]bool{}
				for _, i := range []int{0, n - 1, n - 2, n / 2, n / 3 * 3, 15, 16, 31, 32, 64, 128, 255, 256} {
					if i < 0 || i >= n || done[i] || n > 12 && i > 0 && i < n-1 && (i+n)%3 != 0 && i < 100 && !c.Thorough {
						continue
					}
					done[i] = true
					member(t, s, p, s[i], rs()[(n+i)%len(rs())])
				}
				outsider(t, s, p, -21, zk.B(5))
				outsider(t, s, p, s[n-1]+7, zk.B(5))
			})
		}
		// Every kind of commitment randomness.
		for _, s := range [][]int64{{0, 5}, {math.MinInt64, -1}} {
			for _, r := range rs() {
				for _, x := range s {
					s, r, x := s, r, x
					c.Case("randomness of the commitment", fmt.Sprintf("%v x=%d r=%x", s, x, r), func(t *mc.T) {
						p, q := setup(t, s, "a"), setup(t, append([]int64{x, 9}, s...), "b")
						mc.UseTape(mc.NewTape("r"))
						member(t, s, p, x, r, q)
					})
				}
			}
		}
		// Boundary answers of the random source, one draw at a time and all pairs.
		vals := []*big.Int{zk.B(0), zk.B(1), add(zk.BnN, -1), zk.Pow2(128)}
		draws := 0
		{
			mc.UseTape(mc.NewTape("count"))
			p, _ := ccs08.SetupSet([]int64{3, 4})
			tape := mc.UseTape(mc.NewTape("count"))
			ccs08.ProveSet(3, zk.B(5), p)
			draws = tape.Reads()
			if draws > 12 {
				draws = 12
			}
		}
		for i := 0; i < draws; i++ {
			for j := i; j < draws; j++ {
				for vi, v := range vals {
					for wi, w := range vals {
						if i == j && wi != vi || i != j && !c.Thorough && (vi > 1 || wi > 1) {
							continue
						}
						i, j, v, w := i, j, v, w
						c.Case("answers of the random source", fmt.Sprintf("draw %d=%x draw %d=%x", i, v, j, w), func(t *mc.T) {
							p := setup(t, []int64{3, 4}, "a")
							tape := mc.NewTape("answers")
							tape.Answer = map[int][]byte{i: v.Bytes()}
							tape.Answer[j] = w.Bytes()
							mc.UseTape(tape)
							proof, err := pOf(p).prove(4, zk.B(77))
							t.Check(err == nil, "ProveSet: %v", err)
							ok, _ := pOf(p).verify(proof)
							if inf(proof) {
								t.Check(!ok, "a proof with a blinded signature at infinity verifies")
								t.Outcome("v = 0: not a proof")
								return
							}
							t.Check(ok, "the proof does not verify")
							t.Outcome("verifies")
						})
					}
				}
			}
		}
		// Key generation with boundary answers.
		for _, v := range append(vals, zk.B(2), add(zk.BnN, -2), zk.Hex("ff"), add(zk.BnN, 0), zk.Pow2(253)) {
			v := v
			c.Case("keys of the setup", fmt.Sprintf("%x", v), func(t *mc.T) {
				tape := mc.NewTape("keys")
				tape.Answer = map[int][]byte{0: v.Bytes()}
				mc.UseTape(tape)
				// Members that no key of the alphabet cancels.
				p, err := ccs08.SetupSet([]int64{300, 301})
				t.Check(err == nil, "%v", err)
				mc.UseTape(mc.NewTape("r"))
				member(t, []int64{300, 301}, &p, 301, zk.B(5))
				outsider(t, []int64{300, 301}, &p, 299, zk.B(5))
			})
		}
		// A key under which a member cannot be signed: an error, or a usable set.
		for _, s := range [][]int64{{3}, {3, 4}, {4, 3, 5}, {-7, 3}, {0, 3}, {math.MinInt64, math.MaxInt64}} {
			for _, x := range s {
				s, x := s, x
				c.Case("keys that cancel a member", fmt.Sprintf("%v key -(%d)", s, x), func(t *mc.T) {
					tape := mc.NewTape("cancel")
					tape.Answer = map[int][]byte{0: new(big.Int).Mod(zk.B(-x), zk.BnN).Bytes()}
					if x == math.MinInt64 {
						tape.Answer[0] = zk.Pow2(63).Bytes()
					}
					mc.UseTape(tape)
					p, err := ccs08.SetupSet(s)
					if err != nil {
						t.Outcome("refused")
						return
					}
					mc.UseTape(mc.NewTape("r"))
					for _, y := range s {
						member(t, s, &p, y, zk.B(5))
					}
				})
			}
		}
	})
}
