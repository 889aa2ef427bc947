// C11: range proofs with u^l and with [a, b): all small u and l with every x
// in and around the range, an alphabet of intervals with every x around both
// limits, and all histories of a range proof object.
package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/ing-bank/zkrp/ccs08"
	"github.com/ing-bank/zkrp/crypto/bn256"

	"zkrpmc/cx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

func add(x *big.Int, d int64) *big.Int { return new(big.Int).Add(x, zk.B(d)) }

var rs = []*big.Int{zk.Hex("1234567890abcdef1234567890abcdef1234567890abcdef1234567890abcd00"), zk.B(0), zk.B(1), add(zk.BnN, -1), zk.B(-1), zk.Pow2(256), add(zk.Pow2(513), 5)}

var ulCache = map[string]interface{}{}

func setupUL(t *mc.T, u, l int64, label string) interface{} {
	k := fmt.Sprint(u, " ", l, label)
	if p, ok := ulCache[k]; ok {
		return p
	}
	mc.UseTape(mc.NewTape("setup" + label))
	p, err := ccs08.SetupUL(u, l)
	t.Check(err == nil, "SetupUL(%d,%d): %v", u, l, err)
	ulCache[k] = &p
	return &p
}

// inRange is -1 where the statement says nothing: x modulo the group order is in the range.
func inRange(x, lo, hi *big.Int) int {
	if x.Cmp(lo) >= 0 && x.Cmp(hi) < 0 {
		return 1
	}
	m := new(big.Int).Mod(new(big.Int).Sub(x, lo), zk.BnN)
	if m.Cmp(new(big.Int).Sub(hi, lo)) < 0 {
		return -1
	}
	return 0
}

func atInfinity(proof interface{}) bool {
	vs, _ := cx.Get(proof, "V").([]*bn256.G2)
	for _, v := range vs {
		if v != nil && v.IsZero() {
			return true
		}
	}
	return false
}

func ul(t *mc.T, u, l int64, x, r *big.Int) {
	p := setupUL(t, u, l, "")
	mc.UseTape(mc.NewTape("ul"))
	max := new(big.Int).Exp(zk.B(u), zk.B(l), nil)
	in := inRange(x, zk.B(0), max)
	xc, rc, before := new(big.Int).Set(x), new(big.Int).Set(r), zk.Dump(p)
	var proof interface{}
	var err error
	_, pan := cx.Quiet(func() (bool, error) { proof, err = cx.ProveUL(xc, rc, p); return true, nil })
	t.Check(xc.Cmp(x) == 0 && rc.Cmp(r) == 0 && zk.Dump(p) == before, "ProveUL changes its arguments")
	t.Eval(1)
	t.NonTrivial(1)
	if in == 1 {
		t.Check(!pan && err == nil, "ProveUL(%v) for [0,%d^%d): %v %v", x, u, l, err, pan)
		for i := 0; i < 1 || i < 2 && x.Bit(0) == 0 && l < 3; i++ {
			d := zk.Dump(proof)
			ok, err := cx.VerifyUL(proof, p)
			t.Check(ok && err == nil, "the proof of %v in [0,%d^%d), r=%v, does not verify (time %d): %v", x, u, l, r, i+1, err)
			t.Check(zk.Dump(proof) == d && zk.Dump(p) == before, "VerifyUL changes the proof or the parameters")
		}
		t.Outcome("in range: verifies")
		return
	}
	ok := false
	if !pan {
		ok, _ = cx.Quiet(func() (bool, error) { return cx.VerifyUL(proof, p) })
	}
	if in == 0 {
		t.Check(!ok, "the proof of %v verifies for [0,%d^%d)", x, u, l)
		t.Outcome("out of range: rejected")
	}
}

type iv struct{ a, b int64 }

var ivCache = map[iv]*ccs08.XCcs08{}

func setup(t *mc.T, i iv) *ccs08.XCcs08 {
	if z, ok := ivCache[i]; ok {
		return z
	}
	mc.UseTape(mc.NewTape("setup"))
	z := new(ccs08.XCcs08)
	err := z.Setup(i.a, i.b)
	t.Check(err == nil, "Setup(%d,%d): %v", i.a, i.b, err)
	ivCache[i] = z
	return z
}

// prove runs Prove of z for x, and gives a proof object of its own.
func prove(t *mc.T, z *ccs08.XCcs08, x, r *big.Int) (*ccs08.XCcs08, error, bool) {
	ccs08.XSet(z, new(big.Int).Set(x), new(big.Int).Set(r))
	var err error
	_, pan := cx.Quiet(func() (bool, error) { err = z.Prove(); return true, nil })
	return z, err, pan
}

func interval(t *mc.T, i iv, x, r *big.Int) {
	base := setup(t, i)
	z := new(ccs08.XCcs08)
	*z = *base
	in := inRange(x, zk.B(i.a), zk.B(i.b))
	mc.UseTape(mc.NewTape("interval"))
	_, err, pan := prove(t, z, x, r)
	t.Eval(1)
	t.NonTrivial(1)
	if in == 1 {
		t.Check(!pan && err == nil, "Prove of %v for [%d,%d): %v %v", x, i.a, i.b, err, pan)
		ok, err := z.Verify()
		t.Check(ok && err == nil, "the proof of %v in [%d,%d) does not verify: %v", x, i.a, i.b, err)
		t.Outcome("in the interval: verifies")
		return
	}
	ok := false
	if !pan {
		ok, _ = cx.Quiet(z.Verify)
	}
	if in == 0 {
		t.Check(!ok, "the proof of %v verifies for [%d,%d)", x, i.a, i.b)
		t.Outcome("outside the interval: rejected")
	}
}

// histories explores all sequences of operations on one range proof object
// with two intervals: the verdict depends on the last parameters, secret and
// proof only.
func histories(t *mc.T, first string, depth int) {
	ivs := map[string]iv{"A": {3, 9}, "B": {5, 7}}
	type st struct {
		z    *ccs08.XCcs08
		iv   string // parameters in force
		of   string // parameters the proof was made under
		x    int64
		ok   bool // a proof was made
		path string
	}
	seen := map[string]bool{}
	k := 0
	var explore func(s st, d int)
	step := func(s st, op string) (st, bool) {
		n := s
		n.z = new(ccs08.XCcs08)
		*n.z = *s.z
		n.path += op
		t.Transitions(1)
		k++
		mc.UseTape(mc.NewTape(n.path))
		switch op {
		case "A", "B":
			// Set up earlier with the same code; a fresh setup would only draw another key.
			*n.z = *setup(t, ivs[op])
			cx.Set(n.z, "x", cx.Get(s.z, "x"))
			cx.Set(n.z, "r", cx.Get(s.z, "r"))
			cx.Set(n.z, "proof_out", deref(cx.Get(s.z, "proof_out")))
			n.iv = op
		case "5", "4", "8", "2":
			if s.iv == "" {
				return n, false
			}
			x := int64(op[0] - '0')
			_, err, pan := prove(t, n.z, zk.B(x), zk.B(99))
			t.Check(!pan && err == nil, "Prove of %d: %v", x, err)
			n.of, n.x, n.ok = s.iv, x, true
		case "v":
			if s.iv == "" {
				return n, false
			}
			ok, _ := cx.Quiet(n.z.Verify)
			want := s.ok && s.of == s.iv && s.x >= ivs[s.iv].a && s.x < ivs[s.iv].b
			t.Check(ok == want, "after %s, Verify gives %v", n.path, ok)
			t.Eval(1)
			t.NonTrivial(1)
			t.Traces(1)
		}
		return n, true
	}
	explore = func(s st, d int) {
		if d == 0 {
			return
		}
		for _, op := range []string{"A", "B", "5", "4", "8", "2", "v"} {
			n, ok := step(s, op)
			if !ok {
				continue
			}
			key := fmt.Sprint(d, n.iv, n.of, n.x, n.ok, op == "v")
			if seen[key] {
				continue
			}
			seen[key] = true
			t.States(1)
			explore(n, d-1)
		}
	}
	s, _ := step(st{z: new(ccs08.XCcs08)}, first[:1])
	if len(first) > 1 {
		s, _ = step(s, first[1:])
	}
	explore(s, depth-1)
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		cx.Canonical()
		type p struct{ u, l int64 }
		ps := []p{{2, 1}, {2, 2}, {2, 3}, {2, 4}, {3, 1}, {3, 2}, {4, 1}, {4, 2}, {5, 1}, {7, 1}, {10, 1}, {57, 1}}
		big_ := []p{{10, 2}, {57, 2}, {2, 8}, {16, 3}, {3, 5}}
		if c.Thorough {
			ps = append(ps, []p{{2, 5}, {2, 6}, {3, 3}, {3, 4}, {4, 3}, {5, 2}, {6, 2}, {7, 2}, {8, 2}, {9, 1}, {10, 2}, {11, 1}, {16, 1}, {57, 1}}...)
			big_ = append(big_, []p{{57, 3}, {2, 64}, {2, 16}, {57, 11}, {256, 2}, {1000, 2}, {3, 40}, {10, 19}}...)
		}
		for _, q := range ps {
			max := new(big.Int).Exp(zk.B(q.u), zk.B(q.l), nil)
			var xs []*big.Int
			for x := int64(0); x < max.Int64(); x++ {
				if q.u == 57 && !c.Thorough && x > 3 && x < 53 && x != 28 {
					continue
				}
				xs = append(xs, zk.B(x))
			}
			for d := int64(0); d < 2; d++ {
				xs = append(xs, zk.B(-1-d), add(max, d))
			}
			xs = append(xs, new(big.Int).Neg(max), add(new(big.Int).Mul(max, zk.B(q.u)), 1), add(zk.Pow2(64), 1), add(zk.Pow2(300), 1), add(zk.Pow2(512), 1), add(zk.Pow2(1030), 0), new(big.Int).Neg(zk.Pow2(64)), add(zk.BnN, -1), add(zk.Pow2(63), 0))
			for i, x := range xs {
				q, x, r := q, x, rs[i%len(rs)]
				c.Case("u^l", fmt.Sprintf("u=%d l=%d x=%v r=%x", q.u, q.l, x, r), func(t *mc.T) { ul(t, q.u, q.l, x, r) })
			}
		}
		for _, q := range big_ {
			max := new(big.Int).Exp(zk.B(q.u), zk.B(q.l), nil)
			xs := []*big.Int{zk.B(0), add(max, -1), max, zk.B(-1), zk.B(q.u), new(big.Int).Rsh(max, 1), add(max, zk.B(q.u).Int64())}
			if c.Thorough {
				xs = append(xs, zk.B(q.u-1), zk.B(q.u+1), add(max, -q.u), add(max, 1), new(big.Int).Div(max, zk.B(q.u)), zk.B(1))
			}
			for i, x := range xs {
				q, x, r := q, x, rs[i%len(rs)]
				c.Case("larger u^l", fmt.Sprintf("u=%d l=%d x=%v r=%x", q.u, q.l, x, r), func(t *mc.T) { ul(t, q.u, q.l, x, r) })
			}
		}
		// Every base with a few digits, and every length with a few numbers.
		var bases, lengths []int64
		for u := int64(2); u <= 40; u++ {
			bases = append(bases, u)
		}
		bases = append(bases, 64, 100, 127, 129, 257, 300)
		for l := int64(1); l <= 12; l++ {
			lengths = append(lengths, l)
		}
		lengths = append(lengths, 17, 33)
		if c.Thorough {
			for u := int64(41); u <= 140; u++ {
				bases = append(bases, u)
			}
			bases = append(bases, 255, 256, 258, 511, 513, 1023, 1025)
			for l := int64(13); l <= 40; l++ {
				lengths = append(lengths, l)
			}
			lengths = append(lengths, 63, 64, 65, 100)
		}
		for i, u := range bases {
			i, u := i, u
			c.Case("sizes of bases", fmt.Sprint(u), func(t *mc.T) {
				for k, d := range []int64{0, 1, 2, 9, 10, 15, 16, 31, 32, 99, 127, 128, 255, 256, u / 2, u - 2, u - 1, u} {
					if d < 0 || d > u || d < u-3 && (i+k)%5 != 0 && !c.Thorough && u < 250 {
						continue
					}
					ul(t, u, 1, zk.B(d), rs[(i+k)%len(rs)])
				}
			})
		}
		for i, l := range lengths {
			i, l := i, l
			c.Case("sizes of lengths", fmt.Sprint(l), func(t *mc.T) {
				max := zk.Pow2(uint(l))
				xs := []*big.Int{add(max, -1), new(big.Int).Div(max, zk.B(3))}
				if l < 10 || c.Thorough {
					xs = append(xs, zk.B(0), add(max, -2), max)
				}
				for k, x := range xs {
					ul(t, 2, l, x, rs[(i+k)%len(rs)])
				}
				if l < 8 || c.Thorough && l < 30 {
					max := new(big.Int).Exp(zk.B(3), zk.B(l), nil)
					ul(t, 3, l, add(max, -1), rs[i%len(rs)])
					ul(t, 3, l, max, rs[i%len(rs)])
				}
			})
		}
		// Boundary answers of the random source, one draw at a time.
		vals := []*big.Int{zk.B(0), zk.B(1), add(zk.BnN, -1)}
		for k := 0; k < 8; k++ {
			for _, v := range vals {
				k, v := k, v
				c.Case("answers of the random source", fmt.Sprintf("draw %d = %x", k, v), func(t *mc.T) {
					p := setupUL(t, 3, 2, "")
					tape := mc.NewTape("answers")
					tape.Answer = map[int][]byte{k: v.Bytes()}
					mc.UseTape(tape)
					proof, err := cx.ProveUL(zk.B(5), zk.B(77), p)
					t.Check(err == nil, "ProveUL: %v", err)
					ok, _ := cx.VerifyUL(proof, p)
					t.Check(ok != atInfinity(proof), "verification gives %v", ok)
				})
			}
		}
		// Parameters of another setup, or for another range.
		for _, o := range []p{{3, 2}, {4, 2}, {3, 1}, {3, 3}, {2, 2}} {
			o := o
			c.Case("other parameters", fmt.Sprintf("u=%d l=%d", o.u, o.l), func(t *mc.T) {
				p, q := setupUL(t, 3, 2, ""), setupUL(t, o.u, o.l, "other")
				mc.UseTape(mc.NewTape("o"))
				for x := int64(0); x < 4; x++ {
					proof, err := cx.ProveUL(zk.B(x), zk.B(77), p)
					t.Check(err == nil, "ProveUL: %v", err)
					ok, _ := cx.Quiet(func() (bool, error) { return cx.VerifyUL(proof, q) })
					t.Check(!ok, "the proof verifies under other parameters")
					ok, err = cx.VerifyUL(proof, p)
					t.Check(ok && err == nil, "the proof does not verify after another setup: %v", err)
					t.Eval(1)
					t.NonTrivial(1)
				}
			})
		}
		// Intervals.
		ivs := []iv{{0, 2}, {1, 2}, {2, 2}, {0, 3}, {1, 3}, {3, 4}, {18, 200}, {0, 57}, {56, 57}, {0, 58}, {56, 58}, {57, 3249}, {3248, 3250}, {0, 3249}, {3249, 3249}, {347184000, 599644800}, {0, 1 << 32}, {0, math.MaxInt64}, {math.MaxInt64 - 1, math.MaxInt64}}
		if c.Thorough {
			for a := int64(0); a < 6; a++ {
				for b := a; b < 8; b++ {
					if b >= 2 {
						ivs = append(ivs, iv{a, b})
					}
				}
			}
			for q := int64(57); q < math.MaxInt64/57; q *= 57 {
				ivs = append(ivs, iv{0, q - 1}, iv{0, q}, iv{0, q + 1}, iv{q - 1, q + 1}, iv{q, 2 * q})
			}
		}
		seen := map[iv]bool{}
		for _, i := range ivs {
			if seen[i] {
				continue
			}
			seen[i] = true
			var xs []*big.Int
			A, B := zk.B(i.a), zk.B(i.b)
			for d := int64(-2); d <= 1; d++ {
				xs = append(xs, add(A, d), add(B, d))
			}
			m := new(big.Int).Add(A, B)
			xs = append(xs, m.Rsh(m, 1), zk.B(0), zk.B(-1), add(B, 57), add(A, -57), new(big.Int).Neg(B), new(big.Int).Add(zk.Pow2(64), A))
			l := 0
			for q := i.b; q > 0; q /= 57 {
				l++
			}
			if l > 3 && !c.Thorough {
				xs = []*big.Int{A, add(B, -1), B, add(A, -1)}
			}
			if l > 6 && !c.Thorough {
				xs = []*big.Int{add(B, -1), B}
			}
			// Values congruent to ones in the interval modulo u^l.
			w := new(big.Int).Exp(zk.B(57), zk.B(int64(l)), nil)
			if l <= 3 || c.Thorough {
				xs = append(xs, new(big.Int).Add(A, w), new(big.Int).Sub(add(B, -1), w))
			}
			us := zk.Uniq(xs)
			for part := 0; part < 3; part++ {
				i, part := i, part
				c.Case("interval", fmt.Sprintf("[%d,%d) part %d", i.a, i.b, part), func(t *mc.T) {
					for k := part; k < len(us); k += 3 {
						interval(t, i, us[k], rs[k%len(rs)])
					}
				})
			}
		}
		// Keys under which a digit cannot be signed: an error, or usable parameters.
		for d := int64(-1); d <= 4; d++ {
			d := d
			c.Case("keys that cancel a digit", fmt.Sprint(d), func(t *mc.T) {
				tape := mc.NewTape("cancel")
				tape.Answer = map[int][]byte{0: new(big.Int).Mod(zk.B(-d), zk.BnN).Bytes()}
				mc.UseTape(tape)
				p, err := ccs08.SetupUL(3, 2)
				t.Check(err == nil || d >= 0 && d < 3, "SetupUL(3,2) with the key -(%d): %v", d, err)
				if err != nil {
					t.Outcome("refused")
					return
				}
				mc.UseTape(mc.NewTape("r"))
				for x := int64(-1); x <= 9; x++ {
					proof, err := ccs08.ProveUL(zk.B(x), zk.B(5), p)
					ok := false
					if err == nil {
						ok, _ = ccs08.VerifyUL(&proof, &p)
					}
					t.Check(ok == (x >= 0 && x < 9), "key -(%d): the proof of %d verifies: %v", d, x, ok)
					t.Eval(1)
					t.NonTrivial(1)
				}
			})
		}
		// Setup refuses a > b.
		c.Case("setup", "a > b", func(t *mc.T) {
			al := []int64{math.MinInt64, math.MinInt64 + 1, -57, -2, -1, 0, 1, 2, 3, 56, 57, 58, 3249, 1 << 32, math.MaxInt64 - 1, math.MaxInt64}
			for i, a := range al {
				for _, b := range al[:i] {
					var z ccs08.XCcs08
					err := z.Setup(a, b)
					t.Check(err != nil, "Setup(%d,%d) succeeds", a, b)
					t.Eval(1)
					t.NonTrivial(1)
				}
			}
		})
		d := 4
		if c.Thorough {
			d = 7
		}
		for _, f := range []string{"A", "B", "A4", "B8", "Av"} {
			f := f
			c.Case("histories", f, func(t *mc.T) { histories(t, f, d) })
		}
	})
}
