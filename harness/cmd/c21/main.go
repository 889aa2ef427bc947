// C21: digit decomposition and the modular helpers, exhaustively on small
// ranges and on structured large operands.
package main

import (
	"crypto/sha256"
	"fmt"
	"math"
	"math/big"

	"github.com/ing-bank/zkrp/util"
	"github.com/ing-bank/zkrp/util/bn"

	"zkrpmc/mc"
	"zkrpmc/zk"
)

func decompose(t *mc.T, x *big.Int, u, l int64) {
	in := new(big.Int).Set(x)
	d, err := util.Decompose(in, u, l)
	t.Check(in.Cmp(x) == 0, "Decompose(%v,%d,%d) changes its argument", x, u, l)
	t.Check(err == nil && int64(len(d)) == l, "Decompose(%v,%d,%d) = %v, %v", x, u, l, d, err)
	sum := new(big.Int)
	w := zk.B(1)
	for _, v := range d {
		t.Check(v >= 0 && v < u, "Decompose(%v,%d,%d) = %v: %d is not a digit", x, u, l, d, v)
		sum.Add(sum, new(big.Int).Mul(w, zk.B(v)))
		w = new(big.Int).Mul(w, zk.B(u))
	}
	want := new(big.Int).Mod(x, w)
	t.Check(sum.Cmp(want) == 0, "Decompose(%v,%d,%d) = %v recombines to %v", x, u, l, d, sum)
	t.Eval(1)
	t.NonTrivial(1)
}

type args []*big.Int

func keep(t *mc.T, name string, a args, f func(a args) *big.Int) *big.Int {
	c := make(args, len(a))
	for i := range a {
		c[i] = new(big.Int).Set(a[i])
	}
	r := f(c)
	for i := range a {
		t.Check(c[i].Cmp(a[i]) == 0, "%s(%v) changes its argument %d", name, a, i)
		if r != nil {
			t.Check(r != c[i], "%s(%v) returns its argument %d", name, a, i)
		}
	}
	t.Eval(1)
	t.NonTrivial(1)
	return r
}

func eq(t *mc.T, name string, a args, got, want *big.Int) {
	t.Check(got != nil && got.Cmp(want) == 0, "%s(%v) = %v, want %v", name, a, got, want)
}

// mulmod is exponentiation by repeated multiplication (small) or square and multiply.
func power(b, e, m *big.Int) *big.Int {
	r := new(big.Int).Mod(zk.B(1), m)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r.Mul(r, r).Mod(r, m)
		if e.Bit(i) == 1 {
			r.Mul(r, b).Mod(r, m)
		}
	}
	return r
}

func unit(b, m *big.Int) bool {
	return new(big.Int).GCD(nil, nil, new(big.Int).Mod(b, m), m).Cmp(zk.B(1)) == 0
}

func modular(t *mc.T, x, y, m *big.Int) {
	eq(t, "Add", args{x, y}, keep(t, "Add", args{x, y}, func(a args) *big.Int { return bn.Add(a[0], a[1]) }), new(big.Int).Add(x, y))
	eq(t, "Sub", args{x, y}, keep(t, "Sub", args{x, y}, func(a args) *big.Int { return bn.Sub(a[0], a[1]) }), new(big.Int).Sub(x, y))
	eq(t, "Multiply", args{x, y}, keep(t, "Multiply", args{x, y}, func(a args) *big.Int { return bn.Multiply(a[0], a[1]) }), new(big.Int).Mul(x, y))
	r := keep(t, "Mod", args{x, m}, func(a args) *big.Int { return bn.Mod(a[0], a[1]) })
	q := new(big.Int).Sub(x, r)
	t.Check(r.Sign() >= 0 && r.Cmp(m) < 0 && q.Rem(q, m).Sign() == 0, "Mod(%v,%v) = %v", x, m, r)
	inv := keep(t, "ModInverse", args{x, m}, func(a args) *big.Int { return bn.ModInverse(a[0], a[1]) })
	one := new(big.Int).Mod(zk.B(1), m)
	if unit(x, m) {
		t.Check(inv != nil && inv.Sign() >= 0 && inv.Cmp(m) < 0, "ModInverse(%v,%v) = %v", x, m, inv)
		p := new(big.Int).Mul(inv, x)
		t.Check(p.Mod(p, m).Cmp(one) == 0, "ModInverse(%v,%v) = %v", x, m, inv)
	} else {
		t.Check(inv == nil, "ModInverse(%v,%v) = %v, but there is none", x, m, inv)
	}
	{
		got := keep(t, "ModPow", args{x, y, m}, func(a args) *big.Int { return bn.ModPow(a[0], a[1], a[2]) })
		want := power(x, new(big.Int).Abs(y), m)
		if y.Sign() < 0 && !unit(x, m) {
			t.Check(got == nil, "ModPow(%v,%v,%v) = %v, but there is no inverse", x, y, m, got)
		} else if y.Sign() < 0 {
			// got is the inverse of want.
			t.Check(got != nil && got.Sign() >= 0 && got.Cmp(m) < 0, "ModPow(%v,%v,%v) = %v", x, y, m, got)
			p := new(big.Int).Mul(got, want)
			t.Check(p.Mod(p, m).Cmp(one) == 0, "ModPow(%v,%v,%v) = %v", x, y, m, got)
		} else {
			eq(t, "ModPow", args{x, y, m}, got, want)
		}
	}
}

// enc is the shortest two's-complement string of x.
func enc(x *big.Int) []byte {
	n := uint(1)
	for {
		lim := zk.Pow2(8*n - 1)
		if x.Cmp(lim) < 0 && x.Cmp(new(big.Int).Neg(lim)) >= 0 {
			break
		}
		n++
	}
	y := new(big.Int).Mod(x, zk.Pow2(8*n)).Bytes()
	return append(make([]byte, int(n)-len(y)), y...)
}

func hash(t *mc.T, x, y *big.Int) {
	h := sha256.New()
	h.Write(enc(x))
	if y != nil {
		h.Write(enc(y))
	}
	want := new(big.Int).SetBytes(h.Sum(nil))
	if want.BitLen() == 256 {
		want.Sub(want, zk.Pow2(256))
	}
	cx := new(big.Int).Set(x)
	var cy *big.Int
	if y != nil {
		cy = new(big.Int).Set(y)
	}
	got, err := bn.CalculateHash(cx, cy)
	t.Check(err == nil && got.Cmp(want) == 0, "CalculateHash(%v,%v) = %v, %v", x, y, got, err)
	t.Check(cx.Cmp(x) == 0 && (y == nil || cy.Cmp(y) == 0), "CalculateHash(%v,%v) changes its arguments", x, y)
	t.Eval(1)
	t.NonTrivial(1)
}

// again keeps the arguments in the same variables and uses results together.
func again(c *mc.Ctx) {
	type st struct {
		x, y, m *big.Int
		u, l    int64
	}
	var sts []st
	big1 := zk.Hex("f123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123")
	for _, v := range [][5]int64{{5, 9, 97, 2, 4}, {9, 5, 97, 2, 4}, {5, 9, 97, 3, 4}, {5, 9, 97, 2, 5}, {5, 10, 97, 2, 4}, {5, 9, 101, 2, 4}, {0, 0, 1, 57, 3}, {12, -3, 35, 57, 3}, {5, -3, 35, 57, 0}, {1, 1, 2, 10, 1}} {
		sts = append(sts, st{zk.B(v[0]), zk.B(v[1]), zk.B(v[2]), v[3], v[4]})
	}
	sts = append(sts, st{big1, zk.SecpP, zk.SecpN, 57, 50}, st{zk.SecpP, big1, zk.SecpN, 57, 50}, st{big1, zk.SecpP, zk.BnN, 256, 40}, st{new(big.Int).Add(big1, zk.B(1)), zk.SecpP, zk.SecpN, 57, 50})
	x, y, m := new(big.Int), new(big.Int), new(big.Int)
	var u, l int64
	set := func(i int) {
		x.Set(sts[i].x)
		y.Set(sts[i].y)
		m.Set(sts[i].m)
		u, l = sts[i].u, sts[i].l
	}
	intact := func(i int) bool { return x.Cmp(sts[i].x) == 0 && y.Cmp(sts[i].y) == 0 && m.Cmp(sts[i].m) == 0 }
	num := func(r interface{}) string { return fmt.Sprint(r.(*big.Int)) }
	spoil := func(r interface{}) {
		z := r.(*big.Int)
		if z == nil {
			return
		}
		for k, w := 0, z.Bits(); k < len(w); k++ {
			w[k] ^= 5
		}
		z.SetInt64(7)
	}
	inverse := func(x, m *big.Int) *big.Int {
		// By the extended algorithm of Euclid on integers.
		a, b := new(big.Int).Mod(x, m), new(big.Int).Set(m)
		s, t := zk.B(1), zk.B(0)
		for b.Sign() != 0 {
			q, r := new(big.Int).DivMod(a, b, new(big.Int))
			a, b = b, r
			s, t = t, new(big.Int).Sub(s, new(big.Int).Mul(q, t))
		}
		if a.Cmp(zk.B(1)) != 0 {
			return nil
		}
		return s.Mod(s, m)
	}
	digits := func(x *big.Int, u, l int64) []int64 {
		out := []int64{}
		r := new(big.Int).Set(x)
		for k := int64(0); k < l; k++ {
			d := new(big.Int)
			r.DivMod(r, zk.B(u), d)
			out = append(out, d.Int64())
		}
		return out
	}
	fs := []struct {
		name string
		call func() *big.Int
		want func(s st) *big.Int
	}{
		{"Add", func() *big.Int { return bn.Add(x, y) }, func(s st) *big.Int { return new(big.Int).Add(s.x, s.y) }},
		{"Sub", func() *big.Int { return bn.Sub(x, y) }, func(s st) *big.Int { return new(big.Int).Sub(s.x, s.y) }},
		{"Multiply", func() *big.Int { return bn.Multiply(x, y) }, func(s st) *big.Int { return new(big.Int).Mul(s.x, s.y) }},
		{"Mod", func() *big.Int { return bn.Mod(x, m) }, func(s st) *big.Int {
			_, r := new(big.Int).DivMod(s.x, s.m, new(big.Int))
			return r
		}},
		{"ModInverse", func() *big.Int { return bn.ModInverse(x, m) }, func(s st) *big.Int { return inverse(s.x, s.m) }},
		{"ModPow", func() *big.Int { return bn.ModPow(x, y, m) }, func(s st) *big.Int {
			if s.y.Sign() >= 0 {
				return power(s.x, s.y, s.m)
			}
			v := inverse(s.x, s.m)
			if v == nil {
				return nil
			}
			return power(v, new(big.Int).Neg(s.y), s.m)
		}},
		{"CalculateHash", func() *big.Int {
			r, err := bn.CalculateHash(x, y)
			if err != nil {
				return nil
			}
			return r
		}, func(s st) *big.Int {
			h := sha256.Sum256(append(append([]byte(nil), enc(s.x)...), enc(s.y)...))
			w := new(big.Int).SetBytes(h[:])
			if w.BitLen() == 256 {
				w.Sub(w, zk.Pow2(256))
			}
			return w
		}},
	}
	for i := range sts {
		i := i
		c.Case("variables used again", fmt.Sprint(i), func(t *mc.T) {
			for j := range sts {
				for _, f := range fs {
					mc.Reuse{Set: set, Intact: intact, Call: func() interface{} { return f.call() }, Want: func(i int) string { return fmt.Sprint(f.want(sts[i])) }, Read: num, Scribble: spoil}.Run(t, f.name, i, j)
				}
				mc.Reuse{Set: set, Intact: intact,
					Call: func() interface{} {
						d, err := util.Decompose(x, u, l)
						t.Check(err == nil, "Decompose(%v,%d,%d): %v", x, u, l, err)
						return d
					},
					Want: func(i int) string { return fmt.Sprint(digits(sts[i].x, sts[i].u, sts[i].l)) },
					Read: func(r interface{}) string { return fmt.Sprint(r) },
					Scribble: func(r interface{}) {
						d := r.([]int64)
						for k := range d {
							d[k] = -9
						}
						_ = append(d, 5)
					},
				}.Run(t, "Decompose", i, j)
			}
		})
	}
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		again(c)
		mx, mu, ml := int64(1200), int64(14), int64(6)
		if c.Thorough {
			mx, mu, ml = 20000, 40, 9
		}
		for u := int64(2); u <= mu; u++ {
			for l := int64(0); l <= ml; l++ {
				u, l := u, l
				c.Case("decompose small numbers", fmt.Sprintf("u=%d l=%d", u, l), func(t *mc.T) {
					for x := int64(0); x < mx; x++ {
						decompose(t, zk.B(x), u, l)
					}
				})
			}
		}
		us := []int64{2, 3, 5, 10, 16, 57, 255, 256, 257, 65535, 65536, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 + 1, 1 << 62, math.MaxInt64 - 1, math.MaxInt64}
		big1 := zk.Scalars(zk.SecpN, 4, true)
		for _, u := range us {
			for _, l := range []int64{0, 1, 2, 3, 5, 8, 31, 32, 33, 64, 65, 256, 300} {
				u, l := u, l
				c.Case("decompose large numbers", fmt.Sprintf("u=%d l=%d", u, l), func(t *mc.T) {
					for _, x := range big1 {
						if x.Sign() >= 0 {
							decompose(t, x, u, l)
						}
					}
					for k := int64(0); k < 70; k++ {
						w := new(big.Int).Exp(zk.B(u), zk.B(k), nil)
						for d := int64(-1); d <= 1; d++ {
							if x := new(big.Int).Add(w, zk.B(d)); x.Sign() >= 0 {
								decompose(t, x, u, l)
							}
						}
					}
				})
			}
		}
		r, mm := int64(25), int64(30)
		if c.Thorough {
			r, mm = 60, 130
		}
		for m := int64(1); m <= mm; m++ {
			m := m
			c.Case("modular helpers on small numbers", fmt.Sprintf("m=%d", m), func(t *mc.T) {
				for x := -r; x <= r; x++ {
					for y := -r; y <= r; y++ {
						modular(t, zk.B(x), zk.B(y), zk.B(m))
					}
				}
			})
		}
		for i, m := range []*big.Int{zk.SecpN, zk.SecpP, zk.BnN, zk.BnP, zk.Pow2(256), zk.Pow2(64), new(big.Int).Sub(zk.Pow2(127), zk.B(1)), new(big.Int).Mul(zk.SecpN, zk.SecpN)} {
			xs := zk.Scalars(m, 3, false)
			for j := range xs {
				m, x := m, xs[j]
				c.Case("modular helpers on large numbers", fmt.Sprintf("%d %d", i, j), func(t *mc.T) {
					for k := (j % 3); k < len(xs); k++ {
						modular(t, x, xs[k], m)
						if !c.Thorough {
							k += 2
						}
					}
				})
			}
		}
		// Numbers at the limits of machine words.
		var words []*big.Int
		for _, k := range []uint{0, 1, 8, 15, 16, 31, 32, 33, 52, 53, 62, 63, 64, 65, 127, 128} {
			for d := int64(-1); d <= 1; d++ {
				w := new(big.Int).Add(zk.Pow2(k), zk.B(d))
				words = append(words, w, new(big.Int).Neg(w))
			}
		}
		for i := range words {
			x := words[i]
			c.Case("helpers at the limits of words", fmt.Sprint(x), func(t *mc.T) {
				for j, y := range words {
					modular(t, x, y, zk.SecpN)
					for k := j % 5; k < len(words); k += 5 {
						if words[k].Sign() > 0 {
							modular(t, x, y, words[k])
						}
						if !c.Thorough {
							k += 20
						}
					}
				}
			})
		}
		hs := append(zk.Scalars(zk.SecpN, 300, true), nil)
		for i := range hs {
			x := hs[i]
			if x == nil {
				continue
			}
			c.Case("hash to integer", x.Text(16), func(t *mc.T) {
				for j := i % 7; j < len(hs); j += 7 {
					hash(t, x, hs[j])
				}
				hash(t, x, nil)
			})
		}
	})
}
