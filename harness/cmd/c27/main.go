// C27: the vector helpers of bulletproofs: complete small groups and vectors,
// every length up to a bound, every combination of lengths, and results that
// stand on their own.
package main

import (
	"flag"
	"fmt"
	"math"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"

	"zkrpmc/bpx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

var tiny = flag.Bool("tiny", false, "small curve")

type vec = []*big.Int

func q() *big.Int { return bulletproofs.ORDER }

func cp(a vec) vec {
	if a == nil {
		return nil
	}
	r := vec{}
	for _, x := range a {
		r = append(r, new(big.Int).Set(x))
	}
	return r
}

func same(a, b vec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

func show(a vec) string {
	if len(a) > 8 {
		return fmt.Sprintf("%v.. (%d)", a[:8], len(a))
	}
	return fmt.Sprint(a)
}

// guard turns a panic into an error of the case.
func guard(t *mc.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(error); !ok {
				panic(r)
			}
			t.Failf("%s panics: %v", what, r)
		}
	}()
	f()
}

type binary struct {
	name string
	f    func(a, b vec) (vec, error)
	ref  func(x, y *big.Int) *big.Int
}

var binaries = []binary{
	{"VectorAdd", bulletproofs.VectorAdd, func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }},
	{"VectorSub", bulletproofs.VectorSub, func(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) }},
	{"VectorMul", bulletproofs.VectorMul, func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }},
}

// mod is x modulo the order, by the division of integers.
func mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, q()) }

// own checks that a result shares nothing with what it was made from.
func own(t *mc.T, what string, r vec, args ...vec) {
	var before []vec
	for _, a := range args {
		before = append(before, cp(a))
	}
	for i := range r {
		old := cp(r)
		r[i].Add(r[i], zk.B(1))
		for k := range r {
			if k != i && r[k].Cmp(old[k]) != 0 {
				t.Failf("changing element %d of the result of %s changes element %d", i, what, k)
			}
		}
		for j := range args {
			if !same(args[j], before[j]) {
				t.Failf("changing the result of %s changes argument %d", what, j)
			}
		}
		for k := 0; k < i; k++ {
			if r[k] == r[i] {
				t.Failf("elements %d and %d of the result of %s are one object", k, i, what)
			}
		}
	}
}

func pairs(t *mc.T, a, b vec, deep bool) {
	for _, o := range binaries {
		x, y := cp(a), cp(b)
		what := fmt.Sprintf("%s(%s,%s)", o.name, show(a), show(b))
		guard(t, what, func() {
			r, err := o.f(x, y)
			t.Check(same(x, a) && same(y, b), "%s changes its arguments", what)
			if len(a) != len(b) {
				t.Check(err != nil && r == nil, "%s: no error for lengths %d and %d", what, len(a), len(b))
				t.Outcome("lengths differ: error")
				return
			}
			var want vec
			for i := range a {
				want = append(want, mod(o.ref(a[i], b[i])))
			}
			t.Check(err == nil && same(r, want), "%s = %s (%v), want %s", what, show(r), err, show(want))
			if deep {
				own(t, what, r, x, y)
			}
			// One vector as both arguments.
			r, err = o.f(x, x)
			for i := range a {
				want[i] = mod(o.ref(a[i], a[i]))
			}
			t.Check(err == nil && same(r, want) && same(x, a), "%s of one vector twice = %s, want %s", o.name, show(r), show(want))
		})
		t.Eval(2)
		t.NonTrivial(2)
	}
	x, y := cp(a), cp(b)
	what := fmt.Sprintf("ScalarProduct(%s,%s)", show(a), show(b))
	guard(t, what, func() {
		r, err := bulletproofs.ScalarProduct(x, y)
		t.Check(same(x, a) && same(y, b), "%s changes its arguments", what)
		if len(a) != len(b) {
			t.Check(err != nil && r == nil, "%s: no error for lengths %d and %d", what, len(a), len(b))
			return
		}
		sum := new(big.Int)
		for i := range a {
			sum.Add(sum, new(big.Int).Mul(a[i], b[i]))
		}
		t.Check(err == nil && r.Cmp(mod(sum)) == 0, "%s = %v (%v), want %v", what, r, err, mod(sum))
		r.Add(r, zk.B(1))
		t.Check(same(x, a) && same(y, b), "changing the result of %s changes an argument", what)
	})
	t.Eval(1)
	t.NonTrivial(1)
}

func scalar(t *mc.T, a vec, k *big.Int) {
	x, s := cp(a), new(big.Int).Set(k)
	what := fmt.Sprintf("VectorScalarMul(%s,%v)", show(a), k)
	guard(t, what, func() {
		r, err := bulletproofs.VectorScalarMul(x, s)
		var want vec
		for i := range a {
			want = append(want, mod(new(big.Int).Mul(a[i], k)))
		}
		t.Check(same(x, a) && s.Cmp(k) == 0, "%s changes its arguments", what)
		t.Check(err == nil && same(r, want), "%s = %s (%v), want %s", what, show(r), err, show(want))
		own(t, what, r, x, vec{s})
		// The factor is an element of the vector.
		if len(a) > 0 {
			for _, j := range []int{0, len(a) - 1} {
				r, err = bulletproofs.VectorScalarMul(x, x[j])
				for i := range a {
					want[i] = mod(new(big.Int).Mul(a[i], a[j]))
				}
				t.Check(err == nil && same(r, want) && same(x, a), "VectorScalarMul(%s, its element %d) = %s, want %s", show(a), j, show(r), show(want))
			}
		}
	})
	t.Eval(1)
	t.NonTrivial(1)
}

// exp checks products of powers of points with known logarithms.
func exp(t *mc.T, logs, b vec) {
	var g []*p256.P256
	sum := new(big.Int)
	for i := range logs {
		g = append(g, point(logs[i]))
		if i < len(b) {
			sum.Add(sum, new(big.Int).Mul(logs[i], b[i]))
		}
	}
	y := cp(b)
	d := zk.Dump(g)
	what := fmt.Sprintf("VectorExp(g^%s,%s)", show(logs), show(b))
	guard(t, what, func() {
		r, err := bulletproofs.VectorExp(g, y)
		t.Check(zk.Dump(g) == d && same(y, b), "%s changes its arguments", what)
		if len(logs) != len(b) {
			t.Check(err != nil && r == nil, "%s: no error for lengths %d and %d", what, len(logs), len(b))
			return
		}
		want := bpx.Curve.Mul(bpx.Curve.G(), sum)
		t.Check(err == nil && bpx.Curve.Eq(bpx.Pt(r), want), "%s = %v (%v), want %v", what, bpx.Pt(r), err, want)
		r.Multiply(r, point(zk.B(1)))
		r.SetInfinity()
		t.Check(zk.Dump(g) == d, "using the result of %s as a receiver changes its arguments", what)
	})
	t.Eval(1)
	t.NonTrivial(1)
}

var points = map[string]zk.Pt{}

// point is g^k in an object of its own.
func point(k *big.Int) *p256.P256 {
	s := fmt.Sprint(q(), mod(k))
	p, ok := points[s]
	if !ok {
		p = bpx.Curve.Mul(bpx.Curve.G(), k)
		points[s] = p
	}
	return bpx.P(p)
}

func ecadd(t *mc.T, la, lb vec) {
	var a, b []*p256.P256
	for _, x := range la {
		a = append(a, point(x))
	}
	for _, x := range lb {
		b = append(b, point(x))
	}
	da, db := zk.Dump(a), zk.Dump(b)
	what := fmt.Sprintf("VectorECAdd(g^%s,g^%s)", show(la), show(lb))
	guard(t, what, func() {
		r, err := bulletproofs.VectorECAdd(a, b)
		t.Check(zk.Dump(a) == da && zk.Dump(b) == db, "%s changes its arguments", what)
		if len(a) != len(b) {
			t.Check(err != nil && r == nil, "%s: no error for lengths %d and %d", what, len(a), len(b))
			return
		}
		t.Check(err == nil && len(r) == len(a), "%s: %d elements, %v", what, len(r), err)
		for i := range r {
			want := bpx.Pt(point(new(big.Int).Add(la[i], lb[i])))
			t.Check(bpx.Curve.Eq(bpx.Pt(r[i]), want), "%s: element %d is wrong", what, i)
			r[i].Multiply(r[i], point(zk.B(3)))
			r[i].SetInfinity()
		}
		t.Check(zk.Dump(a) == da && zk.Dump(b) == db, "using the result of %s as a receiver changes its arguments", what)
	})
	t.Eval(1)
	t.NonTrivial(1)
}

// numbers checks VectorCopy and VectorConvertToBig.
func numbers(t *mc.T, x *big.Int, a []int64, n int64) {
	in := new(big.Int).Set(x)
	what := fmt.Sprintf("VectorCopy(%v,%d)", x, n)
	guard(t, what, func() {
		r, err := bulletproofs.VectorCopy(in, n)
		t.Check(in.Cmp(x) == 0, "%s changes its argument", what)
		if n < 0 {
			t.Check(err != nil && r == nil, "%s gives no error", what)
			return
		}
		t.Check(err == nil && int64(len(r)) == n, "%s: %d elements, %v", what, len(r), err)
		for i := range r {
			t.Check(r[i].Cmp(x) == 0, "%s: element %d is %v", what, i, r[i])
		}
		own(t, what, r, vec{in})
	})
	ai := append([]int64(nil), a...)
	what = fmt.Sprintf("VectorConvertToBig of %d numbers to %d", len(a), n)
	guard(t, what, func() {
		r, err := bulletproofs.VectorConvertToBig(ai, n)
		for i := range a {
			t.Check(ai[i] == a[i], "%s changes its argument", what)
		}
		if n < 0 || n > int64(len(a)) {
			t.Check(err != nil && r == nil, "%s gives no error", what)
			return
		}
		t.Check(err == nil && int64(len(r)) == n, "%s: %d elements, %v", what, len(r), err)
		for i := range r {
			t.Check(r[i].Cmp(zk.B(a[i])) == 0, "%s: element %d is %v, not %d", what, i, r[i], a[i])
		}
		own(t, what, r)
	})
	t.Eval(2)
	t.NonTrivial(2)
}

// all calls f with every vector of length n over the alphabet.
func all(n int, alpha vec, f func(v vec)) {
	v := make(vec, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(v)
			return
		}
		for _, x := range alpha {
			v[i] = x
			rec(i + 1)
		}
	}
	rec(0)
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		if *tiny {
			small(c)
			return
		}
		N := zk.SecpN
		alpha := append(zk.Scalars(N, 3, false), zk.Pow2(64), new(big.Int).Neg(zk.Pow2(300)), zk.Pow2(513), new(big.Int).Add(zk.Pow2(1030), zk.B(3)), new(big.Int).Mul(N, N), zk.Hex("123456789abcdef0fedcba98765432100123456789abcdef0fedcba987654321"))
		mk := func(n, a, b int) vec {
			v := vec{}
			for i := 0; i < n; i++ {
				v = append(v, new(big.Int).Add(alpha[(a*i+b)%len(alpha)], zk.B(int64(i*(b+1)))))
			}
			return v
		}
		max := 130
		if c.Thorough {
			max = 520
		}
		for n := 0; n <= max; n++ {
			n := n
			c.Case("every length", fmt.Sprint(n), func(t *mc.T) {
				for s := 0; s < 6; s++ {
					pairs(t, mk(n, 1+s, s), mk(n, 3+2*s, 2*s+1), true)
					scalar(t, mk(n, 1+s, s), alpha[(n+7*s)%len(alpha)])
				}
				// A single entry, in every position.
				for k := 0; k < n; k++ {
					e := vec{}
					for i := 0; i < n; i++ {
						e = append(e, zk.B(0))
					}
					e[k] = zk.B(int64(k + 2))
					pairs(t, e, mk(n, 1, 1), false)
				}
				if n <= 70 || c.Thorough || n%16 < 2 {
					exp(t, mk(n, 1, 2), mk(n, 5, 1))
					ecadd(t, mk(n, 1, 2), mk(n, 5, 1))
				}
				for _, m := range []int{n - 1, n + 1, 2 * n, 0, 1, n / 2} {
					if m >= 0 && m != n {
						pairs(t, mk(n, 1, 0), mk(m, 1, 0), false)
						exp(t, mk(n, 0, 3), mk(m, 1, 0))
						ecadd(t, mk(n, 0, 3), mk(m, 0, 3))
					}
				}
				ints := []int64{}
				for i := 0; i < n; i++ {
					ints = append(ints, []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 32, -1 << 31, 77}[i%8]+int64(i/8))
				}
				for _, m := range []int64{int64(n), int64(n) - 1, int64(n) + 1, 0, -1, math.MinInt64, int64(n) * 2, int64(n) / 2} {
					numbers(t, alpha[n%len(alpha)], ints, m)
				}
				// Repeated entries.
				for _, e := range [][]int64{{0}, {1}, {-1}, {0, 1}, {1, 1, 0}, {-1, 0, 0, -1}, {math.MinInt64}, {5, 5, 5, 77}} {
					var ints []int64
					v, w := vec{}, vec{}
					for i := 0; i < n; i++ {
						ints = append(ints, e[i%len(e)])
						v = append(v, zk.B(e[i%len(e)]))
						w = append(w, new(big.Int).Set(alpha[(i/4)%len(alpha)]))
					}
					numbers(t, zk.B(e[0]), ints, int64(n))
					pairs(t, v, w, true)
					pairs(t, w, v, false)
					scalar(t, v, alpha[n%len(alpha)])
					if n < 40 {
						scalar(t, w, zk.B(e[0]))
						pairs(t, v, v, true)
					}
				}
			})
		}
		for i, x := range alpha {
			for j, y := range alpha {
				if !c.Thorough && (i*7+j)%3 != 0 {
					continue
				}
				x, y := x, y
				c.Case("values", fmt.Sprintf("%x,%x", x, y), func(t *mc.T) {
					pairs(t, vec{x}, vec{y}, true)
					pairs(t, vec{x, y}, vec{y, x}, true)
					pairs(t, vec{x, x, y}, vec{y, x, y}, true)
					scalar(t, vec{x, y, x}, y)
					exp(t, vec{zk.B(1), zk.B(-3)}, vec{x, y})
					exp(t, vec{x, y, x}, vec{y, x, zk.B(-1)})
					ecadd(t, vec{x, y, x}, vec{y, new(big.Int).Neg(y), x})
				})
			}
		}
		// One object in several places.
		c.Case("shared elements", "", func(t *mc.T) {
			for _, x := range alpha {
				v := new(big.Int).Set(x)
				a := vec{v, v, zk.B(2), v}
				for _, o := range binaries {
					r, err := o.f(a, a)
					t.Check(err == nil, "%v", err)
					for i := range r {
						t.Check(r[i].Cmp(mod(o.ref(a[i], a[i]))) == 0 && v.Cmp(x) == 0, "%s of a vector that holds one object several times: element %d is %v", o.name, i, r[i])
					}
				}
				r, err := bulletproofs.VectorScalarMul(a, v)
				t.Check(err == nil && v.Cmp(x) == 0 && r[3].Cmp(mod(new(big.Int).Mul(x, x))) == 0, "VectorScalarMul with one object several times")
				p := point(x)
				e, err := bulletproofs.VectorExp([]*p256.P256{p, p, p}, vec{v, v, v})
				t.Check(err == nil && bpx.Curve.Eq(bpx.Pt(e), bpx.Pt(point(new(big.Int).Mul(zk.B(3), new(big.Int).Mul(x, x))))), "VectorExp with one object several times")
				l, err := bulletproofs.VectorECAdd([]*p256.P256{p, p}, []*p256.P256{p, p})
				t.Check(err == nil && bpx.Curve.Eq(bpx.Pt(l[0]), bpx.Pt(point(new(big.Int).Lsh(x, 1)))) && bpx.Curve.Eq(bpx.Pt(p), bpx.Pt(point(x))), "VectorECAdd with one object several times")
				t.Eval(6)
				t.NonTrivial(6)
			}
		})
		again(c, alpha)
		c.Case("powers of two", "", func(t *mc.T) {
			pw := map[int64]bool{}
			for k := uint(0); k < 63; k++ {
				pw[1<<k] = true
			}
			try := func(x int64) {
				t.Check(bulletproofs.IsPowerOfTwo(x) == pw[x], "IsPowerOfTwo(%d) = %v", x, !pw[x])
				t.Eval(1)
				t.NonTrivial(1)
			}
			for x := int64(-70000); x <= 70000; x++ {
				try(x)
				try(math.MinInt64 + 70000 + x)
				try(math.MaxInt64 - 70000 - x)
			}
			for j := uint(0); j < 63; j++ {
				for d := int64(-300); d <= 300; d++ {
					try(1<<j + d)
					try(-1<<j + d)
				}
				for k := uint(0); k < 63; k++ {
					try(1<<j + 1<<k)
					try(1<<j - 1<<k)
					try(1<<j | 1<<k | math.MinInt64)
				}
			}
		})
	})
}

// again calls every function on variables that hold other vectors each time.
func again(c *mc.Ctx, alpha vec) {
	const length = 5
	val := func(i, s int) vec {
		v := vec{}
		for k := 0; k < length; k++ {
			v = append(v, alpha[(i*(s+3)+k*(i+1)+s)%len(alpha)])
		}
		return v
	}
	str := func(r interface{}) string {
		switch x := r.(type) {
		case vec:
			return fmt.Sprint(x)
		case *big.Int:
			return x.String()
		case *p256.P256:
			return fmt.Sprint(bpx.Pt(x))
		case []*p256.P256:
			s := ""
			for _, p := range x {
				s += fmt.Sprint(bpx.Pt(p))
			}
			return s
		}
		return fmt.Sprint(r)
	}
	scribble := func(r interface{}) {
		switch x := r.(type) {
		case vec:
			for i := range x {
				x[i].Add(x[i], zk.B(9))
				x[i] = nil
			}
		case *big.Int:
			x.Add(x, zk.B(9))
		case *p256.P256:
			x.X, x.Y = zk.B(4), zk.B(5)
		case []*p256.P256:
			for i := range x {
				x[i].X, x[i].Y = zk.B(4), zk.B(5)
				x[i] = nil
			}
		}
	}
	n := len(alpha)
	for i := 0; i < n; i++ {
		i := i
		c.Case("variables used again", fmt.Sprint(i), func(t *mc.T) {
			for _, j := range []int{(i + 1) % n, (i + n/2) % n, (i + n - 1) % n} {
				a, b := make(vec, length), make(vec, length)
				k := new(big.Int)
				ga, gb := make([]*p256.P256, length), make([]*p256.P256, length)
				for l := range a {
					a[l], b[l] = new(big.Int), new(big.Int)
					ga[l], gb[l] = new(p256.P256), new(p256.P256)
				}
				set := func(i int) {
					for l := range a {
						a[l].Set(val(i, 0)[l])
						b[l].Set(val(i, 1)[l])
						*ga[l], *gb[l] = *point(val(i, 0)[l]), *point(val(i, 1)[l])
					}
					k.Set(alpha[i])
				}
				intact := func(i int) bool {
					for l := range ga {
						if !bpx.Curve.Eq(bpx.Pt(ga[l]), bpx.Pt(point(val(i, 0)[l]))) || !bpx.Curve.Eq(bpx.Pt(gb[l]), bpx.Pt(point(val(i, 1)[l]))) {
							return false
						}
					}
					return same(a, val(i, 0)) && same(b, val(i, 1)) && k.Cmp(alpha[i]) == 0
				}
				run := func(name string, call func() (interface{}, error), want func(i int) interface{}) {
					mc.Reuse{Set: set, Intact: intact, Read: str, Scribble: scribble, Call: func() interface{} {
						r, err := call()
						t.Check(err == nil, "%s: %v", name, err)
						return r
					}, Want: func(i int) string { return str(want(i)) }}.Run(t, name, i, j)
				}
				each := func(f func(x, y *big.Int) *big.Int) func(i int) interface{} {
					return func(i int) interface{} {
						r := vec{}
						for l := range a {
							r = append(r, mod(f(val(i, 0)[l], val(i, 1)[l])))
						}
						return r
					}
				}
				for _, o := range binaries {
					o := o
					run(o.name, func() (interface{}, error) { return o.f(a, b) }, each(o.ref))
				}
				run("ScalarProduct", func() (interface{}, error) { return bulletproofs.ScalarProduct(a, b) }, func(i int) interface{} {
					s := new(big.Int)
					for l := range a {
						s.Add(s, new(big.Int).Mul(val(i, 0)[l], val(i, 1)[l]))
					}
					return mod(s)
				})
				run("VectorScalarMul", func() (interface{}, error) { return bulletproofs.VectorScalarMul(a, k) }, func(i int) interface{} {
					return each(func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, alpha[i]) })(i)
				})
				run("VectorCopy", func() (interface{}, error) { return bulletproofs.VectorCopy(k, length) }, func(i int) interface{} {
					return vec{alpha[i], alpha[i], alpha[i], alpha[i], alpha[i]}
				})
				run("VectorExp", func() (interface{}, error) { return bulletproofs.VectorExp(ga, b) }, func(i int) interface{} {
					s := new(big.Int)
					for l := range a {
						s.Add(s, new(big.Int).Mul(val(i, 0)[l], val(i, 1)[l]))
					}
					return point(s)
				})
				run("VectorECAdd", func() (interface{}, error) { return bulletproofs.VectorECAdd(ga, gb) }, func(i int) interface{} {
					var r []*p256.P256
					for l := range a {
						r = append(r, point(new(big.Int).Add(val(i, 0)[l], val(i, 1)[l])))
					}
					return r
				})
			}
		})
	}
}

func small(c *mc.Ctx) {
	for _, k := range [][2]int64{{13, 7}, {43, 31}} {
		k := k
		var res vec
		for x := int64(-1); x <= k[1]; x++ {
			res = append(res, zk.B(x))
		}
		depth := 2
		if k[1] > 10 {
			depth = 1
		}
		for n := 0; n <= depth; n++ {
			n := n
			name := fmt.Sprintf("all vectors of length %d modulo %d", n, k[1])
			all(n, res, func(v vec) {
				a := cp(v)
				c.Case(name, fmt.Sprint(a), func(t *mc.T) {
					bpx.UseTiny(k[0], k[1])
					all(n, res, func(b vec) {
						pairs(t, a, b, false)
						exp(t, a, b)
						ecadd(t, a, b)
						t.States(1)
					})
					for _, s := range res {
						scalar(t, a, s)
					}
				})
			})
		}
	}
	three := vec{zk.B(0), zk.B(1), zk.B(-1), zk.B(3)}
	for n := 3; n <= 4; n++ {
		n := n
		if n == 4 && !c.Thorough {
			continue
		}
		all(n, three, func(v vec) {
			a := cp(v)
			c.Case(fmt.Sprintf("vectors of length %d over four residues", n), fmt.Sprint(a), func(t *mc.T) {
				bpx.UseTiny(13, 7)
				all(n, three, func(b vec) {
					pairs(t, a, b, false)
					exp(t, a, b)
					ecadd(t, a, b)
					t.States(1)
				})
				for _, s := range three {
					scalar(t, a, s)
				}
			})
		})
	}
}
