// C15: the groups of bn256 against an independent reference: all pairs of
// elements of an alphabet in every representation and aliasing, structured
// scalars, and all sequences of operations on three registers.
package main

import (
	"crypto/rand"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"github.com/ing-bank/zkrp/crypto/bn256"

	"zkrpmc/bnx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

// ops gives the three groups one interface. E is *bn256.G1, *bn256.G2 or *bn256.GT.
type ops struct {
	ref    *bnx.Group
	fresh  func() interface{}
	base   func(k *big.Int) interface{}
	add    func(p, a, b interface{}) interface{}
	neg    func(p, a interface{}) interface{}
	mul    func(p, a interface{}, k *big.Int) interface{}
	mul2   func(p, a interface{}, k *big.Int) interface{} // Exp in GT
	inv    func(p, a interface{}) interface{}             // Invert in GT
	zero   func(a interface{}) bool
	enc    func(a interface{}) string
	affine func(a interface{}) interface{}
	inf    func() interface{}
	clear  []func(a interface{}) // make a used object the identity
	look   func(a interface{})   // read-only uses
}

func must(b bool) {
	if !b {
		panic("Unmarshal refuses what Marshal gives")
	}
}

func g1() *ops {
	type E = *bn256.G1
	return &ops{
		ref: bnx.G1, fresh: func() interface{} { return new(bn256.G1) },
		base: func(k *big.Int) interface{} { return new(bn256.G1).ScalarBaseMult(k) },
		add:  func(p, a, b interface{}) interface{} { return p.(E).Add(a.(E), b.(E)) },
		neg:  func(p, a interface{}) interface{} { return p.(E).Neg(a.(E)) },
		mul:  func(p, a interface{}, k *big.Int) interface{} { return p.(E).ScalarMult(a.(E), k) },
		zero: func(a interface{}) bool { return a.(E).IsZero() },
		enc: func(a interface{}) string {
			b := zk.Clone(a).(E).Marshal()
			if s := hex.EncodeToString(b); strings.Trim(s[:127], "0") != "" || s[127] > '1' {
				return s
			}
			return "O"
		},
		affine: func(a interface{}) interface{} {
			q, ok := new(bn256.G1).Unmarshal(a.(E).Marshal())
			must(ok)
			return q
		},
		inf:   func() interface{} { return new(bn256.G1).SetInfinity() },
		clear: []func(a interface{}){func(a interface{}) { a.(E).SetInfinity() }, func(a interface{}) { a.(E).SetZero() }},
		look: func(a interface{}) {
			a.(E).Marshal()
			a.(E).CurvePoints()
			_ = a.(E).String()
			a.(E).IsZero()
		},
	}
}

func g2() *ops {
	type E = *bn256.G2
	return &ops{
		ref: bnx.G2, fresh: func() interface{} { return new(bn256.G2) },
		base: func(k *big.Int) interface{} { return new(bn256.G2).ScalarBaseMult(k) },
		add:  func(p, a, b interface{}) interface{} { return p.(E).Add(a.(E), b.(E)) },
		neg:  func(p, a interface{}) interface{} { return p.(E).Neg(a.(E)) },
		mul:  func(p, a interface{}, k *big.Int) interface{} { return p.(E).ScalarMult(a.(E), k) },
		zero: func(a interface{}) bool { return a.(E).IsZero() },
		enc: func(a interface{}) string {
			s := hex.EncodeToString(zk.Clone(a).(E).Marshal())
			// Infinity has no affine coordinates; x = 0 is not on the twist's group.
			if strings.Trim(s[:128], "0") == "" {
				return "O"
			}
			return s
		},
		affine: func(a interface{}) interface{} {
			q, ok := new(bn256.G2).Unmarshal(a.(E).Marshal())
			must(ok)
			return q
		},
		inf:   func() interface{} { return new(bn256.G2).SetInfinity() },
		clear: []func(a interface{}){func(a interface{}) { a.(E).SetInfinity() }},
		look: func(a interface{}) {
			a.(E).Marshal()
			a.(E).CurvePoints()
			_ = a.(E).String()
			a.(E).IsZero()
		},
	}
}

func gt() *ops {
	type E = *bn256.GT
	gen := bn256.Pair(new(bn256.G1).ScalarBaseMult(zk.B(1)), new(bn256.G2).ScalarBaseMult(zk.B(1)))
	return &ops{
		ref: bnx.GT(), fresh: func() interface{} { return new(bn256.GT) },
		base: func(k *big.Int) interface{} { return new(bn256.GT).ScalarMult(gen, k) },
		add:  func(p, a, b interface{}) interface{} { return p.(E).Add(a.(E), b.(E)) },
		neg:  func(p, a interface{}) interface{} { return p.(E).Neg(a.(E)) },
		inv:  func(p, a interface{}) interface{} { return p.(E).Invert(a.(E)) },
		mul:  func(p, a interface{}, k *big.Int) interface{} { return p.(E).ScalarMult(a.(E), k) },
		mul2: func(p, a interface{}, k *big.Int) interface{} { return p.(E).Exp(a.(E), k) },
		zero: func(a interface{}) bool { return a.(E).IsOne() },
		enc:  func(a interface{}) string { return hex.EncodeToString(zk.Clone(a).(E).Marshal()) },
		affine: func(a interface{}) interface{} {
			q, ok := new(bn256.GT).Unmarshal(a.(E).Marshal())
			must(ok)
			return q
		},
		inf: func() interface{} {
			return bn256.Pair(new(bn256.G1).SetInfinity(), new(bn256.G2).ScalarBaseMult(zk.B(1)))
		},
		look: func(a interface{}) {
			a.(E).Marshal()
			_ = a.(E).String()
			a.(E).IsOne()
			a.(E).IsZero()
		},
	}
}

// forms makes k*g in every representation.
func (o *ops) forms(k *big.Int, heavy bool) []interface{} {
	a := o.base(k)
	out := []interface{}{a, o.affine(a)}
	// Through an addition: other projective coordinates.
	out = append(out, o.add(o.fresh(), o.base(new(big.Int).Sub(k, zk.B(1))), o.base(zk.B(1))))
	if new(big.Int).Mod(k, zk.BnN).Sign() == 0 {
		g := o.base(zk.B(5))
		out = append(out, o.inf(), o.add(o.fresh(), g, o.neg(o.fresh(), g)), o.mul(o.fresh(), g, zk.BnN), o.mul(o.fresh(), g, zk.B(0)), o.neg(o.fresh(), o.inf()))
		// A reused object set to infinity after having been a point.
		r := o.base(zk.B(7))
		out = append(out, o.mul(r, r, zk.B(0)))
		for _, f := range o.clear {
			for _, used := range []interface{}{o.base(zk.B(7)), o.affine(o.base(zk.B(7))), o.add(o.fresh(), o.base(zk.B(7)), o.base(zk.B(9)))} {
				f(used)
				out = append(out, used)
			}
		}
	}
	if heavy {
		out = append(out, o.neg(o.fresh(), o.base(new(big.Int).Neg(k))), o.add(o.fresh(), o.neg(o.fresh(), o.base(zk.B(3))), o.base(new(big.Int).Add(k, zk.B(3)))))
	}
	return out
}

func (o *ops) is(a interface{}, want interface{}) bool {
	return o.enc(a) == o.ref.Enc(want) && o.zero(zk.Clone(a)) == (o.ref.Enc(want) == o.ref.Enc(o.ref.Zero))
}

func (o *ops) check(t *mc.T, what string, ea, eb *big.Int, a, b interface{}, want interface{}, f func(p, a, b interface{}) interface{}) {
	ra := o.ref.Exp(ea)
	var rb interface{}
	if b != nil {
		rb = o.ref.Exp(eb)
	}
	for pat := 0; pat < 5; pat++ {
		x := zk.Clone(a)
		var y interface{}
		if b != nil {
			y = zk.Clone(b)
		}
		var p interface{}
		switch pat {
		case 0:
			p = o.fresh()
		case 1:
			p = x
		case 2:
			if b == nil {
				continue
			}
			p = y
		case 3:
			p = o.base(zk.B(11))
		case 4:
			if b == nil || ea.Cmp(eb) != 0 {
				continue
			}
			y = x
			p = x
		}
		r := f(p, x, y)
		w := fmt.Sprintf("%s %s aliasing %d", o.ref.Name, what, pat)
		t.Check(r == p, "%s returns something else than its receiver", w)
		t.Check(o.is(p, want), "%s = %s, want %s", w, o.enc(p), o.ref.Enc(want))
		t.Check(p == x || o.is(x, ra), "%s changes its first operand", w)
		t.Check(b == nil || p == y || o.is(y, rb), "%s changes its second operand", w)
		t.Eval(1)
		t.NonTrivial(1)
	}
	if b == nil {
		return
	}
	// The result stands on its own: reusing it changes no operand, and the other way round.
	x, y := zk.Clone(a), zk.Clone(b)
	p := f(o.fresh(), x, y)
	o.add(p, p, p)
	t.Check(o.is(x, ra) && o.is(y, rb), "%s %s: reusing the result changes an operand", o.ref.Name, what)
	p = f(p, x, y)
	o.add(x, x, x)
	o.neg(y, y)
	t.Check(o.is(p, want), "%s %s: reusing an operand changes the result", o.ref.Name, what)
}

func short(k *big.Int) string {
	s := k.Text(16)
	if len(s) > 20 {
		return s[:8] + ".." + s[len(s)-8:]
	}
	return s
}

func single(c *mc.Ctx, o *ops, exps, scal []*big.Int, mulPts []int64) {
	for i := range exps {
		ea := exps[i]
		c.Case(o.ref.Name+" pairs", short(ea), func(t *mc.T) {
			fa := o.forms(ea, true)
			for k, a := range fa {
				t.Check(o.is(a, o.ref.Exp(ea)), "%s: form %d of %v is %s, want %s", o.ref.Name, k, ea, o.enc(a), o.ref.Enc(o.ref.Exp(ea)))
				o.look(a)
				t.Check(o.is(a, o.ref.Exp(ea)), "%s: encoding form %d of %v changes it", o.ref.Name, k, ea)
				want := o.ref.Exp(new(big.Int).Neg(ea))
				o.check(t, fmt.Sprintf("Neg(%v)", ea), ea, nil, a, nil, want, func(p, a, _ interface{}) interface{} { return o.neg(p, a) })
				if o.inv != nil {
					o.check(t, fmt.Sprintf("Invert(%v)", ea), ea, nil, a, nil, want, func(p, a, _ interface{}) interface{} { return o.inv(p, a) })
				}
			}
			for j, eb := range exps {
				if !c.Thorough && len(exps) > 40 && (i+j)%3 != 0 && i != j && new(big.Int).Add(ea, eb).Sign() != 0 {
					continue
				}
				fb := o.forms(eb, false)
				want := o.ref.Exp(new(big.Int).Add(ea, eb))
				for _, a := range fa[:3] {
					for _, b := range fb {
						o.check(t, fmt.Sprintf("Add(%v,%v)", ea, eb), ea, eb, a, b, want, func(p, a, b interface{}) interface{} { return o.add(p, a, b) })
					}
				}
				// All forms of infinity and of equal and opposite elements.
				if i == j {
					for _, a := range fa {
						for _, b := range fa {
							o.check(t, fmt.Sprintf("Add(%v,%v)", ea, eb), ea, eb, a, b, want, func(p, a, b interface{}) interface{} { return o.add(p, a, b) })
						}
					}
				}
			}
		})
	}
	for i := range scal {
		s := scal[i]
		c.Case(o.ref.Name+" scalars", s.Text(16), func(t *mc.T) {
			in := new(big.Int).Set(s)
			for _, m := range mulPts {
				e := zk.B(m)
				want := o.ref.Mul(o.ref.Exp(e), s)
				fs := o.forms(e, false)
				if m != 0 {
					fs = fs[i%2 : i%2+1]
				}
				for _, a := range fs {
					o.check(t, fmt.Sprintf("ScalarMult(%v, %v)", m, s), e, nil, a, nil, want, func(p, a, _ interface{}) interface{} { return o.mul(p, a, in) })
					if o.mul2 != nil {
						o.check(t, fmt.Sprintf("Exp(%v, %v)", m, s), e, nil, a, nil, want, func(p, a, _ interface{}) interface{} { return o.mul2(p, a, in) })
					}
				}
			}
			b := o.base(in)
			t.Check(o.is(b, o.ref.Mul(o.ref.Gen, s)), "%s: base multiplied by %v = %s", o.ref.Name, s, o.enc(b))
			t.Check(in.Cmp(s) == 0, "%s: a multiplication changes the scalar %v", o.ref.Name, s)
		})
	}
}

// sequences explores all sequences of operations on three registers.
type regs struct {
	e [3]*big.Int
	v [3]interface{}
}

type step struct {
	name string
	dst  int
	exp  func(r *regs) *big.Int
	run  func(r *regs)
}

func (o *ops) steps(scal []*big.Int) []step {
	var out []step
	for d := 0; d < 3; d++ {
		for a := 0; a < 3; a++ {
			d, a := d, a
			for b := 0; b < 3; b++ {
				b := b
				out = append(out, step{fmt.Sprintf("r%d=r%d+r%d", d, a, b), d, func(r *regs) *big.Int { return new(big.Int).Add(r.e[a], r.e[b]) },
					func(r *regs) { o.add(r.v[d], r.v[a], r.v[b]) }})
			}
			out = append(out, step{fmt.Sprintf("r%d=-r%d", d, a), d, func(r *regs) *big.Int { return new(big.Int).Neg(r.e[a]) }, func(r *regs) { o.neg(r.v[d], r.v[a]) }})
			for _, k := range scal {
				k := k
				out = append(out, step{fmt.Sprintf("r%d=%s*r%d", d, short(k), a), d, func(r *regs) *big.Int { return new(big.Int).Mul(r.e[a], k) },
					func(r *regs) { o.mul(r.v[d], r.v[a], k) }})
			}
		}
		d := d
		out = append(out, step{fmt.Sprintf("encode r%d", d), -1, nil, func(r *regs) { o.look(r.v[d]) }},
			step{fmt.Sprintf("r%d=decode(encode r%d)", d, d), d, func(r *regs) *big.Int { return r.e[d] }, func(r *regs) { r.v[d] = o.affine(r.v[d]) }},
			step{fmt.Sprintf("r%d=0", d), d, func(r *regs) *big.Int { return zk.B(0) }, func(r *regs) {
				if len(o.clear) == 0 {
					r.v[d] = o.inf()
					return
				}
				o.clear[d%len(o.clear)](r.v[d])
			}},
			step{fmt.Sprintf("r%d=new", d), d, func(r *regs) *big.Int { return zk.B(1) }, func(r *regs) { r.v[d] = o.base(zk.B(1)) }})
	}
	return out
}

func sequences(c *mc.Ctx, o *ops, scal []*big.Int, depth int) {
	st := o.steps(scal)
	start := func() *regs {
		return &regs{[3]*big.Int{zk.B(1), zk.B(2), zk.B(0)}, [3]interface{}{o.base(zk.B(1)), o.base(zk.B(2)), o.base(zk.B(0))}}
	}
	// Every history runs on objects of its own from the start, so that what
	// the library may remember about them is there, too.
	play := func(t *mc.T, hist []step) {
		r := start()
		for _, s := range hist {
			var e *big.Int
			if s.dst >= 0 {
				e = s.exp(r)
			}
			s.run(r)
			if s.dst >= 0 {
				r.e[s.dst] = e.Mod(e, zk.BnN)
			}
		}
		for i := range r.v {
			if !o.is(r.v[i], o.ref.Exp(r.e[i])) {
				var names []string
				for _, s := range hist {
					names = append(names, s.name)
				}
				t.Failf("%s: %s: r%d is %s, want %s", o.ref.Name, strings.Join(names, "; "), i, o.enc(r.v[i]), o.ref.Enc(o.ref.Exp(r.e[i])))
			}
		}
		t.Eval(1)
		t.NonTrivial(1)
		t.Transitions(len(hist))
		t.States(1)
	}
	var dfs func(t *mc.T, hist []step, left int)
	dfs = func(t *mc.T, hist []step, left int) {
		play(t, hist)
		if left == 0 {
			t.Traces(1)
			return
		}
		for _, s := range st {
			dfs(t, append(hist[:len(hist):len(hist)], s), left-1)
		}
	}
	for i := range st {
		s := st[i]
		c.Case(fmt.Sprintf("%s sequences of %d operations", o.ref.Name, depth), s.name, func(t *mc.T) {
			dfs(t, []step{s}, depth-1)
		})
	}
}

// random: for every first and second answer of the random source, an element
// drawn at random is a non-zero power of the generator together with its exponent.
func random(c *mc.Ctx) {
	type kind struct {
		o    *ops
		draw func() (*big.Int, interface{}, error)
	}
	for _, k := range []kind{
		{g1(), func() (*big.Int, interface{}, error) { k, p, err := bn256.RandomG1(rand.Reader); return k, p, err }},
		{g2(), func() (*big.Int, interface{}, error) { k, p, err := bn256.RandomG2(rand.Reader); return k, p, err }},
	} {
		k := k
		all := new(big.Int).Sub(zk.Pow2(256), zk.B(1))
		answers := []*big.Int{zk.B(0), zk.B(1), zk.B(2), zk.B(1 << 40), new(big.Int).Sub(zk.BnN, zk.B(1)), zk.BnN, new(big.Int).Add(zk.BnN, zk.B(1)), zk.Pow2(64), zk.Pow2(128), zk.Pow2(255), all, new(big.Int).Rsh(zk.BnN, 1)}
		for i := range answers {
			i := i
			c.Case(k.o.ref.Name+" random elements", fmt.Sprintf("first answer %s", short(answers[i])), func(t *mc.T) {
				for _, second := range answers {
					tape := mc.UseTape(mc.NewTape("c15"))
					tape.Answer = map[int][]byte{0: answers[i].FillBytes(make([]byte, 32)), 1: second.FillBytes(make([]byte, 32))}
					e, p, err := k.draw()
					if err != nil || e.Sign() <= 0 || e.Cmp(zk.BnN) >= 0 || !k.o.is(p, k.o.ref.Exp(e)) {
						t.Failf("%s: after the answers %s, %s: exponent %v, element %v, error %v", k.o.ref.Name, short(answers[i]), short(second), e, p, err)
						return
					}
					e2, p2, err := k.draw()
					if err != nil || e2.Sign() <= 0 || e2.Cmp(zk.BnN) >= 0 || !k.o.is(p2, k.o.ref.Exp(e2)) || !k.o.is(p, k.o.ref.Exp(e)) {
						t.Failf("%s: the second element is %v, %v, error %v (first: %v)", k.o.ref.Name, e2, p2, err, e)
						return
					}
					t.Eval(1)
					t.NonTrivial(1)
				}
			})
		}
	}
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		small := []*big.Int{zk.B(-3), zk.B(-1), zk.B(0), zk.B(1), zk.B(2), zk.B(5)}
		ord := append([]*big.Int{new(big.Int).Sub(zk.BnN, zk.B(1)), zk.BnN}, small...)
		e1 := zk.Scalars(zk.BnN, 6, false)
		e2 := []*big.Int{}
		for _, k := range []int64{0, 1, 2, 3, 4, 5, -1, -2, -3, 1 << 40} {
			e2 = append(e2, zk.B(k))
		}
		e2 = append(e2, new(big.Int).Sub(zk.BnN, zk.B(1)), new(big.Int).Rsh(zk.BnN, 1), zk.Pow2(255))
		d := 2
		if c.Thorough {
			d = 3
		}
		random(c)
		single(c, g1(), e1, append(zk.Scalars(zk.BnN, 40, true), zk.Long(zk.BnN, c.Thorough)...), []int64{1, 0, 5, -1})
		sequences(c, g1(), ord, d)
		s2 := zk.Scalars(zk.BnN, 20, c.Thorough)
		if !c.Thorough {
			var f []*big.Int
			for i, k := range s2 {
				if k.BitLen() < 20 || i%3 == 0 || k.BitLen() > 250 && i%2 == 0 {
					f = append(f, k)
				}
			}
			s2 = f
		}
		s2 = append(s2, zk.Long(zk.BnN, c.Thorough)...)
		single(c, g2(), e2, s2, []int64{1, 0, -2})
		sequences(c, g2(), small, 2)
		single(c, gt(), e2, s2, []int64{1, 0, -2})
		sequences(c, gt(), small, 2)
		if c.Thorough {
			sequences(c, g2(), []*big.Int{zk.B(-1), zk.B(0), zk.B(2)}, 3)
			sequences(c, gt(), []*big.Int{zk.B(-1), zk.B(0), zk.B(2)}, 3)
		}
	})
}
