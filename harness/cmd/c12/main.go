// C12: CCS08 proofs under alteration, exchange and forgery: every element with
// every replacement, every subset of elements exchanged between two proofs,
// and forging strategies that succeed against verifiers with one check or one
// hashed element missing.
package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/ing-bank/zkrp/ccs08"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/util"

	"zkrpmc/cx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

var (
	ord    = zk.BnN
	g2Type = reflect.TypeOf((*bn256.G2)(nil))
	gtType = reflect.TypeOf((*bn256.GT)(nil))
	inType = reflect.TypeOf((*big.Int)(nil))
)

func add(x *big.Int, d int64) *big.Int { return new(big.Int).Add(x, zk.B(d)) }
func mod(x *big.Int) *big.Int          { return new(big.Int).Mod(x, ord) }
func mul(xs ...*big.Int) *big.Int {
	r := zk.B(1)
	for _, x := range xs {
		r = mod(r.Mul(r, x))
	}
	return r
}
func sub(x, y *big.Int) *big.Int  { return mod(new(big.Int).Sub(x, y)) }
func plus(x, y *big.Int) *big.Int { return mod(new(big.Int).Add(x, y)) }
func inv(x *big.Int) *big.Int     { return new(big.Int).ModInverse(mod(x), ord) }

// Group operations on fresh values.
func g2(k *big.Int) *bn256.G2              { return new(bn256.G2).ScalarBaseMult(mod(k)) }
func e2(p *bn256.G2, k *big.Int) *bn256.G2 { return new(bn256.G2).ScalarMult(p, mod(k)) }
func a2(ps ...*bn256.G2) *bn256.G2 {
	r := g2(zk.B(0))
	for _, p := range ps {
		r = new(bn256.G2).Add(r, p)
	}
	return r
}
func eT(p *bn256.GT, k *big.Int) *bn256.GT    { return new(bn256.GT).ScalarMult(p, mod(k)) }
func aT(p, q *bn256.GT) *bn256.GT             { return new(bn256.GT).Add(p, q) }
func pair(p *bn256.G1, q *bn256.G2) *bn256.GT { return bn256.Pair(p, q) }

// system is one of the two proof systems, with n equations about signatures.
type system struct {
	name   string
	set    bool
	u, l   int64
	params interface{}
	other  interface{}
}

func (s *system) prove(t *mc.T, x int64, r *big.Int, label string) interface{} {
	mc.UseTape(mc.NewTape(label))
	var p interface{}
	var err error
	if s.set {
		p, err = cx.ProveSet(x, r, s.params)
	} else {
		p, err = cx.ProveUL(zk.B(x), r, s.params)
	}
	t.Check(err == nil, "proving %d: %v", x, err)
	return p
}

func (s *system) verify(p interface{}) bool {
	ok, _ := cx.Quiet(func() (bool, error) {
		if s.set {
			return cx.VerifySet(p, s.params)
		}
		return cx.VerifyUL(p, s.params)
	})
	return ok
}

func (s *system) sig(digit int64) *bn256.G2 {
	m := reflect.ValueOf(cx.Get(s.params, "signatures"))
	k := reflect.ValueOf(digit)
	if m.Type().Key().Kind() == reflect.String {
		k = reflect.ValueOf(fmt.Sprint(digit))
	}
	return m.MapIndex(k).Interface().(*bn256.G2)
}

func (s *system) H() *bn256.G2    { return cx.Get(s.params, "H").(*bn256.G2) }
func (s *system) pubk() *bn256.G1 { return cx.Get(s.params, "kp", "Pubk").(*bn256.G1) }

// elements lists the public elements of a proof.
func elements(p interface{}) []zk.Leaf {
	var out []zk.Leaf
	for _, typ := range []reflect.Type{g2Type, gtType, inType} {
		for _, l := range zk.FindUntil(p, typ, g2Type, gtType) {
			if !l.V.IsNil() {
				out = append(out, l)
			}
		}
	}
	return out
}

func text(v reflect.Value) string {
	if v.IsNil() {
		return "nil"
	}
	if x, ok := v.Interface().(*big.Int); ok {
		return mod(x).String()
	}
	return cx.Enc(v.Interface())
}

// replacements of an element that are different ones.
func replacements(s *system, p interface{}, l zk.Leaf, other interface{}) map[string]interface{} {
	out := map[string]interface{}{}
	switch x := l.V.Interface().(type) {
	case *big.Int:
		out["nil"] = (*big.Int)(nil)
		for n, y := range map[string]*big.Int{"0": zk.B(0), "1": zk.B(1), "+1": add(x, 1), "-1": add(x, -1), "neg": mod(new(big.Int).Neg(x)), "double": mod(new(big.Int).Lsh(x, 1)), "ord-1": add(ord, -1), "2^64": zk.Pow2(64), "inverse": inv(x), "+2^128": new(big.Int).Add(x, zk.Pow2(128))} {
			out[n] = y
		}
		for _, o := range elements(p) {
			if y, ok := o.V.Interface().(*big.Int); ok && o.Path != l.Path {
				out["own "+o.Path] = y
			}
		}
	case *bn256.G2:
		out["nil"] = (*bn256.G2)(nil)
		for n, y := range map[string]*bn256.G2{"infinity": g2(zk.B(0)), "g": g2(zk.B(1)), "neg": e2(x, zk.B(-1)), "double": e2(x, zk.B(2)), "+g": a2(x, g2(zk.B(1))), "H": s.H(), "+H": a2(x, s.H()), "signature": s.sig(1), "half": e2(x, inv(zk.B(2)))} {
			out[n] = y
		}
		for _, o := range elements(p) {
			if y, ok := o.V.Interface().(*bn256.G2); ok && o.Path != l.Path {
				out["own "+o.Path] = y
			}
		}
	case *bn256.GT:
		out["nil"] = (*bn256.GT)(nil)
		for n, y := range map[string]*bn256.GT{"one": eT(util.E, zk.B(0)), "E": util.E, "inverse": new(bn256.GT).Neg(x), "square": eT(x, zk.B(2)), "*E": aT(x, util.E)} {
			out[n] = y
		}
		for _, o := range elements(p) {
			if y, ok := o.V.Interface().(*bn256.GT); ok && o.Path != l.Path {
				out["own "+o.Path] = y
			}
		}
	}
	for _, o := range elements(other) {
		if o.Path == l.Path {
			out["other proof's"] = o.V.Interface()
		}
	}
	return out
}

func alter(c *mc.Ctx, s *system, x1, x2 int64) {
	mk := func(t *mc.T) (interface{}, interface{}) {
		return s.prove(t, x1, zk.Hex("abcdef12345"), "one"), s.prove(t, x2, zk.Hex("fedcba54321"), "two")
	}
	// How many elements there are, from one proof made outside of the cases.
	mc.UseTape(mc.NewTape("shape"))
	var shape interface{}
	if s.set {
		shape, _ = cx.ProveSet(x1, zk.B(5), s.params)
	} else {
		shape, _ = cx.ProveUL(zk.B(x1), zk.B(5), s.params)
	}
	n := len(elements(shape))
	for i := 0; i < n; i++ {
		i := i
		c.Case(s.name+" altered", fmt.Sprintf("element %d", i), func(t *mc.T) {
			p, q := mk(t)
			t.Check(s.verify(zk.Clone(p)) && s.verify(zk.Clone(q)), "an honest proof does not verify")
			l := elements(p)[i]
			for name, y := range replacements(s, p, l, q) {
				w := zk.Clone(p)
				m := elements(w)[i]
				before := text(m.V)
				m.V.Set(reflect.ValueOf(y))
				if text(m.V) == before {
					continue
				}
				t.Check(!s.verify(w), "%s still verifies with %s instead of its %s", s.name, name, l.Path)
				t.Eval(1)
				t.NonTrivial(1)
			}
			t.Sample("%s: all replacements of %s", s.name, l.Path)
		})
	}
	// Pairs of elements moved together, as the equations would allow if one were missing.
	c.Case(s.name+" altered", "two elements together", func(t *mc.T) {
		p, _ := mk(t)
		el := elements(p)
		for i := range el {
			for j := range el[:i] {
				w := zk.Clone(p)
				e := elements(w)
				for _, m := range []zk.Leaf{e[i], e[j]} {
					switch x := m.V.Interface().(type) {
					case *big.Int:
						m.V.Set(reflect.ValueOf(add(x, 1)))
					case *bn256.G2:
						m.V.Set(reflect.ValueOf(a2(x, g2(zk.B(1)))))
					case *bn256.GT:
						m.V.Set(reflect.ValueOf(aT(x, util.E)))
					}
				}
				t.Check(!s.verify(w), "%s still verifies with %s and %s altered", s.name, el[i].Path, el[j].Path)
				t.Eval(1)
				t.NonTrivial(1)
			}
		}
	})
	// All subsets exchanged.
	const parts = 8
	for part := 0; part < parts; part++ {
		part := part
		c.Case(s.name+" exchanged", fmt.Sprintf("subsets %d mod %d", part, parts), func(t *mc.T) {
			p, q := mk(t)
			ep, eq := elements(p), elements(q)
			t.Check(len(ep) == len(eq), "proofs of different shapes")
			for set := part; set < 1<<uint(n); set += parts {
				if set == 0 || set == 1<<uint(n)-1 {
					continue
				}
				if !c.Thorough && n > 8 && zk.Popcount(set) > 2 && zk.Popcount(set) < n-2 {
					continue
				}
				w := zk.Clone(p)
				for i, m := range elements(w) {
					if set>>uint(i)&1 == 1 {
						m.V.Set(eq[i].V)
					}
				}
				t.Check(!s.verify(w), "%s verifies with the elements %b of another proof", s.name, set)
				t.Eval(1)
				t.NonTrivial(1)
			}
		})
	}
}

// plan is a way to forge a proof about a value that is not allowed.
type plan struct {
	late   string // the element that is chosen after the challenge: C, D, V, a, or none
	digit  int    // which V or a
	broken string // an equation that is left unsatisfied: D, or a; or none
	inf    bool   // V[digit] is infinity
	hash   string // what the challenge is computed from
	pick   bool   // the challenge is chosen, not computed
	twist  string // an announced element (a, D, C or V) that is altered before the challenge is computed
	how    int    // how it is altered
	same   string // what digit has in common with another one: V, -V (negated), a, zv
}

// twists2 and twistsT alter an announced element.
var twists2 = []struct {
	name string
	f    func(s *system, x *bn256.G2) *bn256.G2
}{
	{"negated", func(s *system, x *bn256.G2) *bn256.G2 { return e2(x, zk.B(-1)) }},
	{"doubled", func(s *system, x *bn256.G2) *bn256.G2 { return e2(x, zk.B(2)) }},
	{"plus g", func(s *system, x *bn256.G2) *bn256.G2 { return a2(x, g2(zk.B(1))) }},
	{"plus H", func(s *system, x *bn256.G2) *bn256.G2 { return a2(x, s.H()) }},
	{"at infinity", func(s *system, x *bn256.G2) *bn256.G2 { return g2(zk.B(0)) }},
	{"times p", func(s *system, x *bn256.G2) *bn256.G2 { return e2(x, zk.BnP) }},
}
var twistsT = []struct {
	name string
	f    func(x *bn256.GT) *bn256.GT
}{
	{"inverted", func(x *bn256.GT) *bn256.GT { return eT(x, zk.B(-1)) }},
	{"squared", func(x *bn256.GT) *bn256.GT { return eT(x, zk.B(2)) }},
	{"times E", func(x *bn256.GT) *bn256.GT { return aT(x, util.E) }},
	{"one", func(x *bn256.GT) *bn256.GT { return eT(x, zk.B(0)) }},
	{"to the p", func(x *bn256.GT) *bn256.GT { return eT(x, zk.BnP) }},
	{"to the p^2", func(x *bn256.GT) *bn256.GT { return eT(x, mul(zk.BnP, zk.BnP)) }},
	{"to the p^3", func(x *bn256.GT) *bn256.GT { return eT(x, mul(zk.BnP, zk.BnP, zk.BnP)) }},
	{"to the p^4", func(x *bn256.GT) *bn256.GT { return eT(x, mul(zk.BnP, zk.BnP, zk.BnP, zk.BnP)) }},
}

func (p plan) String() string {
	return fmt.Sprintf("late=%s%d broken=%s inf=%v hash=%s pick=%v twist=%s how=%d same=%s", p.late, p.digit, p.broken, p.inf, p.hash, p.pick, p.twist, p.how, p.same)
}

// forge makes a proof of the value x, whose digits are not all allowed, with
// the signatures that the parameters give.
func forge(s *system, pl plan, x *big.Int, digits []int64) interface{} {
	n := len(digits)
	k := 0
	tape := mc.NewTape("forge" + pl.String())
	rnd := func() *big.Int {
		b := make([]byte, 32)
		tape.Default(k, b)
		k++
		return mod(new(big.Int).SetBytes(b))
	}
	H, y := s.H(), s.pubk()
	r, m := rnd(), rnd()
	w := make([]*big.Int, n) // weights
	for i := range w {
		w[i] = zk.B(1)
		if !s.set {
			w[i] = new(big.Int).Exp(zk.B(s.u), zk.B(int64(i)), nil)
		}
	}
	// The value digit i has to stand for: the forged digit makes up for the difference.
	val := make([]*big.Int, n)
	sum := zk.B(0)
	for i := range val {
		val[i] = zk.B(digits[i])
		if i != pl.digit {
			sum = plus(sum, mul(w[i], val[i]))
		}
	}
	val[pl.digit] = mul(sub(x, sum), inv(w[pl.digit]))
	ss, tt, vv := make([]*big.Int, n), make([]*big.Int, n), make([]*big.Int, n)
	V, a := make([]*bn256.G2, n), make([]*bn256.GT, n)
	S := zk.B(0)
	for i := 0; i < n; i++ {
		ss[i], tt[i], vv[i] = rnd(), rnd(), rnd()
		S = plus(S, mul(w[i], ss[i]))
		V[i] = e2(s.sig(digits[i]), vv[i])
		if pl.inf && i == pl.digit {
			V[i] = g2(zk.B(0))
			a[i] = eT(util.E, tt[i])
			continue
		}
		a[i] = aT(new(bn256.GT).Neg(eT(pair(util.G1, V[i]), ss[i])), eT(util.E, tt[i]))
	}
	// The forged digit shows elements of its neighbour, whose equation holds.
	shares := strings.Fields(pl.same)
	near := (pl.digit + 1) % n
	for _, f := range shares {
		switch f {
		case "V", "-V":
			V[pl.digit], vv[pl.digit] = V[near], vv[near]
			if f == "-V" {
				V[pl.digit], vv[pl.digit] = e2(V[near], zk.B(-1)), sub(zk.B(0), vv[near])
			}
			a[pl.digit] = aT(new(bn256.GT).Neg(eT(pair(util.G1, V[pl.digit]), ss[pl.digit])), eT(util.E, tt[pl.digit]))
		}
	}
	for _, f := range shares {
		if f == "a" {
			a[pl.digit] = a[near]
		}
	}
	D := a2(g2(S), e2(H, m))
	if pl.broken == "D" {
		D = a2(D, g2(rnd()))
	}
	C := a2(g2(x), e2(H, r))
	if pl.late == "C" {
		// The claim is that digits sum up to what C commits to; D is off.
		D = a2(D, g2(rnd()))
	}
	switch pl.twist {
	case "a":
		a[pl.digit] = twistsT[pl.how].f(a[pl.digit])
	case "V":
		V[pl.digit] = twists2[pl.how].f(s, V[pl.digit])
	case "C":
		C = twists2[pl.how].f(s, C)
	case "D":
		D = twists2[pl.how].f(s, D)
	}
	var c *big.Int
	switch {
	case pl.pick:
		c = rnd()
	case s.set:
		c, _ = util.HashSet(a[0], D, stmt(pl.hash, C, V)...)
	default:
		c, _ = util.Hash(a, D, stmt(pl.hash, C, V)...)
	}
	c = mod(c)
	if c.Sign() == 0 {
		return nil
	}
	zr := sub(m, mul(r, c))
	zsig, zv := make([]*big.Int, n), make([]*big.Int, n)
	for i := 0; i < n; i++ {
		zsig[i] = sub(ss[i], mul(val[i], c))
		zv[i] = sub(tt[i], mul(vv[i], c))
		if pl.late == "C" || pl.late == "D" || pl.broken == "D" {
			zsig[i] = sub(ss[i], mul(zk.B(digits[i]), c)) // honest about the digits
		}
		if pl.inf && i == pl.digit {
			zv[i] = tt[i]
		}
	}
	for _, f := range shares {
		if f == "zv" {
			zv[pl.digit] = zv[near]
		}
	}
	Z := zk.B(0)
	for i := range zsig {
		Z = plus(Z, mul(w[i], zsig[i]))
	}
	switch pl.late {
	case "C":
		C = e2(a2(D, e2(e2(H, zr), zk.B(-1)), g2(new(big.Int).Neg(Z))), inv(c))
	case "D":
		D = a2(e2(C, c), e2(H, zr), g2(Z))
	case "V":
		i := pl.digit
		// a[i] was computed for v; the pairing equation also holds for this one.
		f := plus(zsig[i], mul(zk.B(digits[i]), c))
		if f.Sign() == 0 {
			return nil
		}
		v2 := mul(ss[i], vv[i], inv(f))
		V[i] = e2(s.sig(digits[i]), v2)
		zv[i] = sub(tt[i], mul(v2, c))
	case "a":
		i := pl.digit
		a[i] = aT(aT(eT(pair(y, V[i]), c), new(bn256.GT).Neg(eT(pair(util.G1, V[i]), zsig[i]))), eT(util.E, zv[i]))
	}
	p := blank(s)
	put := func(name string, one interface{}, many interface{}) {
		if s.set {
			cx.Set(p, name, one)
		} else {
			cx.Set(p, name, many)
		}
	}
	put("V", V[0], V)
	put("a", a[0], a)
	put("zsig", zsig[0], zsig)
	put("zv", zv[0], zv)
	cx.Set(p, "D", D)
	cx.Set(p, "C", C)
	cx.Set(p, "c", c)
	cx.Set(p, "zr", zr)
	return p
}

// blank is an empty proof of the system.
func blank(s *system) interface{} {
	if s.set {
		return reflect.New(reflect.TypeOf(ccs08.ProveSet).Out(0)).Interface()
	}
	return reflect.New(reflect.TypeOf(ccs08.ProveUL).Out(0)).Interface()
}

func stmt(kind string, C *bn256.G2, V []*bn256.G2) []*bn256.G2 {
	switch kind {
	case "CV":
		return append([]*bn256.G2{C}, V...)
	case "VC":
		return append(append([]*bn256.G2{}, V...), C)
	case "C":
		return []*bn256.G2{C}
	case "V":
		return V
	case "C+1":
		return []*bn256.G2{C, V[0]}
	case "C-1":
		return append([]*bn256.G2{C}, V[1:]...)
	}
	return nil
}

func forgeries(c *mc.Ctx, s *system, x *big.Int, digits []int64, honest *big.Int) {
	hashes := []string{"CV", "VC", "C", "V", "", "C+1", "C-1"}
	var ps []plan
	for d := range digits {
		ps = append(ps, plan{digit: d, pick: true, late: "D"}, plan{digit: d, pick: true, late: "a"}, plan{digit: d, pick: true, late: "V"}, plan{digit: d, pick: true, late: "C"}, plan{digit: d, pick: true})
		for _, h := range hashes {
			ps = append(ps, plan{digit: d, hash: h, inf: true}, plan{digit: d, hash: h, late: "V"}, plan{digit: d, hash: h, late: "a"}, plan{digit: d, hash: h, broken: "a"}, plan{digit: d, hash: h, inf: true, late: "D"})
			if len(digits) > 1 {
				for _, f := range []string{"V", "-V", "a", "zv", "V a", "V zv", "a zv", "V a zv", "-V a", "-V zv"} {
					ps = append(ps, plan{digit: d, hash: h, same: f})
					if h != "CV" && !c.Thorough {
						break
					}
				}
			}
			if d == 0 {
				ps = append(ps, plan{hash: h, late: "C"}, plan{hash: h, late: "D"}, plan{hash: h, broken: "D"})
			}
		}
	}
	for _, pl := range ps {
		pl := pl
		c.Case(s.name+" forged", fmt.Sprintf("x=%v digits=%v %v", x, digits, pl), func(t *mc.T) {
			p := forge(s, pl, x, digits)
			if p == nil {
				return
			}
			t.Check(!s.verify(p), "the forged proof verifies")
		})
	}
	// An announced element altered before the challenge is computed from it.
	// (On an identity whose alteration is the identity again nothing changes;
	// the announced elements of these proofs are random.)
	for d := range digits {
		for _, el := range []string{"a", "V", "C", "D"} {
			if d > 0 && (el == "C" || el == "D") {
				continue
			}
			n := len(twists2)
			if el == "a" {
				n = len(twistsT)
			}
			for how := 0; how < n; how++ {
				for _, h := range []string{"CV", "VC", "C", "V", ""} {
					if h != "CV" && !c.Thorough && how > 0 {
						continue
					}
					pl := plan{digit: d, hash: h, twist: el, how: how}
					name := ""
					if el == "a" {
						name = twistsT[how].name
					} else {
						name = twists2[how].name
					}
					c.Case(s.name+" announced otherwise", fmt.Sprintf("digits=%v %s%d %s, hash of %s", digits, el, d, name, h), func(t *mc.T) {
						p := forge(s, pl, honest, digits)
						if p == nil {
							return
						}
						t.Check(!s.verify(p), "the proof verifies although its %s%d was announced %s", el, d, name)
						t.Eval(1)
						t.NonTrivial(1)
					})
				}
			}
		}
	}
	// The same construction without a trick, about an allowed value, makes honest proofs:
	// this shows that the forgeries above fail for the right reason.
	c.Case(s.name+" forged", fmt.Sprintf("control %v", digits), func(t *mc.T) {
		for _, h := range []string{"CV", "VC", "C", "V", ""} {
			if p := forge(s, plan{hash: h}, honest, digits); p != nil && s.verify(p) {
				t.Outcome("control: the construction gives a valid proof for an allowed value with hash " + h)
				return
			}
		}
		t.Outcome("control: the construction does not match this verifier")
	})
}

// halves splices range proofs for [a, b).
func halves(c *mc.Ctx) {
	type src struct {
		a, b, x int64
		r       int64
		lab     string
	}
	// All proofs share one key: parameters of one setup, with other limits.
	mk := func(t *mc.T, base *ccs08.XCcs08, s src) *ccs08.XCcs08 {
		z := zk.Clone(base).(*ccs08.XCcs08)
		pr, _ := zk.Field(z, "p")
		cx.Set(pr.Interface(), "a", s.a)
		cx.Set(pr.Interface(), "b", s.b)
		ccs08.XSet(z, zk.B(s.x), zk.B(s.r))
		mc.UseTape(mc.NewTape(s.lab))
		t.Check(z.Prove() == nil, "Prove")
		return z
	}
	half := func(z *ccs08.XCcs08, i int) reflect.Value {
		po, _ := zk.Field(z, "proof_out")
		f, ok := zk.Field(po.Addr().Interface(), []string{"p1", "p2"}[i])
		if !ok {
			panic("no halves")
		}
		return f
	}
	srcs := []src{{18, 50, 20, 7, "a"}, {18, 50, 21, 7, "b"}, {18, 50, 20, 8, "c"}, {19, 50, 20, 7, "d"}, {18, 51, 20, 7, "e"}, {10, 40, 39, 7, "f"}, {18, 50, 49, 7, "g"}, {18, 50, 17, 7, "h"}, {18, 50, 50, 7, "i"}}
	if c.Thorough {
		srcs = append(srcs, src{18, 50, 18, 7, "j"}, src{0, 56, 20, 7, "k"}, src{2, 3, 2, 7, "l"}, src{18, 50, 20, 0, "m"})
	}
	for _, s := range srcs {
		s := s
		c.Case("halves", fmt.Sprintf("[%d,%d) x=%d r=%d", s.a, s.b, s.x, s.r), func(t *mc.T) {
			base := new(ccs08.XCcs08)
			mc.UseTape(mc.NewTape("halves"))
			t.Check(base.Setup(18, 50) == nil, "Setup")
			z := mk(t, base, s)
			for _, o := range srcs {
				w := mk(t, base, o)
				for i := 0; i < 4; i++ {
					// Halves (z1, w2), (w1, z2), (z2, w1), (z1, w1) under the limits of z.
					v := zk.Clone(z).(*ccs08.XCcs08)
					pick := [][2]reflect.Value{{half(z, 0), half(w, 1)}, {half(w, 0), half(z, 1)}, {half(z, 1), half(w, 0)}, {half(z, 0), half(w, 0)}}[i]
					half(v, 0).Set(reflect.ValueOf(zk.Clone(pick[0].Interface())))
					half(v, 1).Set(reflect.ValueOf(zk.Clone(pick[1].Interface())))
					ok, _ := cx.Quiet(v.Verify)
					// Right if each half is the kind that is wanted, and they are about one x and r.
					t.Eval(1)
					t.NonTrivial(1)
					vals := func(q src, k int) (v, r int64) {
						if k == 0 {
							return q.x - q.b + 57, q.r
						}
						return q.x - q.a, q.r
					}
					var v1, r1, v2, r2 int64
					switch i {
					case 0:
						v1, r1 = vals(s, 0)
						v2, r2 = vals(o, 1)
					case 1:
						v1, r1 = vals(o, 0)
						v2, r2 = vals(s, 1)
					case 2:
						v1, r1 = vals(s, 1)
						v2, r2 = vals(o, 0)
					case 3:
						v1, r1 = vals(s, 0)
						v2, r2 = vals(o, 0)
					}
					good := v1 >= 0 && v1 < 57 && v2 >= 0 && v2 < 57 && r1 == r2 && v1 == v2+s.a-s.b+57
					t.Check(!ok || good, "halves about %d (r=%d) and %d (r=%d) verify together for [%d,%d)", v1, r1, v2, r2, s.a, s.b)
					t.Check(ok || !good || i > 1, "halves about %d and %d do not verify for [%d,%d)", v1, v2, s.a, s.b)
					t.Outcome(fmt.Sprintf("spliced halves: %v", ok))
				}
			}
		})
	}
	// Alterations inside either half.
	for i := 0; i < 2; i++ {
		i := i
		c.Case("halves", fmt.Sprintf("altered half %d", i+1), func(t *mc.T) {
			base := new(ccs08.XCcs08)
			mc.UseTape(mc.NewTape("halves"))
			t.Check(base.Setup(18, 50) == nil, "Setup")
			z := mk(t, base, srcs[0])
			o := mk(t, base, srcs[1])
			n := len(elements(half(z, i).Addr().Interface()))
			for k := 0; k < n; k++ {
				for _, how := range []string{"next", "other", "nil"} {
					v := zk.Clone(z).(*ccs08.XCcs08)
					m := elements(half(v, i).Addr().Interface())[k]
					switch how {
					case "nil":
						m.V.Set(reflect.Zero(m.V.Type()))
					case "other":
						m.V.Set(elements(half(o, i).Addr().Interface())[k].V)
					default:
						switch x := m.V.Interface().(type) {
						case *big.Int:
							m.V.Set(reflect.ValueOf(add(x, 1)))
						case *bn256.G2:
							m.V.Set(reflect.ValueOf(a2(x, g2(zk.B(1)))))
						case *bn256.GT:
							m.V.Set(reflect.ValueOf(aT(x, util.E)))
						}
					}
					ok, _ := cx.Quiet(v.Verify)
					t.Check(!ok, "the range proof verifies with its %s in half %d altered (%s)", m.Path, i+1, how)
					t.Eval(1)
					t.NonTrivial(1)
				}
			}
		})
	}
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		cx.Canonical()
		mc.UseTape(mc.NewTape("set"))
		ps, err := ccs08.SetupSet([]int64{0, 1, 5, 12})
		if err != nil {
			panic(err)
		}
		set := &system{name: "set membership proof", set: true, params: &ps}
		mc.UseTape(mc.NewTape("ul"))
		pu, err := ccs08.SetupUL(3, 2)
		if err != nil {
			panic(err)
		}
		ul := &system{name: "range proof", u: 3, l: 2, params: &pu}
		alter(c, set, 5, 12)
		alter(c, set, 1, 1)
		alter(c, ul, 5, 7)
		// More digits than the base has values.
		mc.UseTape(mc.NewTape("long"))
		pl, err := ccs08.SetupUL(2, 3)
		if err != nil {
			panic(err)
		}
		long := &system{name: "range proof of three bits", u: 2, l: 3, params: &pl}
		alter(c, long, 5, 6)
		forgeries(c, long, zk.B(9), []int64{1, 0, 1}, zk.B(5))
		if c.Thorough {
			alter(c, ul, 0, 8)
			alter(c, ul, 4, 4)
		}
		for _, x := range []*big.Int{zk.B(6), zk.B(-1)} {
			forgeries(c, set, x, []int64{5}, zk.B(5))
		}
		for _, x := range []*big.Int{zk.B(9), zk.B(-1), zk.Pow2(70)} {
			forgeries(c, ul, x, []int64{1, 2}, zk.B(7))
			if !c.Thorough {
				break
			}
		}
		// Sequences of digits that are not of the length of the range.
		for _, ds := range [][]int64{{1}, {1, 2, 1}, {1, 2, 1, 1}, {}} {
			ds := ds
			c.Case("range proof forged", fmt.Sprintf("%d digits", len(ds)), func(t *mc.T) {
				mc.UseTape(mc.NewTape("len"))
				if len(ds) == 0 {
					p := ul.prove(t, 5, zk.B(5), "len")
					for _, f := range []string{"V", "a", "zsig", "zv"} {
						v, _ := zk.Field(p, f)
						v.Set(v.Slice(0, 0))
					}
					t.Check(!ul.verify(p), "a proof without digits verifies")
					return
				}
				for _, h := range []string{"CV", "VC", "C", "V"} {
					x := zk.B(0)
					w := zk.B(1)
					for _, d := range ds {
						x = plus(x, mul(w, zk.B(d)))
						w = mul(w, zk.B(3))
					}
					p := forge(ul, plan{hash: h}, x, ds)
					t.Check(!ul.verify(p), "a proof with %d digits verifies for [0,3^2)", len(ds))
				}
			})
		}
		// Elements of one length changed on their own.
		c.Case("range proof altered", "lengths", func(t *mc.T) {
			p := ul.prove(t, 5, zk.B(5), "len")
			for _, f := range []string{"V", "a", "zsig", "zv"} {
				for n := 0; n < 4; n++ {
					w := zk.Clone(p)
					v, _ := zk.Field(w, f)
					if n == 2 {
						continue
					}
					if n == 3 {
						v.Set(reflect.Append(v, v.Index(0)))
					} else {
						v.Set(v.Slice(0, n))
					}
					t.Check(!ul.verify(w), "a proof with %d of 2 elements in %s verifies", n, f)
					t.Eval(1)
					t.NonTrivial(1)
				}
			}
		})
		// Digits exchanged within one proof.
		c.Case("range proof exchanged", "digits of one proof", func(t *mc.T) {
			p := ul.prove(t, 5, zk.B(5), "dig")
			names := []string{"V", "a", "zsig", "zv"}
			for set := 1; set < 16; set++ {
				w := zk.Clone(p)
				var what []string
				for i, f := range names {
					if set>>uint(i)&1 == 1 {
						v, _ := zk.Field(w, f)
						a, b := v.Index(0).Interface(), v.Index(1).Interface()
						v.Index(0).Set(reflect.ValueOf(b))
						v.Index(1).Set(reflect.ValueOf(a))
						what = append(what, f)
					}
				}
				t.Check(!ul.verify(w), "the proof verifies with the digits exchanged in %s", strings.Join(what, ","))
				t.Eval(1)
				t.NonTrivial(1)
			}
		})
		halves(c)
	})
}
