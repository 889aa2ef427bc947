// C23: proofs hide the secret. In a small group all random tapes are
// enumerated for each secret and the distributions of proofs compared; in the
// real groups every single draw is varied over an alphabet, and its effect on
// the commitments and responses must be that of one blinding.
package main

import (
	"flag"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/ccs08"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"

	"zkrpmc/bpx"
	"zkrpmc/cx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

var tiny = flag.Bool("tiny", false, "small curve")

type proof = bulletproofs.BulletProof

// lengths records how many bytes each read asks for.
func lengths(vals []*big.Int) (*mc.Tape, *[]int) {
	var l []int
	t := bpx.Script(vals)
	f := t.All
	t.All = func(k int, p []byte) { l = append(l, len(p)); f(k, p) }
	return t, &l
}

// values is the alphabet of answers of one draw.
func values(order *big.Int, full bool) []*big.Int {
	out := []*big.Int{zk.B(0), zk.B(1), new(big.Int).Sub(order, zk.B(1)), new(big.Int).Rsh(order, 1), zk.Pow2(uint(order.BitLen() - 2)), zk.Pow2(64), zk.Pow2(128)}
	if full {
		for k := uint(0); k < uint(order.BitLen()-1); k++ {
			out = append(out, zk.Pow2(k))
		}
	}
	return zk.Uniq(out)
}

// over is the alphabet of answers that must not be used.
func over(order *big.Int) []*big.Int {
	var out []*big.Int
	for _, x := range []*big.Int{order, new(big.Int).Add(order, zk.B(5)), new(big.Int).Sub(zk.Pow2(uint(order.BitLen())), zk.B(1))} {
		if x.Cmp(order) >= 0 && x.BitLen() == order.BitLen() {
			out = append(out, x)
		}
	}
	return out
}

func eq(a zk.Pt, b zk.Pt) bool { return bpx.Curve.Eq(a, b) }
func diff(a, b *p256.P256) zk.Pt {
	return bpx.Curve.Add(bpx.Pt(a), bpx.Curve.Neg(bpx.Pt(b)))
}

// role is a draw, the commitment it blinds, and the base it is the exponent of.
type role struct {
	name string
	k    int
	of   func(p *proof) *p256.P256
	base *p256.P256
}

func rolesOf(r bpx.Roles, par bulletproofs.BulletProofSetupParams) []role {
	out := []role{
		{"the blinding of V", r.Gamma, func(p *proof) *p256.P256 { return p.V }, par.H},
		{"the blinding of A", r.Alpha, func(p *proof) *p256.P256 { return p.A }, par.H},
		{"the blinding of S", r.Rho, func(p *proof) *p256.P256 { return p.S }, par.H},
		{"the blinding of T1", r.Tau1, func(p *proof) *p256.P256 { return p.T1 }, par.H},
		{"the blinding of T2", r.Tau2, func(p *proof) *p256.P256 { return p.T2 }, par.H},
	}
	for i := range r.SL {
		out = append(out, role{fmt.Sprintf("sL[%d]", i), r.SL[i], func(p *proof) *p256.P256 { return p.S }, par.Gg[i]},
			role{fmt.Sprintf("sR[%d]", i), r.SR[i], func(p *proof) *p256.P256 { return p.S }, par.Hh[i]})
	}
	return out
}

// uniform checks that the draw of a role takes every value as it is.
func uniform(t *mc.T, x *big.Int, par bulletproofs.BulletProofSetupParams, vals []*big.Int, base *proof, r role, full bool) {
	order := bpx.Curve.N
	for _, v := range values(order, full) {
		p, err := bpx.Run(x, par, bpx.With(vals, r.k, v))
		t.Check(err == nil, "Prove fails when %s is %v: %v", r.name, v, err)
		want := bpx.Curve.Mul(bpx.Pt(r.base), new(big.Int).Sub(v, vals[r.k]))
		t.Check(eq(diff(r.of(&p), r.of(base)), want), "the random answer %v is not used as it is for %s", v, r.name)
		t.Eval(1)
		t.NonTrivial(1)
	}
	for _, v := range over(order) {
		// The answer is refused, and the next one taken.
		w := append(append(append([]*big.Int{}, vals[:r.k]...), v), vals[r.k:]...)
		p, err := bpx.Run(x, par, w)
		t.Check(err == nil, "Prove: %v", err)
		t.Check(zk.Dump(&p) == zk.Dump(base), "a random answer beyond the order (%v) is used for %s", v, r.name)
		t.Eval(1)
		t.NonTrivial(1)
	}
}

// secrets of a prover must not be in a proof, as they are, negated or inverted.
func noSecrets(t *mc.T, what string, p interface{}, order *big.Int, secrets map[string]*big.Int) {
	bad := map[string]string{}
	for n, s := range secrets {
		m := new(big.Int).Mod(s, order)
		bad[m.String()] = n
		bad[new(big.Int).Mod(new(big.Int).Neg(m), order).String()] = "minus " + n
		bad[s.String()] = n
		if i := new(big.Int).ModInverse(m, order); i != nil {
			bad[i.String()] = "the inverse of " + n
		}
	}
	typ := reflect.TypeOf((*big.Int)(nil))
	for _, l := range zk.FindUntil(p, typ, reflect.TypeOf((*bn256.G1)(nil)), reflect.TypeOf((*bn256.G2)(nil)), reflect.TypeOf((*bn256.GT)(nil)), reflect.TypeOf((*p256.P256)(nil))) {
		if l.V.IsNil() {
			continue
		}
		v := l.V.Interface().(*big.Int)
		n, is := bad[v.String()]
		if !is {
			n, is = bad[new(big.Int).Mod(v, order).String()]
		}
		t.Check(!is, "%s of %s is %s", l.Path, what, n)
		t.Eval(1)
	}
	t.NonTrivial(1)
}

func rangeProofs(c *mc.Ctx) {
	for _, n := range bpx.Ns {
		n := n
		x := new(big.Int).Mod(zk.B(0x5b3a17c9), zk.Pow2(n))
		par := bpx.Params(n)
		vals := bpx.Draws(x, par, fmt.Sprint("c23", n))
		if vals == nil {
			c.Case("range proofs", fmt.Sprint(n), func(t *mc.T) { t.Failf("Prove fails for N=%d", n) })
			continue
		}
		tape, lens := lengths(vals)
		mc.UseTape(tape)
		bulletproofs.Prove(x, par)
		exact := true
		for _, l := range *lens {
			exact = exact && l == 32
		}
		var roles bpx.Roles
		bad := ""
		if exact {
			roles, bad = bpx.FindRoles(x, par, vals)
		}
		c.Case("range proofs", fmt.Sprintf("roles of the draws N=%d", n), func(t *mc.T) {
			for k, l := range *lens {
				t.Check(l >= 32, "draw %d of a proof has %d bytes only", k, l)
			}
			t.Check(bad == "", "%s (N=%d)", bad, n)
			t.Eval(len(vals))
			t.NonTrivial(len(vals))
			t.Sample("N=%d: %d draws, each the exponent of one base in one commitment", n, len(vals))
		})
		// Other secrets: the draws have the same roles whatever the secret is.
		others := []*big.Int{zk.B(0), new(big.Int).Sub(zk.Pow2(n), zk.B(1))}
		if n <= 8 {
			others = append(others, new(big.Int).Div(zk.Pow2(n), zk.B(3)), new(big.Int).Rsh(zk.Pow2(n), 1), zk.B(1))
		}
		for _, x := range zk.Uniq(others) {
			x := x
			c.Case("range proofs", fmt.Sprintf("roles of the draws N=%d x=%v", n, x), func(t *mc.T) {
				vals := bpx.Draws(x, par, fmt.Sprint("c23", n))
				if !exact {
					t.Skipf("draws are not of 32 bytes")
				}
				t.Check(vals != nil, "Prove(%v) fails for N=%d", x, n)
				_, bad := bpx.FindRoles(x, par, vals)
				t.Check(bad == "", "%s (N=%d, x=%v)", bad, n, x)
				t.Eval(len(vals))
				t.NonTrivial(len(vals))
			})
		}
		if bad != "" {
			continue
		}
		if !exact {
			c.Skip("draws are not of 32 bytes: exponents are not compared with answers")
			continue
		}
		base, err := bpx.Run(x, par, vals)
		if err != nil {
			panic(err)
		}
		for i, r := range rolesOf(roles, par) {
			i, r := i, r
			if n > 8 && i > 4 && !c.Thorough && i%8 != 5 {
				continue
			}
			c.Case("range proofs", fmt.Sprintf("values of %s N=%d", r.name, n), func(t *mc.T) {
				uniform(t, x, par, vals, &base, r, n <= 2 || c.Thorough && (n <= 8 || i < 6))
			})
		}
		c.Case("range proofs", fmt.Sprintf("no prover values N=%d", n), func(t *mc.T) {
			for s := 0; s < 3; s++ {
				vals := bpx.Draws(x, par, fmt.Sprint("c23", n, s))
				p, err := bpx.Run(x, par, vals)
				t.Check(err == nil, "%v", err)
				sec := map[string]*big.Int{}
				for k, v := range vals {
					sec[fmt.Sprintf("draw %d", k)] = v
				}
				if x.BitLen() > 8 {
					sec["the secret"] = x
				}
				noSecrets(t, "the proof", &p, bpx.Curve.N, sec)
				// Nor a commitment without its blinding.
				var ps []*p256.P256
				for _, l := range zk.Find(&p, reflect.TypeOf((*p256.P256)(nil))) {
					if !strings.HasPrefix(l.Path, ".Params.") && !l.V.IsNil() {
						ps = append(ps, l.V.Interface().(*p256.P256))
					}
				}
				G, H := bpx.Curve.G(), bpx.Pt(par.H)
				for _, q := range ps {
					if q.IsZero() {
						continue
					}
					t.Check(x.BitLen() < 8 || !eq(bpx.Pt(q), bpx.Curve.Mul(G, x)), "the proof has g^secret")
					for k, v := range vals {
						if k < 6 || n < 8 {
							t.Check(!eq(bpx.Pt(q), bpx.Curve.Mul(G, v)) && !eq(bpx.Pt(q), bpx.Curve.Mul(H, v)), "the proof has a base to the power of draw %d", k)
						}
					}
				}
			}
		})
	}
}

// generic checks the draws of a generic proof.
func generic(c *mc.Ctx) {
	params, err := bulletproofs.SetupGeneric(-7, 200)
	if err != nil {
		panic(err)
	}
	prove := func(vals []*big.Int) (p bulletproofs.ProofBPRP, err error) {
		mc.UseTape(bpx.Script(vals))
		return bulletproofs.ProveGeneric(zk.B(101), params)
	}
	tape := mc.NewTape("generic")
	mc.UseTape(tape)
	if _, err := bulletproofs.ProveGeneric(zk.B(101), params); err != nil {
		panic(err)
	}
	n := tape.Reads()
	var vals []*big.Int
	for k := 0; k < n; k++ {
		b := make([]byte, 32)
		mc.NewTape("generic").Default(k, b)
		vals = append(vals, new(big.Int).SetBytes(b))
	}
	tp, lens := lengths(vals)
	mc.UseTape(tp)
	bulletproofs.ProveGeneric(zk.B(101), params)
	for _, l := range *lens {
		if l > 32 {
			c.Skip("draws of a generic proof are not of 32 bytes")
			return
		}
	}
	h := params.BP1.H
	// What a draw does, as text.
	effect := func(base, p *bulletproofs.ProofBPRP) string {
		var out []string
		late := false
		for i, pr := range [][2]*proof{{&base.P1, &p.P1}, {&base.P2, &p.P2}} {
			e := []struct {
				n    string
				a, b *p256.P256
			}{{"V", pr[1].V, pr[0].V}, {"A", pr[1].A, pr[0].A}, {"S", pr[1].S, pr[0].S}}
			first := false
			for _, x := range e {
				d := diff(x.a, x.b)
				if d.X == nil {
					continue
				}
				first = true
				what := "?"
				if eq(d, bpx.Pt(h)) {
					what = "h"
				} else if x.n == "S" {
					for j := range params.BP1.Gg {
						if eq(d, bpx.Pt(params.BP1.Gg[j])) {
							what = fmt.Sprintf("g%d", j)
						} else if eq(d, bpx.Pt(params.BP1.Hh[j])) {
							what = fmt.Sprintf("h%d", j)
						}
					}
				}
				out = append(out, fmt.Sprintf("%s%d:%s", x.n, i+1, what))
			}
			if !first {
				for _, x := range []struct {
					n    string
					a, b *p256.P256
				}{{"T1", pr[1].T1, pr[0].T1}, {"T2", pr[1].T2, pr[0].T2}} {
					if d := diff(x.a, x.b); d.X != nil {
						what := "?"
						if eq(d, bpx.Pt(h)) {
							what = "h"
						}
						out = append(out, fmt.Sprintf("%s.%d:%s", x.n, i+1, what))
						late = true
					}
				}
			}
		}
		_ = late
		return strings.Join(out, " ")
	}
	const parts = 24
	c.Case("generic proofs", "number of draws", func(t *mc.T) {
		// V is shared; the rest is there twice.
		t.Check(n >= 1+2*(4+2*32), "a generic proof draws %d numbers only", n)
	})
	for part := 0; part < parts; part++ {
		part := part
		c.Case("generic proofs", fmt.Sprintf("draws %d mod %d", part, parts), func(t *mc.T) {
			base, err := prove(vals)
			t.Check(err == nil, "%v", err)
			for k := part; k < n; k += parts {
				p, err := prove(bpx.Plus(vals, k, zk.B(1)))
				t.Check(err == nil, "%v", err)
				e := effect(&base, &p)
				ok := e == "V1:h V2:h" || !strings.Contains(e, " ") && e != "" && !strings.Contains(e, "?")
				t.Check(ok, "draw %d of a generic proof changes: %s", k, e)
				t.Outcome(strings.TrimRight(e, "0123456789"))
				t.Eval(1)
				t.NonTrivial(1)
			}
		})
	}
	c.Case("generic proofs", "every commitment is blinded", func(t *mc.T) {
		// One draw each: V, and A, S, T1, T2 of both halves. Ends of the tape have them.
		base, _ := prove(vals)
		seen := map[string]int{}
		for k := 0; k < n; k++ {
			if k > 2 && k < n-3 && (k < n/2-4 || k > n/2+3) && (k-2)%32 > 1 {
				continue
			}
			p, _ := prove(bpx.Plus(vals, k, zk.B(1)))
			seen[effect(&base, &p)]++
		}
		for _, e := range []string{"V1:h V2:h", "A1:h", "S1:h", "T1.1:h", "T2.1:h", "A2:h", "S2:h", "T1.2:h", "T2.2:h"} {
			if seen[e] == 0 {
				// The draw is somewhere else: look at all of them.
				for k := 0; k < n; k++ {
					p, _ := prove(bpx.Plus(vals, k, zk.B(1)))
					seen[effect(&base, &p)]++
				}
			}
			t.Check(seen[e] > 0, "no draw of its own does %s in a generic proof", e)
		}
		t.Eval(9)
		t.NonTrivial(9)
	})
}

// sequences checks that each of many operations has randomness of its own.
func sequences(c *mc.Ctx) {
	mc.UseTape(mc.NewTape("seqparams"))
	ps, err := ccs08.SetupSet([]int64{1, 5, 12})
	if err != nil {
		panic(err)
	}
	pu, err := ccs08.SetupUL(3, 1)
	if err != nil {
		panic(err)
	}
	// An operation gives its commitments as texts.
	type op struct {
		name string
		do   func() ([]string, error)
	}
	pts := func(ps ...*p256.P256) (out []string) {
		for _, p := range ps {
			out = append(out, p.String())
		}
		return
	}
	bp := func(n uint, x int64) op {
		return op{fmt.Sprintf("Prove(%d), N=%d", x, n), func() ([]string, error) {
			p, err := bulletproofs.Prove(zk.B(x), bpx.Params(n))
			return pts(p.V, p.A, p.S, p.T1, p.T2), err
		}}
	}
	ops := []op{bp(1, 1), bp(2, 3), bp(1, 1), bp(4, 9),
		{"ProveSet(5)", func() ([]string, error) {
			p, err := cx.ProveSet(5, zk.B(9), &ps)
			if err != nil {
				return nil, err
			}
			return []string{cx.Enc(cx.Get(p, "V")), cx.Enc(cx.Get(p, "D")), cx.Enc(cx.Get(p, "a"))}, nil
		}},
		{"ProveUL(2)", func() ([]string, error) {
			p, err := cx.ProveUL(zk.B(2), zk.B(9), &pu)
			if err != nil {
				return nil, err
			}
			return []string{cx.Enc(cx.Get(p, "V").([]*bn256.G2)[0]), cx.Enc(cx.Get(p, "D")), cx.Enc(cx.Get(p, "a").([]*bn256.GT)[0])}, nil
		}},
		{"SetupSet", func() ([]string, error) {
			p, err := ccs08.SetupSet([]int64{7})
			return []string{cx.Enc(cx.Get(&p, "kp", "Pubk"))}, err
		}}}
	run := func(t *mc.T, seq []int) {
		tape := mc.NewTape("sequence")
		mc.UseTape(tape)
		seen := map[string]string{}
		for i, k := range seq {
			out, err := ops[k].do()
			t.Check(err == nil, "%s: %v", ops[k].name, err)
			for j, s := range out {
				if w, ok := seen[s]; ok {
					t.Failf("operation %d (%s) has the same random element %d as %s", i, ops[k].name, j, w)
				}
				seen[s] = fmt.Sprintf("operation %d (%s), element %d", i, ops[k].name, j)
			}
			t.Eval(1)
		}
		t.NonTrivial(1)
		t.Transitions(len(seq))
	}
	// All sequences of three operations.
	for a := range ops {
		a := a
		c.Case("sequences", fmt.Sprintf("three operations from %s", ops[a].name), func(t *mc.T) {
			for b := range ops {
				for d := range ops {
					if !c.Thorough && (a > 4 && b > 4 && d > 4 || (a+b+d)%2 == 1 && a != d) {
						continue
					}
					run(t, []int{a, b, d})
				}
			}
		})
	}
	// Long runs of one operation.
	for a := range ops {
		a := a
		c.Case("sequences", fmt.Sprintf("many times %s", ops[a].name), func(t *mc.T) {
			k := 70
			if a > 3 {
				k = 34
			}
			if c.Thorough {
				k *= 8
			}
			seq := make([]int, k)
			for i := range seq {
				seq[i] = a
			}
			run(t, seq)
		})
	}
	// A proof depends on no earlier draw.
	for _, a := range []int{0, 1, 4, 5} {
		a := a
		c.Case("sequences", fmt.Sprintf("earlier draws and %s", ops[a].name), func(t *mc.T) {
			for b := range ops {
				count := mc.NewTape("sequence")
				mc.UseTape(count)
				_, err := ops[b].do()
				t.Check(err == nil, "%v", err)
				m := count.Reads()
				second := ""
				for k := -1; k < m; k++ {
					tape := mc.NewTape("sequence")
					if k >= 0 {
						tape.Answer = map[int][]byte{k: zk.Pow2(77).Bytes()}
					}
					mc.UseTape(tape)
					ops[b].do()
					out, err := ops[a].do()
					t.Check(err == nil, "%v", err)
					if k < 0 {
						second = fmt.Sprint(out)
					}
					t.Check(fmt.Sprint(out) == second, "draw %d of %s has an effect on %s after it", k, ops[b].name, ops[a].name)
					t.Eval(1)
					t.NonTrivial(1)
				}
			}
		})
	}
}

// ccs checks the draws of CCS08 proofs. prove gives the l-digit proofs.
// With light, only the roles are checked, not the values.
func ccs(c *mc.Ctx, name string, digits []int64, bases []*big.Int, H *bn256.G2, sk *big.Int, full, light bool, prove func(r *big.Int) (interface{}, error)) {
	l := len(digits)
	r := zk.Hex("77777777abcdef0123456789fedcba9876543210")
	run := func(vals []*big.Int) (p interface{}, err error) {
		mc.UseTape(bpx.Script(vals))
		return prove(r)
	}
	tape := mc.NewTape(name)
	mc.UseTape(tape)
	prove(r)
	var vals []*big.Int
	for k := 0; k < tape.Reads(); k++ {
		b := make([]byte, 32)
		mc.NewTape(name).Default(k, b)
		vals = append(vals, new(big.Int).SetBytes(b))
	}
	list := func(p interface{}, f string) reflect.Value {
		v := reflect.ValueOf(cx.Get(p, f))
		if v.Kind() == reflect.Slice {
			return v
		}
		s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 0, 1)
		return reflect.Append(s, v)
	}
	V := func(p interface{}, i int) *bn256.G2 { return list(p, "V").Index(i).Interface().(*bn256.G2) }
	A := func(p interface{}, i int) *bn256.GT { return list(p, "a").Index(i).Interface().(*bn256.GT) }
	Z := func(p interface{}, f string, i int) *big.Int { return list(p, f).Index(i).Interface().(*big.Int) }
	D := func(p interface{}) *bn256.G2 { return cx.Get(p, "D").(*bn256.G2) }
	order := zk.BnN
	g2 := func(k *big.Int) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(new(big.Int).Mod(k, order)) }
	plus := func(a, b *bn256.G2) string { return cx.Enc(new(bn256.G2).Add(a, b)) }
	powT := func(k *big.Int) *bn256.GT { return new(bn256.GT).ScalarMult(util.E, new(big.Int).Mod(k, order)) }
	plusT := func(a, b *bn256.GT) string { return cx.Enc(new(bn256.GT).Add(a, b)) }
	// base^digits: the value by which s counts in D; the signature's exponent.
	sig := func(i int) *big.Int {
		return new(big.Int).ModInverse(new(big.Int).Add(zk.B(digits[i]), sk), order)
	}
	inc := func(k int, v *big.Int) []*big.Int {
		w := append([]*big.Int(nil), vals...)
		w[k] = v
		return w
	}
	type rol struct {
		kind string
		i    int
	}
	roles := map[int]rol{}
	c.Case("CCS08", name, func(t *mc.T) {
		tp, lens := lengths(vals)
		mc.UseTape(tp)
		base, err := prove(r)
		t.Check(err == nil, "%v", err)
		for k, x := range *lens {
			t.Check(x >= 32, "draw %d has %d bytes only", k, x)
			if x > 32 {
				t.Skipf("draws are not of 32 bytes")
			}
		}
		have := map[string]bool{}
		d := zk.B(1)
		for k := range vals {
			p, err := run(inc(k, new(big.Int).Add(vals[k], d)))
			t.Check(err == nil, "%v", err)
			e := []string{}
			if cx.Enc(D(p)) != cx.Enc(D(base)) {
				e = append(e, "D")
			}
			for i := 0; i < l; i++ {
				if cx.Enc(V(p, i)) != cx.Enc(V(base, i)) {
					e = append(e, fmt.Sprintf("V%d", i))
				}
				if cx.Enc(A(p, i)) != cx.Enc(A(base, i)) {
					e = append(e, fmt.Sprintf("a%d", i))
				}
			}
			got := strings.Join(e, " ")
			hit := rol{}
			if got == "D" {
				hit = rol{"m", 0}
			}
			for i := 0; i < l; i++ {
				switch got {
				case fmt.Sprintf("V%d a%d", i, i):
					hit = rol{"v", i}
				case fmt.Sprintf("D a%d", i):
					hit = rol{"s", i}
				case fmt.Sprintf("a%d", i):
					hit = rol{"t", i}
				}
			}
			t.Check(hit.kind != "", "draw %d changes %q: it is not the blinding of one element", k, got)
			key := fmt.Sprint(hit)
			t.Check(!have[key], "two draws do the same (%v)", hit)
			have[key] = true
			roles[k] = hit
			t.Eval(1)
			t.NonTrivial(1)
		}
		t.Check(len(have) == 1+3*l, "%d draws with roles of their own instead of %d", len(have), 1+3*l)
		// The responses are the secrets, hidden by these draws.
		at := func(kind string, i int) *big.Int {
			for k, h := range roles {
				if h.kind == kind && h.i == i {
					return vals[k]
				}
			}
			return zk.B(0)
		}
		ch := cx.Get(base, "c").(*big.Int)
		ck := func(what string, z, blind, secret *big.Int) {
			w := new(big.Int).Mul(secret, ch)
			w.Add(w, z)
			w.Sub(w, blind)
			t.Check(w.Mod(w, order).Sign() == 0, "the response %s is not hidden by the draw of its commitment", what)
			t.Eval(1)
			t.NonTrivial(1)
		}
		ck("zr", cx.Get(base, "zr").(*big.Int), at("m", 0), r)
		for i := 0; i < l; i++ {
			ck(fmt.Sprintf("zsig[%d]", i), Z(base, "zsig", i), at("s", i), zk.B(digits[i]))
			ck(fmt.Sprintf("zv[%d]", i), Z(base, "zv", i), at("t", i), at("v", i))
		}
		sec := map[string]*big.Int{"the randomness of the commitment": r, "the signing key": sk}
		for k, v := range vals {
			if h := roles[k]; h.kind == "s" && digits[h.i] == 0 {
				continue // the response is s - c*0
			}
			sec[fmt.Sprintf("draw %d", k)] = v
		}
		noSecrets(t, "the proof", base, order, sec)
		if light {
			return
		}
		// Every answer is used as it is.
		for k, h := range roles {
			for _, v := range values(order, full) {
				if v.Sign() == 0 && h.kind == "v" {
					continue
				}
				w := inc(k, v)
				p, err := run(w)
				t.Check(err == nil, "%v", err)
				dv := new(big.Int).Sub(v, vals[k])
				ok := false
				switch h.kind {
				case "m":
					ok = cx.Enc(D(p)) == plus(D(base), new(bn256.G2).ScalarMult(H, new(big.Int).Mod(dv, order)))
				case "s":
					ok = cx.Enc(D(p)) == plus(D(base), g2(new(big.Int).Mul(dv, bases[h.i])))
				case "v":
					ok = cx.Enc(V(p, h.i)) == cx.Enc(g2(new(big.Int).Mul(v, sig(h.i))))
				case "t":
					ok = cx.Enc(A(p, h.i)) == plusT(A(base, h.i), powT(dv))
				}
				t.Check(ok, "the random answer %v is not used as it is for %s of digit %d", v, h.kind, h.i)
				t.Eval(1)
				t.NonTrivial(1)
			}
			for _, v := range over(order) {
				w := append(append(append([]*big.Int{}, vals[:k]...), v), vals[k:]...)
				p, err := run(w)
				t.Check(err == nil, "%v", err)
				t.Check(zk.Dump(p) == zk.Dump(base), "a random answer beyond the order is used for %s of digit %d", h.kind, h.i)
				t.Eval(1)
				t.NonTrivial(1)
			}
		}
		t.Sample("%s: roles %v", name, roles)
	})
}

func ccsAll(c *mc.Ctx) {
	sk := zk.Hex("1234567812345678123456781234567812345678")
	key := func() {
		tape := mc.NewTape("setup")
		tape.Answer = map[int][]byte{0: sk.Bytes()}
		mc.UseTape(tape)
	}
	key()
	ps, err := ccs08.SetupSet([]int64{100, 5, -12, 1 << 40})
	if err != nil {
		panic(err)
	}
	H := cx.Get(&ps, "H").(*bn256.G2)
	for _, x := range []int64{100, -12, 1 << 40} {
		x := x
		ccs(c, fmt.Sprintf("set membership proof of %d", x), []int64{x}, []*big.Int{zk.B(1)}, H, sk, c.Thorough || x == -12, false, func(r *big.Int) (interface{}, error) { return cx.ProveSet(x, r, &ps) })
	}
	for i, q := range [][]int64{{3, 1, 2}, {3, 2, 7}, {57, 2, 3000}, {2, 3, 5}, {4, 2, -1}, {10, 4, 1100}} {
		key()
		pu, err := ccs08.SetupUL(q[0], q[1])
		if err != nil {
			panic(err)
		}
		// All secrets of the small ranges, for the roles of the draws; one with all values.
		max := int64(1)
		for k := int64(0); k < q[1]; k++ {
			max *= q[0]
		}
		xs := []int64{q[2]}
		if max <= 9 || i == 4 && c.Thorough {
			xs = nil
			for x := int64(0); x < max; x++ {
				xs = append(xs, x)
			}
		} else if i == 4 {
			xs = []int64{5, 12, 15}
		}
		for _, x := range xs {
			x := x
			var digits []int64
			var bases []*big.Int
			w := zk.B(1)
			for i, y := int64(0), x; i < q[1]; i++ {
				digits = append(digits, y%q[0])
				bases = append(bases, new(big.Int).Set(w))
				w.Mul(w, zk.B(q[0]))
				y /= q[0]
			}
			light := x != q[2] || i >= 3 && !c.Thorough
			ccs(c, fmt.Sprintf("proof of %d in [0,%d^%d)", x, q[0], q[1]), digits, bases, H, sk, c.Thorough, light, func(r *big.Int) (interface{}, error) { return cx.ProveUL(zk.B(x), r, &pu) })
		}
		c.Case("public parameters", fmt.Sprintf("SetupUL(%d,%d)", q[0], q[1]), func(t *mc.T) {
			noSecrets(t, "the parameters", &pu, zk.BnN, map[string]*big.Int{"the signing key": sk})
		})
	}
	c.Case("public parameters", "SetupSet", func(t *mc.T) {
		noSecrets(t, "the parameters", &ps, zk.BnN, map[string]*big.Int{"the signing key": sk})
	})
	c.Case("public parameters", "Setup", func(t *mc.T) {
		key()
		z := new(ccs08.XCcs08)
		t.Check(z.Setup(18, 50) == nil, "Setup")
		noSecrets(t, "the parameters", z, zk.BnN, map[string]*big.Int{"the signing key": sk})
	})
	// The two proofs of a range proof for [a,b) share no draw.
	for part := 0; part < 2; part++ {
		part := part
		c.Case("CCS08", fmt.Sprintf("proof of 3000 in [18,3200) part %d", part), func(t *mc.T) {
			key()
			z := new(ccs08.XCcs08)
			t.Check(z.Setup(18, 3200) == nil, "Setup")
			prove := func(tape *mc.Tape) *ccs08.XCcs08 {
				w := zk.Clone(z).(*ccs08.XCcs08)
				ccs08.XSet(w, zk.B(3000), zk.Hex("feedbeef00feedbeef"))
				mc.UseTape(tape)
				t.Check(w.Prove() == nil, "Prove")
				return w
			}
			tape := mc.NewTape("two")
			base := prove(tape)
			n := tape.Reads()
			parts := func(w *ccs08.XCcs08) (out []string) {
				po, ok := zk.Field(w, "proof_out")
				t.Check(ok, "no proof")
				for i := 0; i < po.NumField(); i++ {
					f, _ := zk.Field(po.Addr().Interface(), po.Type().Field(i).Name)
					out = append(out, zk.Dump(f.Addr().Interface()))
				}
				return
			}
			b := parts(base)
			sec := map[string]*big.Int{"the randomness of the commitment": zk.Hex("feedbeef00feedbeef"), "the secret": zk.B(3000)}
			for k := 0; k < n; k++ {
				d := make([]byte, 32)
				mc.NewTape("two").Default(k, d)
				sec[fmt.Sprintf("draw %d", k)] = new(big.Int).SetBytes(d)
			}
			po, _ := zk.Field(base, "proof_out")
			noSecrets(t, "the proof", po.Addr().Interface(), zk.BnN, sec)
			for k := part; k < n; k += 2 {
				tape := mc.NewTape("two")
				tape.Answer = map[int][]byte{k: zk.Pow2(99).Bytes()}
				p := parts(prove(tape))
				ch := 0
				for i := range p {
					if p[i] != b[i] {
						ch++
					}
				}
				t.Check(ch == 1, "draw %d changes %d of the %d parts of the proof", k, ch, len(p))
				t.Eval(1)
				t.NonTrivial(1)
			}
		})
	}
}

// enumerate compares the distributions of proofs of all secrets over all
// random tapes in a group of order 7.
func enumerate(c *mc.Ctx, n uint) {
	q := int64(7)
	par := bpx.Params(n)
	zero := zk.B(0)
	// In a group this small some tapes lead to a challenge of zero, and to no proof.
	const tapes = 64
	script := func(i, n int) []*big.Int {
		tape := mc.NewTape(fmt.Sprint("base", i))
		w := make([]*big.Int, n)
		for k := range w {
			b := make([]byte, 32)
			tape.Default(k, b)
			w[k] = new(big.Int).Mod(new(big.Int).SetBytes(b), zk.B(q))
		}
		return w
	}
	draws := 0
	for i := 0; i < tapes; i++ {
		tape := bpx.Script(script(i, 100))
		mc.UseTape(tape)
		func() {
			defer func() { recover() }()
			bulletproofs.Prove(zero, par)
		}()
		if tape.Reads() > draws {
			draws = tape.Reads()
		}
	}
	base := func(i int) []*big.Int { return script(i, draws) }
	text := func(p *p256.P256) string {
		q := bpx.Pt(p)
		if q.X == nil {
			return "inf "
		}
		return fmt.Sprintf("(%v,%v) ", q.X, q.Y)
	}
	// The draw that V depends on.
	gamma := -1
	for i := 0; i < tapes; i++ {
		vals := base(i)
		v0, err := bpx.Run(zero, par, vals)
		if err != nil {
			continue
		}
		for k := range vals {
			p, err := bpx.Run(zero, par, bpx.With(vals, k, zk.B((vals[k].Int64()+1)%q)))
			if err == nil && text(p.V) != text(v0.V) {
				gamma = k
			}
		}
	}
	if gamma < 0 {
		c.Case("all tapes", "blinding", func(t *mc.T) { t.Failf("V has no blinding") })
		return
	}
	first := func(p *proof) string {
		return text(p.V) + text(p.A) + text(p.S) + text(p.T1) + text(p.T2)
	}
	// For each value of V, every secret has one gamma: the tapes of one case are all with that V.
	vOf := func(x *big.Int, g int64) string {
		for i := 0; i < tapes; i++ {
			if p, err := bpx.Run(x, par, bpx.With(base(i), gamma, zk.B(g))); err == nil {
				return text(p.V)
			}
		}
		return "?"
	}
	var allV []string
	for g := int64(0); g < q; g++ {
		allV = append(allV, vOf(zero, g))
	}
	secrets := []*big.Int{}
	for x := int64(0); x < int64(1)<<n; x++ {
		secrets = append(secrets, zk.B(x))
	}
	for vi, V := range allV {
		vi, V := vi, V
		if V == "inf " || V == "?" {
			// The neutral element has more than one encoding in this library, and
			// the challenges depend on it: it does not occur in the real group.
			continue
		}
		c.Case(fmt.Sprintf("all tapes N=%d", n), fmt.Sprintf("V %d", vi), func(t *mc.T) {
			type table map[string]map[string]int32 // first message -> rest -> count
			tabs := make([]table, len(secrets))
			for si, x := range secrets {
				g := int64(-1)
				for k := int64(0); k < q; k++ {
					if vOf(x, k) == V {
						t.Check(g < 0, "two blindings give the same V")
						g = k
					}
				}
				t.Check(g >= 0, "V does not take every value for the secret %v", x)
				tab := table{}
				w := make([]*big.Int, draws)
				idx := make([]int64, draws)
				var rec func(k int)
				small := make([]*big.Int, q)
				for i := range small {
					small[i] = zk.B(int64(i))
				}
				rec = func(k int) {
					if k == draws {
						p, err := bpx.Run(x, par, w)
						f, rest := "", ""
						if err != nil {
							f, rest = "error", "error"
						} else {
							f = first(&p)
							rest = fmt.Sprint(p.Taux, p.Mu, p.Tprime, p.Commit, p.InnerProductProof.Ls, p.InnerProductProof.Rs, p.InnerProductProof.A, p.InnerProductProof.B, p.InnerProductProof.U, p.InnerProductProof.P)
							rest += extra(&p)
						}
						if strings.Contains(f, "inf") {
							t.Eval(1)
							return
						}
						if tab[f] == nil {
							tab[f] = map[string]int32{}
						}
						tab[f][rest]++
						t.Eval(1)
						t.NonTrivial(1)
						return
					}
					if k == gamma {
						w[k] = small[g]
						rec(k + 1)
						return
					}
					for i := int64(0); i < q; i++ {
						idx[k] = i
						w[k] = small[i]
						rec(k + 1)
					}
				}
				rec(0)
				tabs[si] = tab
			}
			// First messages are equally likely; the rest too, except where a challenge is
			// zero, which happens for a seventh of the first messages in this group.
			sum := func(m map[string]int32) (s int32) {
				for _, c := range m {
					s += c
				}
				return
			}
			var keys []string
			for f := range tabs[0] {
				keys = append(keys, f)
			}
			sort.Strings(keys)
			for si := 1; si < len(tabs); si++ {
				t.Check(len(tabs[si]) == len(tabs[0]), "the commitments take %d values for the secret %v and %d for 0", len(tabs[si]), secrets[si], len(tabs[0]))
				differ := 0
				for _, f := range keys {
					a, b := tabs[0][f], tabs[si][f]
					t.Check(sum(a) == sum(b), "the commitments %s are %d times as likely for the secret %v, and %d for 0", f, sum(b), secrets[si], sum(a))
					same := len(a) == len(b)
					for r, n := range a {
						if b[r] != n {
							same = false
						}
					}
					if !same {
						differ++
					}
				}
				t.Outcome(fmt.Sprintf("responses differ for %d%% of the commitments", differ*100/len(keys)))
				t.Check(differ*100 <= len(keys)*35, "for %d of %d commitments the responses are distributed differently for the secrets 0 and %v", differ, len(keys), secrets[si])
			}
			t.Sample("V=%s: %d commitments, each with the same distribution of responses", V, len(keys))
		})
	}
}

// extra is everything else in the proof that is not a parameter.
func extra(p *proof) string {
	s := ""
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		switch n := v.Type().Field(i).Name; n {
		case "V", "A", "S", "T1", "T2", "Taux", "Mu", "Tprime", "Commit", "InnerProductProof", "Params":
		default:
			f, _ := zk.Field(p, n)
			s += n + zk.Dump(f.Interface())
		}
	}
	return s
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		c.Dynamic()
		cx.Canonical()
		if *tiny {
			bpx.UseTiny(13, 7)
			enumerate(c, 1)
			if c.Thorough {
				enumerate(c, 2)
			}
			return
		}
		ccsAll(c)
		rangeProofs(c)
		generic(c)
		sequences(c)
	})
}
