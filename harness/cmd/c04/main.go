// C04: no alteration, exchange or forgery of a range proof verifies.
package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"

	"zkrpmc/bpx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

type proof = bulletproofs.BulletProof

var pointType = reflect.TypeOf((*p256.P256)(nil))

func cp(p *proof) *proof { return zk.Clone(p).(*proof) }

// rejected requires that p does not verify.
func rejected(t *mc.T, p *proof, what string, a ...interface{}) {
	t.Eval(1)
	ok, _, pan := bpx.Verify(p)
	t.Check(!ok, "%s: it still verifies", fmt.Sprintf(what, a...))
	if pan != "" {
		t.Outcome("Verify panics")
		return
	}
	t.NonTrivial(1)
}

func scalars(v *big.Int, n uint) map[string]*big.Int {
	o := zk.SecpN
	m := map[string]*big.Int{
		"+1": new(big.Int).Add(v, zk.B(1)), "-1": new(big.Int).Sub(v, zk.B(1)), "0": zk.B(0), "1": zk.B(1),
		"negated": new(big.Int).Mod(new(big.Int).Neg(v), o), "doubled": new(big.Int).Mod(new(big.Int).Lsh(v, 1), o),
		"+2^128": new(big.Int).Mod(new(big.Int).Add(v, zk.Pow2(128)), o), "-2^128": new(big.Int).Mod(new(big.Int).Sub(v, zk.Pow2(128)), o),
		"flip top bit": new(big.Int).Xor(v, zk.Pow2(250)), "low 64 bits": new(big.Int).And(v, new(big.Int).Sub(zk.Pow2(64), zk.B(1))),
		"order-1": new(big.Int).Sub(o, zk.B(1)),
	}
	return m
}

func order(m interface{}) []string {
	var ks []string
	for _, k := range reflect.ValueOf(m).MapKeys() {
		ks = append(ks, k.String())
	}
	return sortStr(ks)
}

func sortStr(s []string) []string {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
	return s
}

func points(p *p256.P256, other *p256.P256, par bulletproofs.BulletProofSetupParams) map[string]*p256.P256 {
	r := bpx.Pt(p)
	c := bpx.Curve
	m := map[string]*p256.P256{
		"negated": bpx.P(c.Neg(r)), "infinity": {}, "G": par.G, "H": par.H, "doubled": bpx.P(c.Add(r, r)),
		"plus G": bpx.P(c.Add(r, c.G())), "minus H": bpx.P(c.Add(r, c.Neg(bpx.Pt(par.H)))), "Gg[0]": par.Gg[0],
		"(0,0)": {X: new(big.Int), Y: new(big.Int)},
		"endo":  bpx.P(zk.Pt{X: endo(r), Y: r.Y}),
	}
	if r.X == nil {
		delete(m, "endo")
	}
	if other != nil {
		m["of another proof"] = other
	}
	return m
}

// endo is another x coordinate with the same y.
func endo(r zk.Pt) *big.Int {
	if r.X == nil {
		return nil
	}
	beta := zk.Hex("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")
	x := new(big.Int).Mul(r.X, beta)
	return x.Mod(x, zk.SecpP)
}

func same(a, b *p256.P256) bool { return bpx.Curve.Eq(bpx.Pt(a), bpx.Pt(b)) }

func main() {
	mc.Main(func(c *mc.Ctx) {
		ns := bpx.Ns
		secret := func(n uint, k int64) *big.Int {
			return new(big.Int).Mod(zk.B(0x2b5a3c91+k*77), zk.Pow2(n))
		}
		memo := map[string]*proof{}
		get := func(t *mc.T, n uint, k int64, label string) *proof {
			key := fmt.Sprint(n, k, label)
			if memo[key] == nil {
				memo[key] = bpx.MustProve(t, secret(n, k), n, c.Seed+label)
			}
			return cp(memo[key])
		}
		for _, n := range ns {
			n := n
			par := bpx.Params(n)
			// The paths of a proof do not depend on the secret: enumerate them once.
			mc.UseTape(mc.NewTape("shape"))
			shape, err, _ := bpx.Prove(secret(n, 0), n)
			if err != nil {
				c.Case("proofs", fmt.Sprint(n), func(t *mc.T) { t.Failf("%v", err) })
				continue
			}
			full := n <= 4 || c.Thorough && n <= 16
			// 1. Every integer of the proof.
			for li, lf := range zk.Leaves(&shape) {
				li, path := li, lf.Path
				c.Case(fmt.Sprintf("N=%d integers", n), path, func(t *mc.T) {
					p := get(t, n, 0, "a")
					if ok, err, pan := bpx.Verify(cp(p)); !ok {
						t.Failf("the unaltered proof does not verify: %v %s", err, pan)
					}
					l := zk.Leaves(p)[li]
					if l.V.Kind() == reflect.Int64 || l.V.Kind() == reflect.Int {
						v := l.V.Int()
						for _, d := range []int64{0, 1, -1, v * 2, v / 2, v + 1, v - 1, 64, -v, 1 << 40, -1 << 63} {
							if d == v {
								continue
							}
							q := cp(p)
							zk.Leaves(q)[li].V.SetInt(d)
							rejected(t, q, "%s = %d instead of %d", path, d, v)
						}
						return
					}
					if l.V.IsNil() {
						return
					}
					v := l.V.Interface().(*big.Int)
					vals := scalars(v, n)
					for _, k := range order(vals) {
						if !full && k != "+1" && k != "negated" && k != "0" && k != "-2^128" {
							continue
						}
						if vals[k].Cmp(v) == 0 {
							continue
						}
						q := cp(p)
						zk.Leaves(q)[li].V.Set(reflect.ValueOf(vals[k]))
						rejected(t, q, "%s changed (%s)", path, k)
					}
				})
			}
			// 2. Every group element.
			pts := zk.Find(&shape, pointType)
			for pi, pl := range pts {
				pi, path := pi, pl.Path
				c.Case(fmt.Sprintf("N=%d points", n), path, func(t *mc.T) {
					p := get(t, n, 0, "a")
					o := get(t, n, 1, "b")
					at := func(p *proof, i int) reflect.Value { return zk.Find(p, pointType)[i].V }
					v := at(p, pi).Interface().(*p256.P256)
					if v == nil {
						return
					}
					vals := points(v, at(o, pi).Interface().(*p256.P256), par)
					for _, k := range order(vals) {
						if !full && k != "plus G" && k != "negated" && k != "infinity" && k != "of another proof" {
							continue
						}
						if same(vals[k], v) {
							continue
						}
						q := cp(p)
						at(q, pi).Set(reflect.ValueOf(vals[k]))
						rejected(t, q, "%s replaced (%s)", path, k)
					}
					// Exchange with every other element of the same proof.
					if n > 4 && !c.Thorough || n > 8 {
						return
					}
					for j := range zk.Find(p, pointType) {
						if j <= pi {
							continue
						}
						w := at(p, j).Interface().(*p256.P256)
						if w == nil || same(v, w) {
							continue
						}
						q := cp(p)
						at(q, pi).Set(reflect.ValueOf(w))
						at(q, j).Set(reflect.ValueOf(v))
						rejected(t, q, "%s exchanged with %s", path, zk.Find(p, pointType)[j].Path)
					}
				})
			}
			// 3. Every subset of sign changes of the points, and of the scalars, together.
			top := []string{"V", "A", "S", "T1", "T2", "Commit", "Taux", "Mu", "Tprime"}
			if n <= 2 || c.Thorough && n <= 4 {
				for m := 1; m < 1<<uint(len(top)); m++ {
					m := m
					if !c.Thorough && n == 2 && zk.Popcount(m) > 4 {
						continue
					}
					c.Case(fmt.Sprintf("N=%d sign changes", n), fmt.Sprintf("%09b", m), func(t *mc.T) {
						for _, ip := range []bool{false, true} {
							if ip && n == 2 && !c.Thorough && zk.Popcount(m) > 3 {
								continue
							}
							p := get(t, n, 0, "a")
							var names []string
							changed := false
							neg := func(f reflect.Value, name string) {
								switch x := f.Interface().(type) {
								case *p256.P256:
									y := bpx.P(bpx.Curve.Neg(bpx.Pt(x)))
									changed = changed || !same(x, y)
									f.Set(reflect.ValueOf(y))
								case *big.Int:
									y := new(big.Int).Mod(new(big.Int).Neg(x), zk.SecpN)
									changed = changed || x.Cmp(y) != 0
									f.Set(reflect.ValueOf(y))
								}
								names = append(names, name)
							}
							for i, f := range top {
								if m>>uint(i)&1 == 1 {
									v, ok := zk.Field(p, f)
									if !ok {
										t.Skipf("no field %s", f)
									}
									neg(v, f)
								}
							}
							if ip {
								for _, f := range []string{"A", "B"} {
									v, ok := zk.Field(&p.InnerProductProof, f)
									if ok {
										neg(v, "InnerProductProof."+f)
									}
								}
							}
							if !changed {
								continue
							}
							rejected(t, p, "negated: %s", strings.Join(names, ", "))
						}
					})
				}
			}
			// 3b. Every two scalars and points changed together, so that changes can make up for each other.
			together(c, n, &shape, func(t *mc.T) *proof { return get(t, n, 0, "a") })
			// 4. Every subset of parts exchanged with those of another valid proof.
			if n <= 4 {
				pt := reflect.TypeOf(shape)
				nf := pt.NumField()
				step := 1
				if n > 1 && !c.Thorough {
					step = 3
				}
				for m := 1; m < 1<<uint(nf); m += step {
					m := m
					if m == 1<<uint(nf)-1 {
						continue
					}
					c.Case(fmt.Sprintf("N=%d splices", n), fmt.Sprintf("%011b", m), func(t *mc.T) {
						splice(t, get(t, n, 0, "a"), get(t, n, 1, "b"), m)
						if n <= 2 {
							// Another proof of the same secret; and one with the same first message.
							splice(t, get(t, n, 0, "a"), get(t, n, 0, "b"), m)
						}
					})
				}
				it := reflect.TypeOf(shape.InnerProductProof)
				for m := 1; m < 1<<uint(it.NumField())-1; m++ {
					m := m
					if n > 1 && !c.Thorough && m%3 != 0 {
						continue
					}
					c.Case(fmt.Sprintf("N=%d inner product splices", n), fmt.Sprintf("%010b", m), func(t *mc.T) {
						p, o := get(t, n, 0, "a"), get(t, n, 1, "b")
						q := cp(p)
						var names []string
						for i := 0; i < it.NumField(); i++ {
							if m>>uint(i)&1 == 1 {
								reflect.ValueOf(&q.InnerProductProof).Elem().Field(i).Set(reflect.ValueOf(cp(o).InnerProductProof).Field(i))
								names = append(names, it.Field(i).Name)
							}
						}
						if zk.Dump(q) == zk.Dump(p) {
							return
						}
						rejected(t, q, "InnerProductProof.{%s} of another proof", strings.Join(names, ","))
					})
				}
			}
			// 5. Lists of the inner product argument and of generators: dropped, repeated, reversed, extended.
			for _, f := range []string{"InnerProductProof.Ls", "InnerProductProof.Rs", "InnerProductProof.LsRs", "Params.Gg", "Params.Hh", "InnerProductProof.Params.Gg", "InnerProductProof.Params.Hh", "Params.InnerProductParams.Gg", "Params.InnerProductParams.Hh"} {
				f := f
				c.Case(fmt.Sprintf("N=%d lists", n), f, func(t *mc.T) {
					lists := map[string]func(l []*p256.P256) []*p256.P256{
						"drop last":   func(l []*p256.P256) []*p256.P256 { return l[:len(l)-1] },
						"drop first":  func(l []*p256.P256) []*p256.P256 { return l[1:] },
						"empty":       func(l []*p256.P256) []*p256.P256 { return nil },
						"repeat last": func(l []*p256.P256) []*p256.P256 { return append(append([]*p256.P256{}, l...), l[len(l)-1]) },
						"extend by infinity": func(l []*p256.P256) []*p256.P256 {
							return append(append([]*p256.P256{}, l...), &p256.P256{})
						},
						"reverse": func(l []*p256.P256) []*p256.P256 {
							var r []*p256.P256
							for i := range l {
								r = append(r, l[len(l)-1-i])
							}
							return r
						},
						"rotate":   func(l []*p256.P256) []*p256.P256 { return append(append([]*p256.P256{}, l[1:]...), l[0]) },
						"all same": func(l []*p256.P256) []*p256.P256 { r := append([]*p256.P256{}, l...); r[len(r)-1] = r[0]; return r },
					}
					for _, k := range order(lists) {
						p := get(t, n, 0, "a")
						q := cp(p)
						ch := false
						apply := func(l *[]*p256.P256) {
							if len(*l) == 0 {
								return
							}
							r := lists[k](*l)
							if zk.Dump(r) != zk.Dump(*l) {
								ch = true
							}
							*l = r
						}
						ip, pp := &q.InnerProductProof, &q.Params
						switch f {
						case "InnerProductProof.Ls":
							apply(&ip.Ls)
						case "InnerProductProof.Rs":
							apply(&ip.Rs)
						case "InnerProductProof.LsRs":
							apply(&ip.Ls)
							apply(&ip.Rs)
						case "Params.Gg":
							apply(&pp.Gg)
						case "Params.Hh":
							apply(&pp.Hh)
						case "InnerProductProof.Params.Gg":
							apply(&ip.Params.Gg)
						case "InnerProductProof.Params.Hh":
							apply(&ip.Params.Hh)
						case "Params.InnerProductParams.Gg":
							apply(&pp.InnerProductParams.Gg)
						case "Params.InnerProductParams.Hh":
							apply(&pp.InnerProductParams.Hh)
						}
						if ch {
							rejected(t, q, "%s: %s", f, k)
						}
					}
				})
			}
			// 6. Generators of the prover's choice.
			foreign(c, n)
			// 7. A prover that does not follow the protocol.
			forge(c, n)
		}
	})
}

// together changes two elements of a proof at once.
func together(c *mc.Ctx, n uint, shape *proof, get func(t *mc.T) *proof) {
	bigType := reflect.TypeOf((*big.Int)(nil))
	all := func(p *proof) []zk.Leaf {
		out := zk.FindUntil(p, bigType, pointType)
		return append(out, zk.Find(p, pointType)...)
	}
	el := all(shape)
	top := func(l zk.Leaf) bool { return !strings.Contains(l.Path, "Params") }
	d := zk.Hex("1234567")
	for i := range el {
		for j := i + 1; j < len(el); j++ {
			i, j := i, j
			if el[i].V.IsNil() || el[j].V.IsNil() {
				continue
			}
			both := top(el[i]) && top(el[j])
			sc := el[i].V.Type() == bigType && el[j].V.Type() == bigType
			switch {
			case sc:
			case n <= 2 && both:
			case n == 1:
			case c.Thorough && n <= 4:
			default:
				continue
			}
			c.Case(fmt.Sprintf("N=%d two elements together", n), el[i].Path+" and "+el[j].Path, func(t *mc.T) {
				for _, how := range []string{"both +d", "+d and -d", "+d and +2d", "both negated", "doubled and halved", "both doubled", "exchanged"} {
					if !c.Thorough && !sc && !both && how != "+d and -d" && how != "both negated" {
						continue
					}
					q := get(t)
					before := zk.Dump(q)
					e := all(q)
					u, v := e[i].V, e[j].V
					if how == "exchanged" {
						if u.Type() != v.Type() {
							continue
						}
						a, b := reflect.ValueOf(u.Interface()), reflect.ValueOf(v.Interface())
						u.Set(b)
						v.Set(a)
					} else {
						ch := func(l reflect.Value, mul, add *big.Int) {
							switch x := l.Interface().(type) {
							case *big.Int:
								y := new(big.Int).Mul(x, mul)
								y.Add(y, add)
								l.Set(reflect.ValueOf(y.Mod(y, zk.SecpN)))
							case *p256.P256:
								y := bpx.Curve.Mul(bpx.Pt(x), mul)
								y = bpx.Curve.Add(y, bpx.Curve.Mul(bpx.Curve.G(), add))
								l.Set(reflect.ValueOf(bpx.P(y)))
							}
						}
						half := new(big.Int).ModInverse(zk.B(2), zk.SecpN)
						one := zk.B(1)
						switch how {
						case "both +d":
							ch(u, one, d)
							ch(v, one, d)
						case "+d and -d":
							ch(u, one, d)
							ch(v, one, new(big.Int).Neg(d))
						case "+d and +2d":
							ch(u, one, d)
							ch(v, one, new(big.Int).Lsh(d, 1))
						case "both negated":
							ch(u, zk.B(-1), new(big.Int))
							ch(v, zk.B(-1), new(big.Int))
						case "doubled and halved":
							ch(u, zk.B(2), new(big.Int))
							ch(v, half, new(big.Int))
						case "both doubled":
							ch(u, zk.B(2), new(big.Int))
							ch(v, zk.B(2), new(big.Int))
						}
					}
					if zk.Dump(q) == before {
						continue
					}
					rejected(t, q, "%s and %s changed together (%s)", el[i].Path, el[j].Path, how)
				}
			})
		}
	}
}

func splice(t *mc.T, p, o *proof, m int) {
	q := cp(p)
	pt := reflect.TypeOf(*p)
	var names []string
	for i := 0; i < pt.NumField(); i++ {
		if m>>uint(i)&1 == 1 {
			reflect.ValueOf(q).Elem().Field(i).Set(reflect.ValueOf(cp(o)).Elem().Field(i))
			names = append(names, pt.Field(i).Name)
		}
	}
	d := zk.Dump(q)
	if d == zk.Dump(p) || d == zk.Dump(o) {
		return
	}
	rejected(t, q, "{%s} of another proof", strings.Join(names, ","))
}

func foreign(c *mc.Ctx, n uint) {
	par := bpx.Params(n)
	type ch struct {
		name string
		f    func(p *bulletproofs.BulletProofSetupParams)
	}
	g := func(k int64) *p256.P256 { return new(p256.P256).ScalarBaseMult(zk.B(k)) }
	list := []ch{
		{"H = 2G", func(p *bulletproofs.BulletProofSetupParams) { p.H = g(2) }},
		{"H = G", func(p *bulletproofs.BulletProofSetupParams) { p.H = g(1) }},
		{"H negated", func(p *bulletproofs.BulletProofSetupParams) { p.H = bpx.Exp(p.H, zk.B(-1)) }},
		{"G = 2G", func(p *bulletproofs.BulletProofSetupParams) { p.G = g(2) }},
		{"Gg[0] = 3G", func(p *bulletproofs.BulletProofSetupParams) { p.Gg[0] = g(3) }},
		{"Hh[0] = 3G", func(p *bulletproofs.BulletProofSetupParams) { p.Hh[0] = g(3) }},
		{"Gg[last] = 3G", func(p *bulletproofs.BulletProofSetupParams) { p.Gg[n-1] = g(3) }},
		{"Hh[last] = 3G", func(p *bulletproofs.BulletProofSetupParams) { p.Hh[n-1] = g(3) }},
		{"Hh[0] = Gg[0]", func(p *bulletproofs.BulletProofSetupParams) { p.Hh[0] = p.Gg[0] }},
		{"Gg and Hh exchanged", func(p *bulletproofs.BulletProofSetupParams) { p.Gg, p.Hh = p.Hh, p.Gg }},
		{"Gg of powers of G", func(p *bulletproofs.BulletProofSetupParams) {
			for i := range p.Gg {
				p.Gg[i] = g(int64(5 + i))
			}
		}},
		{"all of powers of G", func(p *bulletproofs.BulletProofSetupParams) {
			p.H = g(2)
			for i := range p.Gg {
				p.Gg[i] = g(int64(5 + i))
				p.Hh[i] = g(int64(500 + i))
			}
		}},
		{"Gg[0] at infinity", func(p *bulletproofs.BulletProofSetupParams) { p.Gg[0] = new(p256.P256) }},
		{"H at infinity", func(p *bulletproofs.BulletProofSetupParams) { p.H = new(p256.P256) }},
	}
	if n >= 2 {
		list = append(list, ch{"Gg[1] = Gg[0]", func(p *bulletproofs.BulletProofSetupParams) { p.Gg[1] = p.Gg[0] }},
			ch{"Hh[1] = -Hh[0]", func(p *bulletproofs.BulletProofSetupParams) { p.Hh[1] = bpx.Exp(p.Hh[0], zk.B(-1)) }},
			ch{"Gg reversed", func(p *bulletproofs.BulletProofSetupParams) {
				p.Gg[0], p.Gg[n-1] = p.Gg[n-1], p.Gg[0]
			}})
	}
	for _, l := range list {
		l := l
		c.Case(fmt.Sprintf("N=%d foreign generators", n), l.name, func(t *mc.T) {
			q := zk.Clone(par).(bulletproofs.BulletProofSetupParams)
			l.f(&q)
			var p bulletproofs.BulletProof
			var err error
			pan := false
			func() {
				defer func() {
					if recover() != nil {
						pan = true
					}
				}()
				p, err = bulletproofs.Prove(new(big.Int).Mod(zk.B(5), zk.Pow2(n)), q)
			}()
			if pan {
				t.Outcome("Prove panics")
				return
			}
			if err != nil {
				t.Outcome("Prove returns an error")
			}
			rejected(t, &p, "made with foreign generators (%s)", l.name)
		})
	}
}

func forge(c *mc.Ctx, n uint) {
	bits := func(v int64) (l, r []*big.Int) {
		for i := uint(0); i < n; i++ {
			b := v >> i & 1
			l = append(l, zk.B(b))
			r = append(r, zk.B(b-1))
		}
		return
	}
	type pl struct {
		name string
		want bool
		p    bpx.Plan
	}
	al, ar := bits(1)
	S := bpx.Sound
	var plans []pl
	add := func(name string, p bpx.Plan) { p.N = n; plans = append(plans, pl{name, false, p}) }
	plans = append(plans, pl{"honest", true, bpx.Plan{N: n, V: zk.B(1), AL: al, AR: ar, Hyp: S}})
	add("V about another value", bpx.Plan{V: zk.Pow2(n), AL: al, AR: ar, Hyp: S})
	add("V = -1", bpx.Plan{V: zk.B(-1), AL: al, AR: ar, Hyp: S})
	mod := func(v []*big.Int, i int, x int64) []*big.Int {
		w := append([]*big.Int{}, v...)
		w[i] = zk.B(x)
		return w
	}
	var digits []int
	for i := 0; i < int(n); i++ {
		digits = append(digits, i)
	}
	for _, i := range digits {
		for _, d := range []int64{2, -1, 3} {
			if i != 0 && i != int(n)-1 && (d != 2 && !c.Thorough) {
				continue
			}
			v := new(big.Int).Lsh(zk.B(d), uint(i))
			if i != 0 {
				v.Add(v, zk.B(1))
			}
			add(fmt.Sprintf("digit %d = %d", i, d), bpx.Plan{V: v, AL: mod(al, i, d), AR: mod(ar, i, d-1), Hyp: S})
			add(fmt.Sprintf("digit %d = %d, aR = 0", i, d), bpx.Plan{V: v, AL: mod(al, i, d), AR: mod(ar, i, 0), Hyp: S})
			add(fmt.Sprintf("digit %d = %d, V chosen last", i, d), bpx.Plan{V: nil, AL: mod(al, i, d), AR: mod(ar, i, d-1), Hyp: S.Without(bpx.EV, true, true)})
			add(fmt.Sprintf("digit %d = %d, V chosen after y and z", i, d), bpx.Plan{V: nil, AL: mod(al, i, d), AR: mod(ar, i, d-1), Hyp: S.Without(bpx.EV, true, false)})
			if n == 1 {
				break
			}
		}
	}
	// Two digits whose deviations cancel if both are weighed alike: the value is then a.2^i + 2^j.
	if n > 1 {
		type wt struct {
			name string
			e    func(i int) int
		}
		ws := []wt{{"y^i", nil}, {"y^(i/2)", func(i int) int { return i / 2 }}, {"y^(n-1-i)", func(i int) int { return int(n) - 1 - i }}, {"y^(2i)", func(i int) int { return 2 * i }}}
		for k := 1; k < int(n); k *= 2 {
			k := k
			ws = append(ws, wt{fmt.Sprintf("y^(i mod %d)", k), func(i int) int { return i % k }})
		}
		for k := 1; k < int(n); k++ {
			k := k
			if k > 4 && k&3 > 1 && k != int(n)-1 && !c.Thorough {
				continue
			}
			ws = append(ws, wt{fmt.Sprintf("y^min(i,%d)", k-1), func(i int) int {
				if i < k {
					return i
				}
				return k - 1
			}}, wt{fmt.Sprintf("y^i, 1 from %d on", k), func(i int) int {
				if i < k {
					return i
				}
				return 0
			}})
		}
		a := zk.Pow2(n)
		for _, w := range ws {
			h := S
			h.E = w.e
			e := w.e
			if e == nil {
				e = func(i int) int { return i }
			}
			type pair struct{ i, j int }
			var ps []pair
			for i := 0; i < int(n); i++ {
				for j := 0; j < int(n); j++ {
					if i == j {
						continue
					}
					if e(i) == e(j) || w.e == nil && (c.Thorough && n <= 8 || j == i+1 && (i%4 == 3 || n <= 8)) {
						ps = append(ps, pair{i, j})
					}
				}
			}
			if !c.Thorough && w.e != nil && len(ps) > 2 {
				ps = []pair{ps[0], ps[len(ps)-1]}
			}
			for _, q := range ps {
				aL, aR := bits(0)
				aL[q.i], aR[q.i] = a, zk.B(-1)
				aL[q.j], aR[q.j] = zk.B(1), a
				v := new(big.Int).Lsh(a, uint(q.i))
				v.Add(v, zk.Pow2(uint(q.j)))
				add(fmt.Sprintf("digits %d and %d deviate together, weights %s", q.i, q.j, w.name), bpx.Plan{V: v, AL: aL, AR: aR, Hyp: h})
			}
			// The same weights and an honest witness: accepted only if they are the library's.
			plans = append(plans, pl{"rules with weights " + w.name, true, bpx.Plan{N: n, V: zk.B(1), AL: al, AR: ar, Hyp: h}})
		}
	}
	out := zk.Pow2(n)
	// Everything fits V except for one relation.
	for _, cl := range []string{"claim", "P", "U", "vectors"} {
		for _, v := range []*big.Int{out, zk.B(-1), zk.B(0)} {
			add(fmt.Sprintf("V = %v of digits 1, inner product that V calls for (%s)", v, cl), bpx.Plan{V: v, AL: al, AR: ar, Hyp: S, Claim: cl})
		}
	}
	for _, o := range []string{"", "negated", "exchanged", "scaled", "moved"} {
		for _, m := range []bool{false, true} {
			if o == "" && !m {
				continue
			}
			add(fmt.Sprintf("argument about other vectors (%s), mu negated: %v", o, m), bpx.Plan{V: zk.B(1), AL: al, AR: ar, Hyp: S, Other: o, MuNegated: m})
		}
	}
	add("another inner product claimed", bpx.Plan{V: zk.B(1), AL: al, AR: ar, Hyp: S, BadC: true})
	for e, name := range map[bpx.Elem]string{bpx.EV: "V", bpx.EA: "A", bpx.ES: "S", bpx.ET1: "T1", bpx.ET2: "T2"} {
		for _, yz := range []bool{false, true} {
			for _, x := range []bool{false, true} {
				h := S.Without(e, yz, x)
				if e == bpx.EV {
					add(fmt.Sprintf("V fitted last, hypothesis %v %v", yz, x), bpx.Plan{V: out, AL: al, AR: ar, Hyp: h, IsLate: true, Late: e})
					continue
				}
				add(fmt.Sprintf("%s fitted last, hypothesis %v %v", name, yz, x), bpx.Plan{V: out, AL: al, AR: ar, Hyp: h, IsLate: true, Late: e})
				// The same when V is not covered by x either.
				h2 := h.Without(bpx.EV, false, true)
				add(fmt.Sprintf("%s fitted last, hypothesis %v %v and x without V", name, yz, x), bpx.Plan{V: out, AL: al, AR: ar, Hyp: h2, IsLate: true, Late: e})
				h3 := h.Without(bpx.EV, false, true).Without(bpx.EA, false, true).Without(bpx.ES, false, true)
				add(fmt.Sprintf("%s fitted last, hypothesis %v %v and x of T1,T2 only", name, yz, x), bpx.Plan{V: out, AL: al, AR: ar, Hyp: h3, IsLate: true, Late: e})
			}
		}
	}
	if n > 1 {
		for _, lr := range []string{"LRP", "LR", "L", "R", "P", "LP", "RP", "RL", "RLP"} {
			for _, late := range []string{"L", "R"} {
				h := S
				h.LR = lr
				add(fmt.Sprintf("last %s fitted, rounds cover %s", late, lr), bpx.Plan{V: out, AL: al, AR: ar, Hyp: h, LateLR: late, BadC: true})
			}
		}
	}
	for i := range plans {
		for j := i + 1; j < len(plans); j++ {
			if plans[j].name < plans[i].name {
				plans[i], plans[j] = plans[j], plans[i]
			}
		}
	}
	for _, p := range plans {
		p := p
		c.Case(fmt.Sprintf("N=%d forgeries", n), p.name, func(t *mc.T) {
			var rd int64
			rnd := func() *big.Int {
				rd++
				tape := mc.NewTape(fmt.Sprint(c.Seed, t.ID))
				b := make([]byte, 32)
				tape.Default(int(rd), b)
				return new(big.Int).SetBytes(b)
			}
			f := bpx.Forge(p.p, rnd)
			if p.want {
				ok, _, _ := bpx.Verify(&f)
				t.Outcome(fmt.Sprintf("the prover of the harness, following the rules, is accepted: %v", ok))
				return
			}
			rejected(t, &f, "forgery (%s)", p.name)
		})
	}
}
