// C26: range proofs decoded from every mutation of a JSON text: verifying them
// gives false, without a panic and in time.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/ing-bank/zkrp/bulletproofs"

	"zkrpmc/bpx"
	"zkrpmc/cx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

type verifier interface{ Verify() (bool, error) }

// A path is a list of keys (string) and indexes (int).
type path []interface{}

func (p path) String() string {
	var s []string
	for _, k := range p {
		s = append(s, fmt.Sprint(k))
	}
	return strings.Join(s, ".")
}

func paths(v interface{}, at path, out *[]path) {
	*out = append(*out, append(path(nil), at...))
	switch x := v.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			paths(x[k], append(at, k), out)
		}
	case []interface{}:
		for i := range x {
			paths(x[i], append(at, i), out)
		}
	}
}

func get(v interface{}, p path) interface{} {
	for _, k := range p {
		switch x := v.(type) {
		case map[string]interface{}:
			v = x[k.(string)]
		case []interface{}:
			i := k.(int)
			if i >= len(x) {
				return nil
			}
			v = x[i]
		default:
			return nil
		}
	}
	return v
}

type remove struct{}

// set gives a copy of v with the value at p replaced, or removed.
func set(v interface{}, p path, y interface{}) interface{} {
	if len(p) == 0 {
		if _, ok := y.(remove); ok {
			return nil
		}
		return y
	}
	switch x := v.(type) {
	case map[string]interface{}:
		n := map[string]interface{}{}
		for k, e := range x {
			n[k] = e
		}
		k := p[0].(string)
		if _, ok := y.(remove); ok && len(p) == 1 {
			delete(n, k)
		} else {
			n[k] = set(x[k], p[1:], y)
		}
		return n
	case []interface{}:
		n := append([]interface{}(nil), x...)
		i := p[0].(int)
		if i >= len(n) {
			return n
		}
		if _, ok := y.(remove); ok && len(p) == 1 {
			return append(n[:i], n[i+1:]...)
		}
		n[i] = set(x[i], p[1:], y)
		return n
	}
	return v
}

func parse(b []byte) interface{} {
	var v interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	return v
}

func num(x *big.Int) json.Number { return json.Number(x.String()) }

type repl struct {
	name string
	v    interface{}
}

// replacements of the value v. rest has the same path in proofs of other shapes.
func replacements(v interface{}, rest []interface{}, full bool) []repl {
	out := []repl{{"null", nil}, {"removed", remove{}}, {"{}", map[string]interface{}{}}, {"[]", []interface{}{}}}
	if full {
		out = append(out, repl{"text", "x"}, repl{"text of a number", "1"}, repl{"true", true}, repl{"[null]", []interface{}{nil}}, repl{"fraction", json.Number("1.5")}, repl{"1e3", json.Number("1e3")})
	}
	point := func(x, y *big.Int) map[string]interface{} {
		return map[string]interface{}{"X": num(x), "Y": num(y)}
	}
	switch x := v.(type) {
	case json.Number:
		n, _ := new(big.Int).SetString(string(x), 10)
		o, p := zk.SecpN, zk.SecpP
		add := func(name string, y *big.Int) { out = append(out, repl{name, num(y)}) }
		add("+order", new(big.Int).Add(n, o))
		add("-order", new(big.Int).Sub(n, o))
		add("+field prime", new(big.Int).Add(n, p))
		add("0", zk.B(0))
		add("-1", zk.B(-1))
		add("+1", new(big.Int).Add(n, zk.B(1)))
		add("10^3000", new(big.Int).Exp(zk.B(10), zk.B(3000), nil))
		add("2^62", zk.Pow2(62))
		if full {
			add("1", zk.B(1))
			add("-n", new(big.Int).Neg(n))
			add("-field prime", new(big.Int).Sub(n, p))
			add("order", o)
			add("order-n", new(big.Int).Sub(o, n))
			add("prime-n", new(big.Int).Sub(p, n))
			add("prime", p)
			add("-10^3000", new(big.Int).Neg(new(big.Int).Exp(zk.B(10), zk.B(3000), nil)))
			add("2^63-1", new(big.Int).Sub(zk.Pow2(63), zk.B(1)))
			add("-2^63", new(big.Int).Neg(zk.Pow2(63)))
			add("2^32", zk.Pow2(32))
			for k := uint(0); k < 8; k++ {
				add(fmt.Sprintf("2^%d", k), zk.Pow2(k))
			}
			for k := int64(3); k < 36; k += 3 {
				add(fmt.Sprint(k), zk.B(k))
			}
		}
	case map[string]interface{}:
		if _, ok := x["X"]; ok {
			out = append(out, repl{"(0,0)", point(zk.B(0), zk.B(0))}, repl{"(0,1)", point(zk.B(0), zk.B(1))}, repl{"(1,0)", point(zk.B(1), zk.B(0))},
				repl{"(null,1)", map[string]interface{}{"X": nil, "Y": num(zk.B(1))}}, repl{"(1,null)", map[string]interface{}{"X": num(zk.B(1)), "Y": nil}})
			if full {
				out = append(out, repl{"(-1,-1)", point(zk.B(-1), zk.B(-1))}, repl{"G", point(zk.SecpX, zk.SecpY)}, repl{"-G", point(zk.SecpX, new(big.Int).Sub(zk.SecpP, zk.SecpY))},
					repl{"(p,p)", point(zk.SecpP, zk.SecpP)}, repl{"(p,0)", point(zk.SecpP, zk.B(0))}, repl{"unreduced G", point(new(big.Int).Add(zk.SecpX, zk.SecpP), zk.SecpY)},
					repl{"G mirrored below zero", point(zk.SecpX, new(big.Int).Neg(zk.SecpY))}, repl{"exchanged coordinates", map[string]interface{}{"X": x["Y"], "Y": x["X"]}})
			}
		}
	case []interface{}:
		out = append(out, repl{"[null]", []interface{}{nil}}, repl{"[{}]", []interface{}{map[string]interface{}{}}})
		if len(x) > 0 {
			out = append(out, repl{"first only", x[:1]}, repl{"without last", x[:len(x)-1]}, repl{"without first", x[1:]},
				repl{"last twice", append(append([]interface{}{}, x...), x[len(x)-1])}, repl{"with null", append(append([]interface{}{}, x...), nil)},
				repl{"all twice", append(append([]interface{}{}, x...), x...)})
			rev := append([]interface{}{}, x...)
			for i := range rev {
				rev[i] = x[len(x)-1-i]
			}
			out = append(out, repl{"reversed", rev})
			nulls := make([]interface{}, len(x))
			out = append(out, repl{"all null", nulls})
			long := make([]interface{}, 2048)
			for i := range long {
				long[i] = x[0]
			}
			out = append(out, repl{"2048 elements", long})
			if full {
				for k := 2; k <= 64 && k < len(x)*4; k *= 2 {
					l := make([]interface{}, k)
					for i := range l {
						l[i] = x[i%len(x)]
					}
					out = append(out, repl{fmt.Sprintf("%d elements", k), l})
				}
			}
		} else {
			out = append(out, repl{"null and G", []interface{}{point(zk.SecpX, zk.SecpY)}})
		}
	}
	for i, r := range rest {
		if r != nil {
			out = append(out, repl{fmt.Sprintf("that of proof %d", i), r})
		}
	}
	return out
}

type base struct {
	name  string
	bytes []byte
	tree  interface{}
	dump  string
	mk    func() verifier
	paths []path
}

func newBP() verifier  { return new(bulletproofs.BulletProof) }
func newGen() verifier { return new(bulletproofs.ProofBPRP) }

func mkBase(name string, p interface{}, mk func() verifier) *base {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	s := &base{name: name, bytes: b, tree: parse(b), mk: mk}
	v := mk()
	if err := json.Unmarshal(b, v); err != nil {
		panic(err)
	}
	s.dump = zk.Dump(v)
	paths(s.tree, nil, &s.paths)
	return s
}

// try decodes and verifies.
func (s *base) try(t *mc.T, tree interface{}, what string) {
	b, err := json.Marshal(tree)
	if err != nil {
		panic(err)
	}
	s.tryBytes(t, b, what)
}

func (s *base) tryBytes(t *mc.T, b []byte, what string) {
	t.Eval(1)
	v := s.mk()
	if err := json.Unmarshal(b, v); err != nil {
		t.Outcome("not decoded")
		return
	}
	t.NonTrivial(1)
	ok, err, pan := verify(v)
	if pan != "" {
		t.Failf("%s, %s: Verify panics: %s", s.name, what, pan)
	}
	if ok {
		t.Check(zk.Dump(v) == s.dump, "%s, %s: it verifies", s.name, what)
		t.Outcome("the same proof")
		return
	}
	if err != nil {
		t.Outcome("false with an error")
	} else {
		t.Outcome("false")
	}
}

func verify(v verifier) (ok bool, err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			ok, pan = false, fmt.Sprint(r)
		}
	}()
	ok, err = v.Verify()
	return
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		cx.Canonical()
		mk := func(n uint, x *big.Int) *base {
			mc.UseTape(mc.NewTape(fmt.Sprint("base", n, x)))
			p, err, _ := bpx.Prove(x, n)
			if err != nil {
				panic(err)
			}
			return mkBase(fmt.Sprintf("proof of %v for N=%d", x, n), p, newBP)
		}
		bases := map[uint]*base{}
		for _, n := range bpx.Ns {
			bases[n] = mk(n, zk.Pow2(n-1))
		}
		gen := func(a, b, x int64) *base {
			mc.UseTape(mc.NewTape(fmt.Sprint("gen", a, b, x)))
			params, err := bulletproofs.SetupGeneric(a, b)
			if err != nil {
				panic(err)
			}
			p, err := bulletproofs.ProveGeneric(zk.B(x), params)
			if err != nil {
				panic(err)
			}
			return mkBase(fmt.Sprintf("generic proof of %d in [%d,%d)", x, a, b), p, newGen)
		}
		g := gen(18, 200, 40)
		all := []*base{}
		for _, n := range bpx.Ns {
			all = append(all, bases[n])
		}
		all = append(all, g)
		// The elements of a path that the quick tier takes: the first and the last of a list.
		edge := func(s *base, p path) bool {
			for i, k := range p {
				if idx, ok := k.(int); ok {
					l := len(get(s.tree, p[:i]).([]interface{}))
					if idx != 0 && idx != l-1 && idx != l/2 {
						return false
					}
				}
			}
			return true
		}
		for _, s := range all {
			s := s
			c.Case("whole", s.name, func(t *mc.T) {
				v := s.mk()
				t.Check(json.Unmarshal(s.bytes, v) == nil, "decoding fails")
				ok, err, pan := verify(v)
				t.Check(ok, "the unaltered proof does not verify: %v %s", err, pan)
				for _, in := range []string{"{}", "null", "[]", "0", `""`, `{"Params":{"N":1}}`, `{"Params":{"N":32}}`, `{"P1":{},"P2":{}}`, `{"P1":null}`, `{"Params":null}`} {
					s.tryBytes(t, []byte(in), in)
				}
				// A value that never was decoded into, and one that decoding failed on halfway.
				_, _, pan = verify(s.mk())
				t.Check(pan == "", "Verify of an empty proof panics: %s", pan)
				for cut := 0; cut < len(s.bytes); cut += 1 + len(s.bytes)/40 {
					v := s.mk()
					json.Unmarshal(s.bytes[:cut], v)
					ok, _, pan := verify(v)
					t.Check(pan == "" && !ok, "a proof cut at %d: %v %s", cut, ok, pan)
					t.Eval(1)
				}
				// Proofs of the other shapes decoded over this one.
				for _, o := range all {
					if o == s {
						continue
					}
					v := s.mk()
					json.Unmarshal(s.bytes, v)
					if json.Unmarshal(o.bytes, v) == nil && fmt.Sprintf("%T", o.mk()) == fmt.Sprintf("%T", v) {
						ok, _, pan := verify(v)
						t.Check(pan == "", "decoding %s over %s: panic %s", o.name, s.name, pan)
						t.Check(ok == (zk.Dump(v) == o.dump), "decoding %s over %s: %v", o.name, s.name, ok)
						t.Eval(1)
						t.NonTrivial(1)
					}
				}
			})
			small := s == bases[1] || s == bases[2] || s == bases[4]
			for _, p := range s.paths {
				p := p
				if !c.Thorough && !small && !edge(s, p) {
					continue
				}
				if s == g && !c.Thorough && len(p) > 1 && (len(p) > 5 || p[0] == "P2" && len(p) > 3) {
					continue
				}
				c.Case("single: "+s.name, p.String(), func(t *mc.T) {
					var rest []interface{}
					if s != g && len(p) > 0 {
						for _, o := range all {
							if o != s && o != g {
								rest = append(rest, get(o.tree, p))
							}
						}
					} else if len(p) > 0 && p[0] == "P1" {
						rest = append(rest, get(s.tree, append(path{"P2"}, p[1:]...)), get(bases[32].tree, p[1:]))
					}
					if !small && !c.Thorough && len(rest) > 1 {
						rest = rest[len(rest)-1:]
					}
					for _, r := range replacements(get(s.tree, p), rest, small || c.Thorough || len(p) < 2) {
						s.try(t, set(s.tree, p, r.v), p.String()+" = "+r.name)
					}
					t.Sample("%s: all replacements of %s", s.name, p)
				})
			}
		}
		// Every pair of removals and nulls.
		pairs := []*base{bases[1], bases[2], bases[4]}
		if c.Thorough {
			pairs = append(pairs, bases[8], g)
		}
		for _, s := range pairs {
			s := s
			for i := range s.paths {
				i := i
				if s == bases[4] && !c.Thorough && (len(s.paths[i]) > 3 || i%3 == 1) {
					continue
				}
				if s == g && len(s.paths[i]) > 3 {
					continue
				}
				c.Case("pairs: "+s.name, s.paths[i].String(), func(t *mc.T) {
					p := s.paths[i]
					for _, q := range s.paths[:i] {
						if len(q) <= len(p) && path(p[:len(q)]).String() == q.String() {
							continue
						}
						if s == bases[4] && len(q) > 3 && !c.Thorough || s == g && len(q) > 3 {
							continue
						}
						for k := 0; k < 3; k++ {
							var a, b interface{} = remove{}, remove{}
							if k > 0 {
								a = nil
							}
							if k > 1 {
								b = nil
							}
							// The later path first: removing it leaves the earlier one where it is.
							s.try(t, set(set(s.tree, p, a), q, b), fmt.Sprintf("%v and %v (%d)", p, q, k))
						}
					}
				})
			}
		}
		// Consistent changes of the lengths: N and every list together.
		lens := []int64{-1, 0, 1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 64}
		for _, n := range []uint{1, 2, 4, 32} {
			s := bases[n]
			for _, m := range lens {
				m := m
				if m == int64(n) {
					continue
				}
				c.Case("lengths: "+s.name, fmt.Sprint(m), func(t *mc.T) {
					fit := func(l []interface{}, m int64) []interface{} {
						if m < 0 {
							m = 0
						}
						var o []interface{}
						for i := int64(0); i < m; i++ {
							if len(l) == 0 {
								o = append(o, map[string]interface{}{"X": num(zk.SecpX), "Y": num(zk.SecpY)})
							} else {
								o = append(o, l[int(i)%len(l)])
							}
						}
						return o
					}
					logm := int64(0)
					for int64(1)<<uint(logm) < m {
						logm++
					}
					// Which of the places are changed: every subset.
					var places []path
					for _, p := range s.paths {
						if len(p) > 0 {
							k := fmt.Sprint(p[len(p)-1])
							_, list := get(s.tree, p).([]interface{})
							if k == "N" || list && len(p) < 4 || k == "Ls" || k == "Rs" {
								places = append(places, p)
							}
						}
					}
					for set1 := 1; set1 < 1<<uint(len(places)); set1++ {
						if bits := zk.Popcount(set1); !c.Thorough && bits > 2 && bits < len(places)-2 {
							continue
						}
						tree := s.tree
						for i, p := range places {
							if set1>>uint(i)&1 == 0 {
								continue
							}
							switch x := get(tree, p).(type) {
							case []interface{}:
								k := m
								if e := fmt.Sprint(p[len(p)-1]); e == "Ls" || e == "Rs" {
									k = logm
								}
								tree = set(tree, p, fit(x, k))
							case nil:
								tree = set(tree, p, fit(nil, logm))
							default:
								tree = set(tree, p, num(zk.B(m)))
							}
						}
						s.try(t, tree, fmt.Sprintf("lengths %d in places %b", m, set1))
					}
				})
			}
		}
	})
}
