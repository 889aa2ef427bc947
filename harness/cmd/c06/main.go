// C06: every history of operations on shared parameters and proofs leaves them
// unchanged and gives every verification the verdict that a fresh copy gets.
package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/ccs08"
	"github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"

	"zkrpmc/bpx"
	"zkrpmc/cx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

// A world is a set of named objects. Operations read all of them and write at
// most one, which must not depend on what happened before.
type world struct {
	obj map[string]interface{}
	// kind is whose contents an object has, if not its own (after an exchange).
	kind map[string]string
	// vars are the integers that the operations of this world pass on, each
	// given the value it needs in place.
	vars map[string]*big.Int
}

func newWorld(obj map[string]interface{}) *world {
	return &world{obj, map[string]string{}, map[string]*big.Int{}}
}

// the gives the variable of that name the value x.
func (w *world) the(name string, x *big.Int) *big.Int {
	v, ok := w.vars[name]
	if !ok {
		v = new(big.Int)
		w.vars[name] = v
	}
	return v.Set(x)
}

func (w *world) of(name string) string {
	if k, ok := w.kind[name]; ok {
		return k
	}
	return name
}

type op struct {
	name string
	// writes is the object that the operation replaces ("" for none).
	writes string
	run    func(w *world) (verdict string, err error)
	want   string // expected verdict
	fresh  bool   // the object written must always be equal (same tape, same inputs)
	// wants, if set, gives the expected verdict in this world.
	wants func(w *world) string
	// swaps names two objects whose contents are exchanged in place.
	swaps [2]string
}

func globals() string {
	return zk.Dump([]interface{}{bulletproofs.ORDER, bulletproofs.SEEDH, bulletproofs.SEEDU, bulletproofs.MAX_RANGE_END, p256.CURVE.P, p256.CURVE.N, p256.CURVE.Gx, p256.CURVE.Gy,
		bn256.P, bn256.Order, util.G1, util.G2, util.E})
}

func verdict(ok bool, err error) string { return fmt.Sprintf("%v", ok) }

func bpWorld(nA, nB uint) (func() *world, []op) {
	xin, xout, xb := zk.B(1), zk.Pow2(nA), new(big.Int).Sub(zk.Pow2(nB), zk.B(1))
	prove := func(par, dst string, x *big.Int, tape string) op {
		return op{name: fmt.Sprintf("Prove(%s,%v)->%s", par, x, dst), writes: dst, fresh: true, run: func(w *world) (string, error) {
			mc.UseTape(mc.NewTape(tape))
			arg := w.the("secret", x)
			p, err := bulletproofs.Prove(arg, w.obj[par].(bulletproofs.BulletProofSetupParams))
			if arg.Cmp(x) != 0 {
				return "", fmt.Errorf("Prove changed the secret it was given")
			}
			w.obj[dst] = &p
			delete(w.kind, dst)
			return "", err
		}}
	}
	truth := map[string]string{"in": "true", "out": "false", "big": "true"}
	wants := func(src string) func(w *world) string {
		return func(w *world) string { return truth[w.of(src)] }
	}
	verify := func(src string, want string) op {
		return op{name: "Verify(" + src + ")", wants: wants(src), run: func(w *world) (string, error) {
			return verdict(w.obj[src].(*bulletproofs.BulletProof).Verify()), nil
		}}
	}
	// swap exchanges the contents of two proofs without making new objects.
	swap := func(a, b string) op {
		return op{name: fmt.Sprintf("exchange *%s and *%s", a, b), swaps: [2]string{a, b}, run: func(w *world) (string, error) {
			p, q := w.obj[a].(*bulletproofs.BulletProof), w.obj[b].(*bulletproofs.BulletProof)
			*p, *q = *q, *p
			return "", nil
		}}
	}
	// swapDeep exchanges the values that the elements of two proofs point to.
	swapDeep := func(a, b string) op {
		return op{name: fmt.Sprintf("exchange the elements of *%s and *%s", a, b), swaps: [2]string{a, b}, run: func(w *world) (string, error) {
			p, q := w.obj[a].(*bulletproofs.BulletProof), w.obj[b].(*bulletproofs.BulletProof)
			if shared(p) || shared(q) {
				*p, *q = *q, *p
				return "", nil
			}
			for _, e := range [][2]*p256.P256{{p.V, q.V}, {p.A, q.A}, {p.S, q.S}, {p.T1, q.T1}, {p.T2, q.T2}, {p.Commit, q.Commit}} {
				*e[0], *e[1] = *e[1], *e[0]
			}
			for _, e := range [][2]*big.Int{{p.Taux, q.Taux}, {p.Mu, q.Mu}, {p.Tprime, q.Tprime}} {
				x := new(big.Int).Set(e[0])
				e[0].Set(e[1])
				e[1].Set(x)
			}
			p.InnerProductProof, q.InnerProductProof = q.InnerProductProof, p.InnerProductProof
			p.Params, q.Params = q.Params, p.Params
			return "", nil
		}}
	}
	trip := func(src string) op {
		return op{name: "decode(encode(" + src + "))", writes: src, fresh: true, run: func(w *world) (string, error) {
			b, err := json.Marshal(w.obj[src])
			if err != nil {
				return "", err
			}
			var q bulletproofs.BulletProof
			if err := json.Unmarshal(b, &q); err != nil {
				return "", err
			}
			w.obj[src] = &q
			return "", nil
		}}
	}
	setup := func(dst string, n uint) op {
		return op{name: "Setup->" + dst, writes: dst, fresh: true, run: func(w *world) (string, error) {
			p, err := bulletproofs.Setup(int64(1) << n)
			w.obj[dst] = p
			return "", err
		}}
	}
	ops := []op{
		verify("in", "true"), verify("out", "false"), verify("big", "true"),
		prove("parA", "in", xin, "in"), prove("parA", "out", xout, "out"), prove("parB", "big", xb, "big"),
		trip("in"), trip("big"), swap("in", "out"), swapDeep("in", "out"),
		{name: "Verify(tampered in)", want: "false", run: func(w *world) (string, error) {
			p := *w.obj["in"].(*bulletproofs.BulletProof)
			p.Taux = new(big.Int).Add(p.Taux, zk.B(1))
			return verdict(p.Verify()), nil
		}},
		{name: "InnerProduct.Verify(in)", wants: func(w *world) string {
			return verdict(w.obj["in"].(*bulletproofs.BulletProof).InnerProductProof.Verify())
		}, run: func(w *world) (string, error) {
			return verdict(w.obj["in"].(*bulletproofs.BulletProof).InnerProductProof.Verify()), nil
		}},
		{name: "Setup(error)", run: func(w *world) (string, error) {
			if _, err := bulletproofs.Setup(12345); err == nil {
				return "", fmt.Errorf("Setup(12345) succeeds")
			}
			return "", nil
		}},
		setup("parA", nA), setup("parB", nB),
		{name: "encode(in)", run: func(w *world) (string, error) {
			_, err := json.Marshal(w.obj["in"])
			return "", err
		}},
	}
	return func() *world {
		w := newWorld(map[string]interface{}{})
		for _, o := range []op{setup("parA", nA), setup("parB", nB), ops[3], ops[4], ops[5]} {
			if _, err := o.run(w); err != nil {
				panic(err)
			}
		}
		return w
	}, ops
}

func genericWorld() (func() *world, []op) {
	call := func(name string) func(w *world) (string, error) {
		return func(w *world) (string, error) { return w.obj[name].(fn)(w) }
	}
	verify := func(src, want string) op {
		return op{name: "Verify(" + src + ")", wants: func(w *world) string { return map[string]string{"in": "true", "out": "false"}[w.of(src)] }, run: func(w *world) (string, error) {
			return verdict(w.obj[src].(*bulletproofs.ProofBPRP).Verify()), nil
		}}
	}
	// Two intervals, each with its own parameters, as a service would have.
	start := func() *world {
		w := newWorld(map[string]interface{}{})
		for _, iv := range []struct {
			par, in, out string
			a, b, x, y   int64
		}{{"par", "in", "out", 18, 200, 40, 200}} {
			params, err := bulletproofs.SetupGeneric(iv.a, iv.b)
			if err != nil {
				panic(err)
			}
			w.obj[iv.par] = params
			for _, d := range []struct {
				dst string
				x   int64
			}{{iv.in, iv.x}, {iv.out, iv.y}} {
				d := d
				w.obj["prove "+d.dst] = fn(func(w *world) (string, error) {
					mc.UseTape(mc.NewTape(d.dst))
					x := w.the("secret", zk.B(d.x))
					p, err := bulletproofs.ProveGeneric(x, params)
					if x.Cmp(zk.B(d.x)) != 0 {
						return "", fmt.Errorf("ProveGeneric changed the secret it was given")
					}
					w.obj[d.dst] = &p
					delete(w.kind, d.dst)
					return "", err
				})
				if _, err := w.obj["prove "+d.dst].(fn)(w); err != nil {
					panic(err)
				}
			}
		}
		return w
	}
	return start, []op{
		{name: "ProveGeneric(40)->in", writes: "in", fresh: true, run: call("prove in")},
		{name: "ProveGeneric(200)->out", writes: "out", fresh: true, run: call("prove out")},
		verify("in", "true"), verify("out", "false"),
		{name: "exchange *in and *out", swaps: [2]string{"in", "out"}, run: func(w *world) (string, error) {
			p, q := w.obj["in"].(*bulletproofs.ProofBPRP), w.obj["out"].(*bulletproofs.ProofBPRP)
			*p, *q = *q, *p
			return "", nil
		}},
		{name: "SetupGeneric(other interval)", run: func(w *world) (string, error) {
			_, err := bulletproofs.SetupGeneric(0, 5)
			return "", err
		}},
		{name: "decode(encode(in))", writes: "in", fresh: true, run: func(w *world) (string, error) {
			b, err := json.Marshal(w.obj["in"])
			if err != nil {
				return "", err
			}
			var q bulletproofs.ProofBPRP
			if err := json.Unmarshal(b, &q); err != nil {
				return "", err
			}
			w.obj["in"] = &q
			return "", nil
		}},
		{name: "P1.Verify(in)", wants: func(w *world) string { return map[string]string{"in": "true", "out": "false"}[w.of("in")] }, run: func(w *world) (string, error) {
			return verdict(w.obj["in"].(*bulletproofs.ProofBPRP).P1.Verify()), nil
		}}}
}

// shared tells whether an element of the proof is also part of its argument,
// so that exchanging elements would not give a proof.
func shared(p *bulletproofs.BulletProof) bool {
	in := map[interface{}]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				in[v.Interface()] = true
				if v.Type() != reflect.TypeOf((*big.Int)(nil)) {
					walk(v.Elem())
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(p.InnerProductProof))
	walk(reflect.ValueOf(p.Params))
	seen := map[interface{}]bool{}
	for _, e := range []interface{}{p.V, p.A, p.S, p.T1, p.T2, p.Commit, p.Taux, p.Mu, p.Tprime} {
		if in[e] || seen[e] {
			return true
		}
		seen[e] = true
	}
	return false
}

func setWorld() (func() *world, []op) {
	r := zk.B(987654321)
	tapeP := func() *mc.Tape { return mc.UseTape(mc.NewTape("setup")) }
	newSet := func() func(w *world) (string, error) {
		return func(w *world) (string, error) {
			tapeP()
			p, err := ccs08.SetupSet([]int64{3, 7})
			w.obj["par"] = &p
			// Closures keep the static types, which have no exported names.
			w.obj["nonmember"] = fn(func(w *world) (string, error) {
				mc.UseTape(mc.NewTape("prove"))
				if _, err := ccs08.ProveSet(5, r, p); err == nil {
					return "", fmt.Errorf("ProveSet(5) succeeds for a set without 5")
				}
				return "", nil
			})
			w.obj["other"] = fn(func(w *world) (string, error) {
				mc.UseTape(mc.NewTape("other"))
				q, err := ccs08.ProveSet(3, w.the("r", zk.B(55)), p)
				if err != nil {
					return "", err
				}
				return verdict(ccs08.VerifySet(&q, &p)), nil
			})
			w.obj["prove"] = fn(func(w *world) (string, error) {
				mc.UseTape(mc.NewTape("prove"))
				a := w.the("r", r)
				pr, err := ccs08.ProveSet(7, a, p)
				w.obj["proof"] = &pr
				if a.Cmp(r) != 0 {
					return "", fmt.Errorf("ProveSet changed the randomness it was given")
				}
				w.obj["verify"] = fn(func(w *world) (string, error) { return verdict(ccs08.VerifySet(&pr, &p)), nil })
				w.obj["bad"] = fn(func(w *world) (string, error) {
					q := pr
					z, ok := zk.Field(&q, "zr")
					if !ok {
						return "false", nil
					}
					x := z.Interface().(*big.Int)
					cx.Set(&q, "zr", new(big.Int).Add(x, zk.B(1)))
					return verdict(ccs08.VerifySet(&q, &p)), nil
				})
				return "", err
			})
			return "", err
		}
	}
	call := func(name string) func(w *world) (string, error) {
		return func(w *world) (string, error) { return w.obj[name].(fn)(w) }
	}
	ops := []op{
		{name: "VerifySet", want: "true", run: call("verify")},
		{name: "VerifySet(tampered)", want: "false", run: call("bad")},
		{name: "ProveSet", writes: "proof", fresh: true, run: call("prove")},
		{name: "ProveSet(another member, another r)", want: "true", run: func(w *world) (string, error) {
			return w.obj["other"].(fn)(w)
		}},
		{name: "ProveSet(not a member)", run: call("nonmember")},
		{name: "other setup", run: func(w *world) (string, error) {
			mc.UseTape(mc.NewTape("other"))
			_, err := ccs08.SetupSet([]int64{1})
			return "", err
		}},
		{name: "sign and verify", want: "true", run: func(w *world) (string, error) {
			mc.UseTape(mc.NewTape("bb"))
			kp, err := bbsignatures.Keygen()
			if err != nil {
				return "", err
			}
			d := zk.Dump(kp)
			s, err := bbsignatures.Sign(zk.B(5), kp.Privk)
			if err != nil {
				return "", err
			}
			v, err := bbsignatures.XVerify(s, zk.B(5), kp.Pubk)
			v2, _ := bbsignatures.XVerify(s, zk.B(5), kp.Pubk)
			if v != v2 || d != zk.Dump(kp) {
				return "", fmt.Errorf("verifying a signature twice gives %v and %v, or changes the key", v, v2)
			}
			return verdict(v, err), nil
		}},
	}
	return func() *world {
		w := newWorld(map[string]interface{}{})
		newSet()(w)
		call("prove")(w)
		return w
	}, ops
}

type fn func(w *world) (string, error)

func ulWorld() (func() *world, []op) {
	start := func() *world {
		w := newWorld(map[string]interface{}{})
		mc.UseTape(mc.NewTape("setup"))
		p, err := ccs08.SetupUL(3, 2)
		if err != nil {
			panic(err)
		}
		w.obj["par"] = &p
		for _, n := range []struct {
			name string
			x    int64
		}{{"in", 5}, {"out", 9}} {
			n := n
			w.obj["prove "+n.name] = fn(func(w *world) (string, error) {
				mc.UseTape(mc.NewTape(n.name))
				x, r := w.the("secret", zk.B(n.x)), w.the("r", zk.B(1234567+n.x))
				pr, err := ccs08.ProveUL(x, r, p)
				if x.Cmp(zk.B(n.x)) != 0 || r.Cmp(zk.B(1234567+n.x)) != 0 {
					return "", fmt.Errorf("ProveUL changed its arguments")
				}
				w.obj["proof "+n.name] = &pr
				w.obj["verify "+n.name] = fn(func(w *world) (string, error) { return verdict(ccs08.VerifyUL(&pr, &p)), nil })
				return "", err
			})
			w.obj["prove "+n.name].(fn)(w)
		}
		return w
	}
	call := func(name string) func(w *world) (string, error) {
		return func(w *world) (string, error) { return w.obj[name].(fn)(w) }
	}
	return start, []op{
		{name: "VerifyUL(in)", want: "true", run: call("verify in")},
		{name: "VerifyUL(out)", want: "false", run: call("verify out")},
		{name: "ProveUL(in)", writes: "proof in", fresh: true, run: call("prove in")},
		{name: "ProveUL(out)", writes: "proof out", fresh: true, run: call("prove out")},
	}
}

func rangeWorld() (func() *world, []op) {
	mk := func(label string, a, b, x int64) *ccs08.XCcs08 {
		z := new(ccs08.XCcs08)
		mc.UseTape(mc.NewTape("setup" + label))
		if err := z.Setup(a, b); err != nil {
			panic(err)
		}
		ccs08.XSet(z, zk.B(x), zk.B(777))
		mc.UseTape(mc.NewTape(label))
		if err := z.Prove(); err != nil {
			panic(err)
		}
		return z
	}
	start := func() *world {
		return newWorld(map[string]interface{}{"in": mk("in", 3, 40, 20), "out": mk("out", 3, 40, 40)})
	}
	return start, []op{
		{name: "ccs08.Verify(in)", want: "true", run: func(w *world) (string, error) { return verdict(w.obj["in"].(*ccs08.XCcs08).Verify()), nil }},
		{name: "ccs08.Verify(out)", want: "false", run: func(w *world) (string, error) { return verdict(w.obj["out"].(*ccs08.XCcs08).Verify()), nil }},
		{name: "ccs08.Prove(in)", writes: "in", fresh: true, run: func(w *world) (string, error) {
			mc.UseTape(mc.NewTape("in"))
			return "", w.obj["in"].(*ccs08.XCcs08).Prove()
		}},
	}
}

func explore(c *mc.Ctx, name string, start func() *world, ops []op, depth int) {
	// One case per sequence prefix of length depth-1; the last operation varies inside.
	ref := map[string]string{} // expected dump of every object, from the first world of this process
	states := map[string]bool{}
	step := func(t *mc.T, w *world, o op, hist []string) {
		before := map[string]string{}
		for k, v := range w.obj {
			if _, isFn := v.(fn); !isFn {
				before[k] = zk.Dump(v)
			}
		}
		g := globals()
		want := o.want
		if o.wants != nil {
			want = o.wants(w)
		}
		got, err := o.run(w)
		t.Transitions(1)
		if a, b := o.swaps[0], o.swaps[1]; a != "" {
			before[a], before[b] = before[b], before[a]
			w.kind[a], w.kind[b] = w.of(b), w.of(a)
		}
		h := strings.Join(append(hist, o.name), "; ")
		if err != nil {
			t.Failf("%s: %v", h, err)
		}
		t.Check(got == want, "%s: the verdict is %s, that of a fresh copy is %s", h, got, want)
		t.Check(globals() == g, "%s: package variables change", h)
		all := ""
		for k, v := range w.obj {
			if _, isFn := v.(fn); isFn {
				continue
			}
			d := zk.Dump(v)
			if k != o.writes {
				t.Check(d == before[k], "%s: %s changes", h, k)
			} else if o.fresh {
				t.Check(d == ref[w.of(k)], "%s: %s differs from what the same inputs and random answers gave before", h, k)
			}
			all += d
		}
		if !states[all] {
			states[all] = true
			t.Outcome(fmt.Sprintf("state %x of all objects", sha256.Sum256([]byte(all)))[:22])
		}
		t.Eval(1)
		t.NonTrivial(1)
	}
	total := 1
	for i := 0; i < depth-1; i++ {
		total *= len(ops)
	}
	for i := 0; i < total; i++ {
		i := i
		var prefix []op
		for k, j := 0, i; k < depth-1; k++ {
			prefix = append(prefix, ops[j%len(ops)])
			j /= len(ops)
		}
		var names []string
		for _, p := range prefix {
			names = append(names, p.name)
		}
		c.Case(name, strings.Join(names, "; "), func(t *mc.T) {
			if len(ref) == 0 {
				for k, v := range start().obj {
					if _, isFn := v.(fn); !isFn {
						ref[k] = zk.Dump(v)
					}
				}
			}
			w := start()
			for k, v := range w.obj {
				if _, isFn := v.(fn); !isFn {
					t.Check(zk.Dump(v) == ref[k], "%s differs between two runs with the same inputs and random answers", k)
				}
			}
			var hist []string
			for _, o := range prefix {
				step(t, w, o, hist)
				hist = append(hist, o.name)
			}
			// After the prefix, every operation in turn: their order varies with the case.
			for k := range ops {
				o := ops[(k+i)%len(ops)]
				step(t, w, o, hist)
				hist = append(hist, o.name)
			}
			t.Traces(1)
		})
	}
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		cx.Canonical()
		_ = bpx.Ns
		d := 3
		if c.Thorough {
			d = 4
		}
		s, o := bpWorld(1, 2)
		explore(c, "bulletproofs N=1,2", s, o, d)
		s, o = bpWorld(2, 8)
		explore(c, "bulletproofs N=2,8", s, o, d-1)
		s, o = genericWorld()
		explore(c, "generic proofs", s, o, d-1)
		s, o = setWorld()
		explore(c, "set membership", s, o, d-1)
		s, o = ulWorld()
		explore(c, "interval [0,u^l)", s, o, d-1)
		s, o = rangeWorld()
		explore(c, "interval [a,b)", s, o, d-1)
	})
}
