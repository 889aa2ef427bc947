// C08: JSON transport of every kind of proof, in this process and to a fresh one.
package main

import (
	"bytes"
	"crypto/rand"
	"encoding/json"
	"fmt"
	"math"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"

	"zkrpmc/bpx"
	"zkrpmc/cx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

type verifier interface{ Verify() (bool, error) }

// trip checks all ways to transport a proof. mk makes an empty one.
func trip(t *mc.T, what string, p verifier, byValue interface{}, mk func() verifier) {
	dump := zk.Dump(p)
	ok, err := p.Verify()
	t.Outcome(fmt.Sprintf("verdict %v", ok))
	enc, e := json.Marshal(p)
	t.Check(e == nil, "%s: encoding fails: %v", what, e)
	enc2, e := json.Marshal(byValue)
	t.Check(e == nil && bytes.Equal(enc, enc2), "%s: encoding the value and a pointer to it differ", what)
	t.Check(zk.Dump(p) == dump, "%s: encoding changes the proof", what)
	cur := enc
	for round := 1; round <= 3; round++ {
		in := append([]byte(nil), cur...)
		if round == 2 {
			var b bytes.Buffer
			json.Indent(&b, cur, " ", "  ")
			in = b.Bytes()
		}
		q := mk()
		t.Check(json.Unmarshal(in, q) == nil, "%s: decoding fails in round %d", what, round)
		for i := range in {
			in[i] = 'x'
		}
		t.Check(zk.Dump(q) == dump, "%s: the proof differs after round trip %d:\n%.300s\n%.300s", what, round, zk.Dump(q), dump)
		ok2, err2 := q.Verify()
		t.Check(ok2 == ok && (err == nil) == (err2 == nil), "%s: the verdict after round trip %d is %v, %v; before %v, %v", what, round, ok2, err2, ok, err)
		next, e := json.Marshal(q)
		t.Check(e == nil && bytes.Equal(next, enc), "%s: the encoding after round trip %d differs", what, round)
		cur = next
		t.Eval(1)
		t.NonTrivial(1)
	}
	// Into a variable that has held another proof.
	for i, e := range stale(p) {
		q := mk()
		t.Check(json.Unmarshal(e, q) == nil, "%s: decoding another proof (%d) fails", what, i)
		t.Check(json.Unmarshal(enc, q) == nil && zk.Dump(q) == dump, "%s: the proof differs when it is decoded into a variable that held another proof (%d):\n%.300s\n%.300s", what, i, zk.Dump(q), dump)
		b, e := json.Marshal(q)
		t.Check(e == nil && bytes.Equal(b, enc), "%s: the encoding differs when decoded into a variable that held another proof (%d)", what, i)
		t.Eval(1)
		t.NonTrivial(1)
	}
	// Through the generic JSON values that a document store or a gateway uses, numbers kept as they are.
	var v interface{}
	d := json.NewDecoder(bytes.NewReader(enc))
	d.UseNumber()
	t.Check(d.Decode(&v) == nil, "%s: the encoding is not JSON", what)
	re, _ := json.Marshal(v)
	q := mk()
	t.Check(json.Unmarshal(re, q) == nil && zk.Dump(q) == dump, "%s: the proof differs after a passage through generic JSON", what)
	t.Eval(1)
	t.NonTrivial(1)
}

var used map[string][][]byte

// stale gives encodings of other proofs of the kind that q is. A variable that
// one of them was decoded into is used again.
func stale(q verifier) [][]byte {
	if used == nil {
		used = map[string][][]byte{}
		keep := rand.Reader
		add := func(v verifier) {
			b, _ := json.Marshal(v)
			k := fmt.Sprintf("%T", v)
			used[k] = append(used[k], b)
		}
		for _, s := range []struct {
			n uint
			x int64
			t string
		}{{4, 5, "a"}, {1, 0, "all draws 0"}, {2, 4, "b"}, {8, 255, "all draws order-1"}} {
			par := bpx.Params(s.n)
			mc.UseTape(tapes(s.n)[s.t]())
			if p, err := bulletproofs.Prove(zk.B(s.x), par); err == nil {
				add(&p)
				add(&p.InnerProductProof)
			}
		}
		if par, err := bulletproofs.SetupGeneric(18, 200); err == nil {
			for _, k := range []string{"a", "all draws 0"} {
				mc.UseTape(tapes(32)[k]())
				if p, err := bulletproofs.ProveGeneric(zk.B(40), par); err == nil {
					add(&p)
				}
			}
		}
		rand.Reader = keep
	}
	return used[fmt.Sprintf("%T", q)]
}

// fresh asks a fresh process for the verdict and the encoding.
func fresh(t *mc.T, what, kind string, p verifier) {
	ok, _ := p.Verify()
	enc, _ := json.Marshal(p)
	out, err := mc.Child(kind, enc)
	t.Check(err == nil, "%s: another process cannot decode it: %v", what, err)
	want := append([]byte(fmt.Sprintf("%v\n", ok)), enc...)
	t.Check(bytes.Equal(out, want), "%s: another process finds %.20s..., this one %v", what, out, ok)
	t.Eval(1)
	t.NonTrivial(1)
	t.Traces(1)
}

func child(mk func() verifier) func(in []byte) []byte {
	return func(in []byte) []byte {
		q := mk()
		if err := json.Unmarshal(in, q); err != nil {
			return []byte(err.Error())
		}
		ok, _ := q.Verify()
		b, _ := json.Marshal(q)
		return append([]byte(fmt.Sprintf("%v\n", ok)), b...)
	}
}

func newBP() verifier  { return new(bulletproofs.BulletProof) }
func newGen() verifier { return new(bulletproofs.ProofBPRP) }
func newIP() verifier  { return new(bulletproofs.InnerProductProof) }

// tapes are the random tapes: ordinary ones and extreme draws.
func tapes(n uint) map[string]func() *mc.Tape {
	fill := func(f func(k int, p []byte)) func() *mc.Tape {
		return func() *mc.Tape { x := mc.NewTape("x"); x.All = f; return x }
	}
	out := map[string]func() *mc.Tape{
		"a": func() *mc.Tape { return mc.NewTape("a") },
		"b": func() *mc.Tape { return mc.NewTape("b") },
		"all draws 0": fill(func(k int, p []byte) {
			for i := range p {
				p[i] = 0
			}
		}),
		"all draws 1": fill(func(k int, p []byte) {
			for i := range p {
				p[i] = 0
			}
			p[len(p)-1] = 1
		}),
		"all draws order-1": fill(func(k int, p []byte) {
			new(big.Int).Sub(zk.SecpN, zk.B(1)).FillBytes(p)
		}),
		"small draws": fill(func(k int, p []byte) {
			for i := range p {
				p[i] = 0
			}
			p[len(p)-1] = byte(k)
		}),
	}
	return out
}

func main() {
	mc.OnChild("bp", child(newBP))
	mc.OnChild("gen", child(newGen))
	mc.Main(func(c *mc.Ctx) {
		cx.Canonical()
		for _, n := range bpx.Ns {
			n := n
			xs := append([]*big.Int{}, zk.InRange(n)...)
			out := zk.OutOfRange(n, zk.SecpN, 3)
			max := map[uint]int{1: 100, 2: 100, 4: 60, 8: 40, 16: 16, 32: 10}[n]
			if c.Thorough {
				max *= 8
			}
			pick := func(l []*big.Int, m int) []*big.Int {
				if len(l) <= m {
					return l
				}
				var o []*big.Int
				for i := 0; i < m; i++ {
					o = append(o, l[i*(len(l)-1)/(m-1)])
				}
				return o
			}
			xs = append(pick(xs, max), pick(out, max)...)
			for _, x := range xs {
				x := x
				c.Case(fmt.Sprintf("range proofs N=%d", n), x.String(), func(t *mc.T) {
					p, err, panicked := bpx.Prove(x, n)
					if err != nil || panicked {
						t.Outcome("no proof")
						return
					}
					what := fmt.Sprintf("the proof of %v for N=%d", x, n)
					trip(t, what, &p, p, newBP)
					trip(t, "the inner product argument of "+what, &p.InnerProductProof, p.InnerProductProof, newIP)
				})
			}
			for _, name := range []string{"a", "b", "all draws 0", "all draws 1", "all draws order-1", "small draws"} {
				mk := tapes(n)[name]
				for _, x := range []*big.Int{zk.B(0), zk.B(1), new(big.Int).Sub(zk.Pow2(n), zk.B(1)), zk.Pow2(n)} {
					x := x
					if n > 8 && !c.Thorough && (x.Sign() == 0) != (name == "all draws 0") {
						continue
					}
					c.Case(fmt.Sprintf("random tapes N=%d", n), fmt.Sprintf("%s %v", name, x), func(t *mc.T) {
						params := bpx.Params(n)
						mc.UseTape(mk())
						p, err := bulletproofs.Prove(x, params)
						if err != nil {
							t.Outcome("no proof")
							return
						}
						trip(t, fmt.Sprintf("the proof of %v for N=%d with %s", x, n, name), &p, p, newBP)
					})
				}
			}
			for _, x := range []*big.Int{zk.B(1), zk.Pow2(n)} {
				x := x
				c.Case("another process", fmt.Sprintf("N=%d %v", n, x), func(t *mc.T) {
					p, err, _ := bpx.Prove(x, n)
					if err != nil {
						t.Outcome("no proof")
						return
					}
					fresh(t, fmt.Sprintf("the proof of %v for N=%d", x, n), "bp", &p)
				})
			}
		}
		ivs := [][2]int64{{18, 200}, {0, 1}, {-5, 7}, {0, 1 << 32}, {math.MinInt64, math.MinInt64 + 100}, {math.MaxInt64 - 1000, math.MaxInt64}, {1 << 53, 1<<53 + 3}}
		for i, iv := range ivs {
			a, b := iv[0], iv[1]
			for _, x := range []*big.Int{zk.B(a), new(big.Int).Sub(zk.B(b), zk.B(1)), new(big.Int).Sub(zk.B(a), zk.B(1)), zk.B(b)} {
				i, x := i, x
				if !c.Thorough && i > 3 && x.Cmp(zk.B(b)) >= 0 {
					continue
				}
				c.Case("generic proofs", fmt.Sprintf("[%d,%d) %v", a, b, x), func(t *mc.T) {
					params, err := bulletproofs.SetupGeneric(a, b)
					t.Check(err == nil, "SetupGeneric(%d,%d): %v", a, b, err)
					p, err := bulletproofs.ProveGeneric(x, params)
					if err != nil {
						t.Outcome("no proof")
						return
					}
					what := fmt.Sprintf("the generic proof of %v in [%d,%d)", x, a, b)
					trip(t, what, &p, p, newGen)
					if i < 2 {
						fresh(t, what, "gen", &p)
					}
				})
			}
		}
	})
}
