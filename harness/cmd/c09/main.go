// C09: the domain of Setup, and the generators it gives.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"

	"zkrpmc/bpx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

var good = map[int64]int64{2: 1, 4: 2, 16: 4, 256: 8, 65536: 16, 1 << 32: 32}

func domain(t *mc.T, b int64) {
	p, err := bulletproofs.Setup(b)
	n, ok := good[b]
	t.Check(ok == (err == nil), "Setup(%d): %v", b, err)
	if ok {
		t.Check(p.N == n && int64(len(p.Gg)) == n && int64(len(p.Hh)) == n && p.G != nil && p.H != nil, "Setup(%d) gives N=%d and %d, %d generators", b, p.N, len(p.Gg), len(p.Hh))
	}
	t.Eval(1)
	t.NonTrivial(1)
	t.Outcome(fmt.Sprintf("success %v", err == nil))
}

type named struct {
	name string
	p    *p256.P256
}

func gens(p bulletproofs.BulletProofSetupParams) []named {
	out := []named{{"G", p.G}, {"H", p.H}}
	for i := range p.Gg {
		out = append(out, named{fmt.Sprintf("Gg[%d]", i), p.Gg[i]})
	}
	for i := range p.Hh {
		out = append(out, named{fmt.Sprintf("Hh[%d]", i), p.Hh[i]})
	}
	if ip, err := bulletproofs.XSetupInnerProduct(nil, nil, nil, new(big.Int), p.N); err == nil && ip.Uu != nil {
		out = append(out, named{"Uu", ip.Uu})
	}
	return out
}

func digest(b int64) string {
	p, err := bulletproofs.Setup(b)
	if err != nil {
		return err.Error()
	}
	h := sha256.New()
	for _, g := range gens(p) {
		fmt.Fprint(h, g.name, g.p.X, g.p.Y)
	}
	return hex.EncodeToString(h.Sum(nil))
}

func main() {
	mc.OnChild("digest", func(in []byte) []byte {
		var b int64
		fmt.Sscan(string(in), &b)
		return []byte(digest(b))
	})
	mc.Main(func(c *mc.Ctx) {
		// Ranges of small values, in blocks.
		lim := int64(1 << 17)
		if c.Thorough {
			lim = 1 << 21
		}
		const block = 1 << 11
		for lo := -lim; lo < lim; lo += block {
			lo := lo
			c.Case("small values", fmt.Sprint(lo), func(t *mc.T) {
				for b := lo; b < lo+block; b++ {
					domain(t, b)
				}
			})
		}
		for k := uint(0); k < 64; k++ {
			k := k
			c.Case("around powers of two", fmt.Sprint(k), func(t *mc.T) {
				w := int64(1) << k
				for d := int64(-300); d <= 300; d++ {
					domain(t, w+d)
					domain(t, -w+d)
					domain(t, 3*w+d)
				}
				for j := uint(0); j < 64; j++ {
					domain(t, w+int64(1)<<j)
					domain(t, w-int64(1)<<j)
					domain(t, w|int64(1)<<j|1)
					domain(t, w*(int64(1)<<j+1))
				}
				domain(t, math.MaxInt64-w)
				domain(t, math.MinInt64+w)
			})
		}
		for _, b := range []int64{2, 4, 16, 256, 65536, 1 << 32} {
			b := b
			c.Case("generators", fmt.Sprint(b), func(t *mc.T) {
				tape := mc.UseTape(mc.NewTape("x"))
				p, err := bulletproofs.Setup(b)
				t.Check(err == nil, "Setup(%d): %v", b, err)
				t.Check(tape.Reads() == 0, "Setup(%d) draws randomness", b)
				gs := gens(p)
				k := zk.Secp
				// Every generator and its small multiples, up to sign, are different.
				mult := int64(64)
				if c.Thorough {
					mult = 1000
				}
				seen := map[string]string{}
				for _, g := range gs {
					q := bpx.Pt(g.p)
					t.Check(q.X != nil && k.On(q), "Setup(%d): %s is not a point of the curve, or infinity", b, g.name)
					x := q.X.String()
					t.Check(seen[x] == "", "Setup(%d): %s and %s are equal up to sign", b, g.name, seen[x])
					seen[x] = g.name
				}
				for _, g := range gs {
					q := bpx.Pt(g.p)
					m := q
					for i := int64(2); i <= mult; i++ {
						m = k.Add(m, q)
						t.Check(seen[m.X.String()] == "", "Setup(%d): %s is %d times %s up to sign", b, seen[m.X.String()], i, g.name)
						t.Eval(1)
						t.NonTrivial(1)
					}
				}
				// Sums and differences of two generators.
				if len(gs) < 40 || c.Thorough {
					for i := range gs {
						for j := 0; j < i; j++ {
							s := k.Add(bpx.Pt(gs[i].p), bpx.Pt(gs[j].p))
							d := k.Add(bpx.Pt(gs[i].p), k.Neg(bpx.Pt(gs[j].p)))
							t.Check(seen[s.X.String()] == "" && seen[d.X.String()] == "", "Setup(%d): a generator is the sum or difference of %s and %s", b, gs[i].name, gs[j].name)
							t.Eval(1)
							t.NonTrivial(1)
						}
					}
				}
				// Nor is one the base point multiplied by a hash of its seed or by an index.
				for _, seed := range []string{bulletproofs.SEEDH, bulletproofs.SEEDU} {
					for i := -1; i < int(p.N); i++ {
						for _, l := range []string{"", "g", "h"} {
							for _, s := range []string{seed + l + fmt.Sprint(i), seed + l + string(rune(i)), seed + l, fmt.Sprint(i) + seed + l} {
								h := sha256.Sum256([]byte(s))
								x := p.G
								y := new(p256.P256).ScalarMult(x, new(big.Int).SetBytes(h[:]))
								t.Check(seen[y.X.String()] == "", "Setup(%d): %s is the base point multiplied by SHA-256(%q)", b, seen[y.X.String()], s)
							}
						}
					}
				}
				// Each depends on the public seed.
				first := digest(b)
				t.Check(digest(b) == first, "Setup(%d) gives other generators the second time", b)
				bulletproofs.Setup(2)
				bulletproofs.Setup(7)
				mc.UseTape(mc.NewTape("y"))
				t.Check(digest(b) == first, "Setup(%d) gives other generators after other calls", b)
				// Changing the result of one call does not change the next one.
				p.H.X.Add(p.H.X, zk.B(1))
				p.Gg[0].X.SetInt64(1)
				p.Hh[0].SetInfinity()
				p.G.Y.SetInt64(3)
				t.Check(digest(b) == first, "changing the result of Setup(%d) changes later ones", b)
				o, err := mc.Child("digest", []byte(fmt.Sprint(b)))
				t.Check(err == nil && bytes.Equal(o, []byte(first)), "Setup(%d) gives other generators in another process (%v)", b, err)
				t.Traces(1)
			})
		}
	})
}
