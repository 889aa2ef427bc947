// C01: every in-range secret, under every explored random tape, gives a proof
// that verifies.
package main

import (
	"flag"
	"fmt"
	"math/big"
	"strings"

	"zkrpmc/bpx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

var tinyP = flag.Int64("tinyp", 0, "small field")
var tinyN = flag.Int64("tinyn", 0, "order of the small curve")

func prove(x *big.Int, n uint, tape *mc.Tape) string {
	mc.UseTape(tape)
	p, err, _ := bpx.Prove(x, n)
	if err != nil {
		return fmt.Sprintf("Prove(%v), N=%d: %v", x, n, err)
	}
	for i := 0; i < 2; i++ {
		if ok, err, pan := bpx.Verify(&p); !ok {
			return fmt.Sprintf("the proof of %v in [0,2^%d) does not verify (err %v %s)", x, n, err, pan)
		}
		if *tinyP == 0 {
			break
		}
	}
	return ""
}

// pieces of 8 secrets to make cases of similar cost.
func secrets(n uint, full bool) []*big.Int {
	if full {
		var xs []*big.Int
		for i := int64(0); i < 1<<n; i++ {
			xs = append(xs, zk.B(i))
		}
		return xs
	}
	return zk.InRange(n)
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		if *tinyP != 0 {
			bpx.UseTiny(*tinyP, *tinyN)
			tiny(c)
			return
		}
		for _, n := range bpx.Ns {
			for _, x := range secrets(n, n <= 8) {
				x, n := x, n
				c.Case(fmt.Sprintf("N=%d secrets", n), x.String(), func(t *mc.T) {
					msg := prove(x, n, mc.NewTape(c.Seed+t.ID))
					t.Check(msg == "", "%s", msg)
					t.Outcome("verifies")
				})
			}
		}
		// Deviations of the random source: each single draw set to a boundary
		// value, and uniform tapes.
		vals := map[string]*big.Int{"0": zk.B(0), "1": zk.B(1), "order-1": new(big.Int).Sub(zk.SecpN, zk.B(1)),
			"2": zk.B(2), "2^255": zk.Pow2(255), "order (redrawn)": zk.SecpN}
		names := []string{"0", "1", "order-1", "2", "2^255", "order (redrawn)"}
		for _, n := range bpx.Ns {
			n := n
			var xs []*big.Int
			switch {
			case n <= 2 || c.Thorough && n <= 4:
				xs = secrets(n, true)
			case c.Thorough && n == 8:
				xs = []*big.Int{zk.B(0), zk.B(1), zk.B(0xa5), zk.B(0xff)}
			default:
				xs = []*big.Int{new(big.Int).Sub(zk.Pow2(n), zk.B(1)), zk.B(0)}
			}
			draws := 2*int(n) + 6
			for xi, x := range xs {
				x := x
				nn := names
				if n >= 16 && !c.Thorough {
					nn = []string{"0", "order-1"}
					if xi > 0 {
						continue
					}
				}
				for k := 0; k < draws; k++ {
					for _, v := range nn {
						k, v := k, v
						c.Case(fmt.Sprintf("N=%d draws", n), fmt.Sprintf("x=%v draw %d = %s", x, k, v), func(t *mc.T) {
							tape := mc.NewTape(c.Seed + "tape")
							tape.Answer = map[int][]byte{k: vals[v].Bytes()}
							msg := prove(x, n, tape)
							t.Check(msg == "", "%s with draw %d = %s", msg, k, v)
						})
					}
				}
				for _, v := range nn {
					v := v
					if strings.Contains(v, "redrawn") {
						continue
					}
					c.Case(fmt.Sprintf("N=%d uniform tapes", n), fmt.Sprintf("x=%v all draws %s", x, v), func(t *mc.T) {
						tape := mc.NewTape("")
						tape.All = func(k int, p []byte) {
							for i := range p {
								p[i] = 0
							}
							b := vals[v].Bytes()
							copy(p[len(p)-len(b):], b)
						}
						msg := prove(x, n, tape)
						t.Check(msg == "", "%s with all draws %s", msg, v)
					})
				}
			}
			// Draws of every length in bytes.
			if n <= 2 || c.Thorough && n <= 8 {
				x := xs[len(xs)-1]
				for k := 0; k < draws; k++ {
					k := k
					c.Case(fmt.Sprintf("N=%d short draws", n), fmt.Sprintf("draw %d", k), func(t *mc.T) {
						for l := 1; l < 32; l++ {
							for _, pat := range []string{"\xa7", "\x01\x00", "\xff"} {
								tape := mc.NewTape(c.Seed + "tape")
								tape.Answer = map[int][]byte{k: []byte(strings.Repeat(pat, 32)[:l])}
								msg := prove(x, n, tape)
								t.Check(msg == "", "%s with draw %d = %x", msg, k, tape.Answer[k])
								t.Eval(1)
								t.NonTrivial(1)
							}
						}
					})
				}
			}
			// Pairs of draws with boundary values.
			if n <= 2 || c.Thorough && n <= 8 {
				for k := 0; k < draws; k++ {
					for l := k + 1; l < draws; l++ {
						k, l := k, l
						c.Case(fmt.Sprintf("N=%d draw pairs", n), fmt.Sprintf("draws %d,%d", k, l), func(t *mc.T) {
							for _, v := range []string{"0", "1", "order-1"} {
								for _, w := range []string{"0", "1", "order-1"} {
									tape := mc.NewTape(c.Seed + "tape")
									tape.Answer = map[int][]byte{k: vals[v].Bytes(), l: vals[w].Bytes()}
									msg := prove(zk.B(1), n, tape)
									t.Check(msg == "", "%s with draw %d = %s and draw %d = %s", msg, k, v, l, w)
									t.Eval(1)
									t.NonTrivial(1)
								}
							}
						})
					}
				}
			}
		}
		if c.Thorough {
			const step = 16
			for lo := int64(0); lo < 1<<16; lo += step {
				lo := lo
				c.Case("N=16 all secrets", fmt.Sprint(lo), func(t *mc.T) {
					for x := lo; x < lo+step; x++ {
						msg := prove(zk.B(x), 16, mc.NewTape(fmt.Sprint(c.Seed, t.ID, x)))
						t.Check(msg == "", "%s", msg)
						t.Eval(1)
						t.NonTrivial(1)
					}
				})
			}
		}
	})
}

// tiny runs the same code over a small curve, where every secret of N=16 and
// many of N=32 can be proved.
func tiny(c *mc.Ctx) {
	step, stride := int64(64), int64(1)
	if !c.Thorough {
		stride = 4
	}
	for _, n := range []uint{8, 16} {
		n := n
		step, stride := step, stride
		if n == 8 {
			step, stride = 16, 1
		}
		for lo := int64(0); lo < 1<<n; lo += step * stride {
			lo := lo
			c.Case(fmt.Sprintf("small group, N=%d", n), fmt.Sprint(lo), func(t *mc.T) {
				for i := int64(0); i < step; i++ {
					// A stride that visits every residue of the low bits.
					x := lo + i*stride + (lo/(step*stride)+i)%stride
					tape := mc.NewTape(fmt.Sprint(c.Seed, t.ID, x))
					bpx.Persistent(t, func() string { return prove(zk.B(x), n, tape) })
					t.Eval(1)
					t.NonTrivial(1)
				}
			})
		}
	}
	// N=32: all secrets with at most two bits set or cleared, and all bytes repeated.
	var xs []*big.Int
	for i := uint(0); i < 32; i++ {
		for j := i; j < 32; j++ {
			if !c.Thorough && (i*32+j)%5 != 0 {
				continue
			}
			x := new(big.Int).Or(zk.Pow2(i), zk.Pow2(j))
			xs = append(xs, x, new(big.Int).Xor(x, zk.B(1<<32-1)))
		}
	}
	for b := int64(1); b < 256; b++ {
		xs = append(xs, zk.B(b*0x01010101))
		if c.Thorough {
			xs = append(xs, zk.B(b<<24), zk.B(b<<16|0xff), zk.B(b<<8|b<<24))
		}
	}
	for i, x := range xs {
		x := x
		c.Case("small group, N=32", fmt.Sprint(i, " ", x), func(t *mc.T) {
			tape := mc.NewTape(fmt.Sprint(c.Seed, t.ID, x))
			bpx.Persistent(t, func() string { return prove(x, 32, tape) })
		})
	}
}
