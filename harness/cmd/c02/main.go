// C02: no secret outside [0,2^N) (modulo the group order) yields a proof that verifies.
package main

import (
	"fmt"
	"math/big"

	"zkrpmc/bpx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

func try(t *mc.T, x *big.Int, n uint) {
	keep := new(big.Int).Set(x)
	p, err, pan := bpx.Prove(x, n)
	if pan {
		t.Outcome("Prove panics")
		return
	}
	if err != nil {
		t.Outcome("Prove returns an error")
	}
	// Also what comes with an error must not verify.
	ok, _, _ := bpx.Verify(&p)
	t.Check(!ok, "the proof of %v, outside [0,2^%d), verifies", keep, n)
	if err == nil {
		t.Outcome("Verify is false")
	}
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		for _, n := range bpx.Ns {
			n := n
			var xs []*big.Int
			if n <= 8 {
				w := int64(3) << n
				if w > 600 && !c.Thorough {
					w = 320
				}
				for d := int64(0); d < w; d++ {
					xs = append(xs, zk.B(-1-d), new(big.Int).Add(zk.Pow2(n), zk.B(d)))
				}
			}
			width := int64(12)
			if c.Thorough {
				width = 300
			}
			xs = append(xs, zk.OutOfRange(n, zk.SecpN, width)...)
			// Values that agree with an in-range one in their low bits, in their
			// absolute value, or up to a machine word.
			for _, in := range []*big.Int{zk.B(0), zk.B(1), new(big.Int).Sub(zk.Pow2(n), zk.B(1)), new(big.Int).Rsh(zk.Pow2(n), 1)} {
				for _, k := range []uint{n, n + 1, n + 2, 2 * n, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1024, 1030, 2048, 4100} {
					if k < n {
						continue
					}
					xs = append(xs, new(big.Int).Add(in, zk.Pow2(k)), new(big.Int).Sub(in, zk.Pow2(k)), new(big.Int).Neg(new(big.Int).Add(in, zk.Pow2(k))))
				}
				xs = append(xs, new(big.Int).Neg(in))
			}
			for _, x := range zk.Uniq(xs) {
				if new(big.Int).Mod(x, zk.SecpN).Cmp(zk.Pow2(n)) < 0 {
					continue
				}
				x := x
				c.Case(fmt.Sprintf("N=%d", n), x.String(), func(t *mc.T) { try(t, x, n) })
			}
			// Boundary answers of the random source.
			if n <= 8 || c.Thorough {
				for k := 0; k < 2*int(n)+6; k++ {
					for _, v := range []*big.Int{zk.B(0), zk.B(1)} {
						for _, x := range []*big.Int{zk.B(-1), zk.Pow2(n)} {
							if n == 8 && !c.Thorough && (v.Sign() != 0 || x.Sign() < 0) {
								continue
							}
							k, v, x := k, v, x
							c.Case(fmt.Sprintf("N=%d draws", n), fmt.Sprintf("x=%v draw %d = %v", x, k, v), func(t *mc.T) {
								tape := mc.NewTape(c.Seed)
								tape.Answer = map[int][]byte{k: v.Bytes()}
								mc.UseTape(tape)
								try(t, x, n)
							})
						}
					}
				}
			}
		}
	})
}
