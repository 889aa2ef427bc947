package main

import (
	"crypto/sha256"
	"math/big"

	"zkrpmc/mc"
	"zkrpmc/zk"
)

func sha(s string) []byte { h := sha256.Sum256([]byte(s)); return h[:] }

// record installs a tape and returns a function that lists what was drawn from it.
func record() func() []*big.Int {
	tape := mc.NewTape("record")
	var out []*big.Int
	tape.All = func(k int, p []byte) {
		tape.Default(k, p)
		x := new(big.Int).SetBytes(p)
		out = append(out, x, new(big.Int).Mod(x, zk.BnN), new(big.Int).ModInverse(x, zk.BnN))
	}
	mc.UseTape(tape)
	return func() []*big.Int {
		var r []*big.Int
		for _, x := range out {
			if x != nil {
				r = append(r, x)
			}
		}
		return r
	}
}
