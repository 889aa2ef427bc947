package main

import (
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"

	"zkrpmc/cx"
)

type params struct{ p interface{} }

func pOf(p interface{}) params { return params{p} }

func (p params) prove(x int64, r *big.Int) (interface{}, error) { return cx.ProveSet(x, r, p.p) }
func (p params) verify(proof interface{}) (bool, error)         { return cx.VerifySet(proof, p.p) }

func inf(proof interface{}) bool {
	v, ok := cx.Get(proof, "V").(*bn256.G2)
	return ok && v.IsZero()
}
