// Package bpx has helpers around the bulletproofs package under test.
package bpx

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"

	"zkrpmc/mc"
	"zkrpmc/zk"
)

// Curve is the reference of the curve in use.
var Curve = zk.Secp

// Ns are the supported bit lengths.
var Ns = []uint{1, 2, 4, 8, 16, 32}

// UseTiny instantiates the library over a small curve of prime order (only in
// builds with the pure Go stand-in of the secp256k1 C library).
func UseTiny(p, n int64) {
	Curve = zk.Tiny(p, n)
	c := p256.CURVE
	c.P.Set(Curve.P)
	c.N.Set(Curve.N)
	c.Gx.Set(Curve.Gx)
	c.Gy.Set(Curve.Gy)
	bulletproofs.ORDER.Set(Curve.N)
	cache = map[uint]bulletproofs.BulletProofSetupParams{}
}

// Seeds are the generator seeds that tiny-group checks repeat a failure with:
// in a small group a failure can be the coincidence of a challenge, and only
// one that persists for all seeds counts.
var Seeds = []string{"BulletproofsDoesNotNeedTrustedSetupH", "A", "B", "C", "D", "E", "F", "G"}

// UseSeed changes the seed of the generators.
func UseSeed(s string) {
	bulletproofs.SEEDH = s
	cache = map[uint]bulletproofs.BulletProofSetupParams{}
}

// Persistent runs f under each seed and fails only if it fails for all.
func Persistent(t *mc.T, f func() string) {
	msg := f()
	if msg == "" {
		return
	}
	defer UseSeed(Seeds[0])
	for _, s := range Seeds[1:] {
		UseSeed(s)
		if f() == "" {
			t.Outcome("coincidence in the small group (gone with other generators)")
			return
		}
	}
	t.Failf("%s (with all of %d generator seeds)", msg, len(Seeds))
}

var cache = map[uint]bulletproofs.BulletProofSetupParams{}

// Params is Setup(2^n), computed once.
func Params(n uint) bulletproofs.BulletProofSetupParams {
	if p, ok := cache[n]; ok {
		return p
	}
	p, err := bulletproofs.Setup(int64(1) << n)
	if err != nil {
		panic(err)
	}
	cache[n] = p
	return p
}

// Prove makes a proof, turning a panic into an error.
func Prove(x *big.Int, n uint) (p bulletproofs.BulletProof, err error, panicked bool) {
	params := Params(n)
	defer func() {
		if r := recover(); r != nil {
			err, panicked = fmt.Errorf("panic: %v", r), true
		}
	}()
	p, err = bulletproofs.Prove(x, params)
	return
}

// MustProve makes a proof for an in-range secret with the given tape.
func MustProve(t *mc.T, x *big.Int, n uint, label string) *bulletproofs.BulletProof {
	mc.UseTape(mc.NewTape(label))
	p, err := bulletproofs.Prove(x, Params(n))
	if err != nil {
		t.Failf("Prove(%v) for N=%d: %v", x, n, err)
	}
	return &p
}

// Verify verifies, turning a panic into a message.
func Verify(p *bulletproofs.BulletProof) (ok bool, err error, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			ok, panicked = false, fmt.Sprint(r)
		}
	}()
	ok, err = p.Verify()
	return
}

// Pt converts a point to the reference type.
func Pt(p *p256.P256) zk.Pt {
	if p.X == nil || p.Y == nil || p.X.Sign() == 0 && p.Y.Sign() == 0 {
		return zk.Pt{}
	}
	return zk.Pt{X: p.X, Y: p.Y}
}

// P converts a reference point.
func P(p zk.Pt) *p256.P256 {
	if p.X == nil {
		return &p256.P256{}
	}
	return &p256.P256{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)}
}
