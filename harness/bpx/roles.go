package bpx

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"

	"zkrpmc/mc"
	"zkrpmc/zk"
)

// Script answers the k-th random read with the k-th number, big endian.
func Script(vals []*big.Int) *mc.Tape {
	t := mc.NewTape("script")
	t.All = func(k int, p []byte) {
		if k >= len(vals) {
			mc.NewTape("beyond the script").Default(k, p)
			return
		}
		b := vals[k].Bytes()
		for i := range p {
			p[i] = 0
		}
		if len(b) > len(p) {
			b = b[len(b)-len(p):]
		}
		copy(p[len(p)-len(b):], b)
	}
	return t
}

// Run proves with scripted draws.
func Run(x *big.Int, par bulletproofs.BulletProofSetupParams, vals []*big.Int) (p bulletproofs.BulletProof, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	mc.UseTape(Script(vals))
	return bulletproofs.Prove(x, par)
}

// Draws makes a script as long as proving needs. The values are below the order.
func Draws(x *big.Int, par bulletproofs.BulletProofSetupParams, label string) []*big.Int {
	probe := mc.NewTape(label)
	mc.UseTape(probe)
	if _, err := bulletproofs.Prove(x, par); err != nil {
		return nil
	}
	out := make([]*big.Int, probe.Reads())
	t := mc.NewTape(label)
	for k := range out {
		b := make([]byte, 32)
		t.Default(k, b)
		out[k] = new(big.Int).Mod(new(big.Int).SetBytes(b), Curve.N)
		if out[k].Sign() == 0 {
			out[k].SetInt64(1)
		}
	}
	return out
}

// Roles says what each random draw of a proof is for.
type Roles struct {
	Gamma, Alpha, Rho, Tau1, Tau2 int
	SL, SR                        []int
}

// With is vals with draw k replaced.
func With(vals []*big.Int, k int, v *big.Int) []*big.Int {
	out := append([]*big.Int(nil), vals...)
	out[k] = v
	return out
}

// Plus is vals with d added to draw k, modulo the order.
func Plus(vals []*big.Int, k int, d *big.Int) []*big.Int {
	return With(vals, k, new(big.Int).Mod(new(big.Int).Add(vals[k], d), Curve.N))
}

func diff(a, b *p256.P256) zk.Pt { return Curve.Add(Pt(a), Curve.Neg(Pt(b))) }

// FindRoles finds out, from the change of the commitments when one draw
// changes, what every draw is for. A draw that is used for anything but one
// blinding, or a commitment without a draw of its own, is reported.
func FindRoles(x *big.Int, par bulletproofs.BulletProofSetupParams, vals []*big.Int) (r Roles, bad string) {
	n := int(par.N)
	r = Roles{-1, -1, -1, -1, -1, make([]int, n), make([]int, n)}
	for i := range r.SL {
		r.SL[i], r.SR[i] = -1, -1
	}
	base, err := Run(x, par, vals)
	if err != nil {
		return r, err.Error()
	}
	H := Pt(par.H)
	claim := func(slot *int, k int, what string) string {
		if *slot >= 0 {
			return fmt.Sprintf("draws %d and %d both are %s", *slot, k, what)
		}
		*slot = k
		return ""
	}
	for k := range vals {
		p, err := Run(x, par, Plus(vals, k, zk.B(1)))
		if err != nil {
			return r, err.Error()
		}
		v, a, s, t1, t2 := diff(p.V, base.V), diff(p.A, base.A), diff(p.S, base.S), diff(p.T1, base.T1), diff(p.T2, base.T2)
		switch {
		case v.X != nil:
			if !Curve.Eq(v, H) || a.X != nil || s.X != nil {
				return r, fmt.Sprintf("draw %d changes V but not as a blinding of V only", k)
			}
			bad = claim(&r.Gamma, k, "the blinding of V")
		case a.X != nil:
			if !Curve.Eq(a, H) || s.X != nil {
				return r, fmt.Sprintf("draw %d changes A but not as a blinding of A only", k)
			}
			bad = claim(&r.Alpha, k, "the blinding of A")
		case s.X != nil:
			found := false
			if Curve.Eq(s, H) {
				found = true
				bad = claim(&r.Rho, k, "the blinding of S")
			}
			for i := 0; i < n && !found; i++ {
				if Curve.Eq(s, Pt(par.Gg[i])) {
					found = true
					bad = claim(&r.SL[i], k, fmt.Sprintf("sL[%d]", i))
				} else if Curve.Eq(s, Pt(par.Hh[i])) {
					found = true
					bad = claim(&r.SR[i], k, fmt.Sprintf("sR[%d]", i))
				}
			}
			if !found {
				return r, fmt.Sprintf("draw %d changes S but not as one of its exponents", k)
			}
		case t1.X != nil && t2.X == nil:
			if !Curve.Eq(t1, H) {
				return r, fmt.Sprintf("draw %d changes T1 but not as its blinding", k)
			}
			bad = claim(&r.Tau1, k, "the blinding of T1")
		case t2.X != nil && t1.X == nil:
			if !Curve.Eq(t2, H) {
				return r, fmt.Sprintf("draw %d changes T2 but not as its blinding", k)
			}
			bad = claim(&r.Tau2, k, "the blinding of T2")
		case t1.X != nil:
			return r, fmt.Sprintf("draw %d is used for both T1 and T2", k)
		default:
			return r, fmt.Sprintf("draw %d changes no commitment", k)
		}
		if bad != "" {
			return r, bad
		}
	}
	for what, k := range map[string]int{"V": r.Gamma, "A": r.Alpha, "S": r.Rho, "T1": r.Tau1, "T2": r.Tau2} {
		if k < 0 {
			return r, what + " has no blinding of its own"
		}
	}
	for i := range r.SL {
		if r.SL[i] < 0 || r.SR[i] < 0 {
			return r, fmt.Sprintf("element %d of the vector that masks the secret is not random", i)
		}
	}
	return r, ""
}

// Scalars modulo the order.
func SAdd(xs ...*big.Int) *big.Int { return sadd(xs...) }
func SMul(xs ...*big.Int) *big.Int { return smul(xs...) }
func SNeg(x *big.Int) *big.Int     { return sneg(x) }
func SInv(x *big.Int) *big.Int     { return sinv(x) }

// Challenge recovers the challenge x of a proof and the square of z, from the draws.
func Challenge(p *bulletproofs.BulletProof, r Roles, vals []*big.Int) (x, z2 *big.Int) {
	ri := sinv(vals[r.Rho])
	gi := sinv(vals[r.Gamma])
	if ri == nil || gi == nil {
		return nil, nil
	}
	x = smul(sadd(p.Mu, sneg(vals[r.Alpha])), ri)
	z2 = smul(sadd(p.Taux, sneg(smul(vals[r.Tau2], x, x)), sneg(smul(vals[r.Tau1], x))), gi)
	return
}
