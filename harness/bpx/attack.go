package bpx

import (
	"crypto/sha256"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"
)

// This file has a prover of its own, which follows the format of the library's
// proofs but not its rules: it can commit to what an honest prover must not,
// and choose elements after the challenges that fail to cover them.

// Elem names the group elements that a challenge can cover.
type Elem int

const (
	EV Elem = iota
	EA
	ES
	ET1
	ET2
)

// Hyp is a hypothesis on what the challenges cover.
type Hyp struct {
	YZ []Elem // covered by y and z
	X  []Elem // covered by x
	// E gives the power of y that digit i is weighed with (nil: i).
	E  func(i int) int
	LR string // what the rounds of the inner product argument cover: a string over "LRP"
}

// Sound is what the challenges of the library cover.
var Sound = Hyp{YZ: []Elem{EA, ES, EV}, X: []Elem{ET1, ET2, EV, EA, ES}, LR: "LRP"}

// Without is the hypothesis that the challenges do not cover an element.
func (h Hyp) Without(e Elem, yz, x bool) Hyp {
	drop := func(l []Elem, on bool) []Elem {
		var out []Elem
		for _, k := range l {
			if k != e || !on {
				out = append(out, k)
			}
		}
		return out
	}
	return Hyp{YZ: drop(h.YZ, yz), X: drop(h.X, x), LR: h.LR, E: h.E}
}

func hash(ps ...*p256.P256) (*big.Int, *big.Int) {
	var b []byte
	for _, p := range ps {
		b = append(b, p.X.String()...)
		b = append(b, p.Y.String()...)
	}
	h1 := sha256.Sum256(b)
	r1 := new(big.Int).SetBytes(h1[:])
	h2 := sha256.Sum256(append(b, r1.String()...))
	return r1, new(big.Int).SetBytes(h2[:])
}

func haship(g, h []*p256.P256, P *p256.P256, c *big.Int) *big.Int {
	d := sha256.New()
	d.Write([]byte(P.String()))
	for i := range g {
		d.Write([]byte(g[i].String()))
		d.Write([]byte(h[i].String()))
	}
	d.Write([]byte(c.String()))
	s := d.Sum(nil)
	x := new(big.Int).SetBytes(s)
	if s[0]&128 != 0 {
		x.Sub(x, new(big.Int).Lsh(big.NewInt(1), uint(8*len(s))))
	}
	return x
}

// scalars modulo the order
func q() *big.Int { return bulletproofs.ORDER }
func sadd(xs ...*big.Int) *big.Int {
	r := new(big.Int)
	for _, x := range xs {
		r.Add(r, x)
	}
	return r.Mod(r, q())
}
func smul(xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r.Mul(r, x)
		r.Mod(r, q())
	}
	return r
}
func sneg(x *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Neg(x), q()) }
func sinv(x *big.Int) *big.Int {
	return new(big.Int).ModInverse(new(big.Int).Mod(x, q()), q())
}
func dot(a, b []*big.Int) *big.Int {
	r := new(big.Int)
	for i := range a {
		r = sadd(r, smul(a[i], b[i]))
	}
	return r
}

// Exp is g^k and Mul the sum of points.
func Exp(g *p256.P256, k *big.Int) *p256.P256 {
	return new(p256.P256).ScalarMult(g, new(big.Int).Mod(k, q()))
}
func Mul(ps ...*p256.P256) *p256.P256 {
	r := new(p256.P256)
	for _, p := range ps {
		r = new(p256.P256).Multiply(r, p)
	}
	return r
}
func vexp(g []*p256.P256, a []*big.Int) *p256.P256 {
	r := new(p256.P256)
	for i := range g {
		r = Mul(r, Exp(g[i], a[i]))
	}
	return r
}

// Plan is what a malicious prover wants.
type Plan struct {
	N      uint
	V      *big.Int   // the value that the commitment V is to (nil: choose V after the challenges)
	AL, AR []*big.Int // what A commits to
	Hyp    Hyp
	Late   Elem // the element chosen last, when IsLate
	IsLate bool
	LateLR string // "L" or "R": the last round of the inner product argument is fitted
	BadC   bool   // claim another inner product
	// Claim makes the claimed inner product the one that V calls for, although
	// the vectors have another: "claim" says so everywhere, "P" keeps the P of the
	// true one, "U" uses a base for which the true one gives the same P, and
	// "vectors" takes vectors that have the claimed one, but that A and S are not
	// commitments to.
	Claim string
	// Other makes the inner product argument about other vectors with the same
	// product: "negated", "exchanged", "scaled", "moved" (what is added to one
	// product is taken from another) or, with N = 1, the same ones. MuNegated negates mu.
	Other     string
	MuNegated bool
}

// Forge follows the plan. The draws are derived from rnd.
func Forge(p Plan, rnd func() *big.Int) (proof bulletproofs.BulletProof) {
	par := Params(p.N)
	n := int(p.N)
	G := par.G
	H := par.H
	one := big.NewInt(1)
	gamma, alpha, rho, tau1, tau2 := rnd(), rnd(), rnd(), rnd(), rnd()
	sL, sR := make([]*big.Int, n), make([]*big.Int, n)
	for i := range sL {
		sL[i], sR[i] = rnd(), rnd()
	}
	el := map[Elem]*p256.P256{}
	if p.V != nil {
		el[EV] = Mul(Exp(G, p.V), Exp(H, gamma))
	}
	el[EA] = Mul(Exp(H, alpha), vexp(par.Gg, p.AL), vexp(par.Hh, p.AR))
	el[ES] = Mul(Exp(H, rho), vexp(par.Gg, sL), vexp(par.Hh, sR))
	pick := func(es []Elem) []*p256.P256 {
		var out []*p256.P256
		for _, e := range es {
			out = append(out, el[e])
		}
		return out
	}
	y, z := hash(pick(p.Hyp.YZ)...)
	z2 := smul(z, z)
	yp := func(i int) *big.Int {
		if p.Hyp.E != nil {
			i = p.Hyp.E(i)
		}
		return new(big.Int).Exp(y, big.NewInt(int64(i)), q())
	}
	// t(X) = <l(X), r(X)>
	l0, r0, rS := make([]*big.Int, n), make([]*big.Int, n), make([]*big.Int, n)
	ti := big.NewInt(1)
	sumY, sum2 := new(big.Int), new(big.Int)
	for i := range l0 {
		yi := yp(i)
		l0[i] = sadd(p.AL[i], sneg(z))
		r0[i] = sadd(smul(yi, sadd(p.AR[i], z)), smul(z2, ti))
		rS[i] = smul(yi, sR[i])
		sumY, sum2 = sadd(sumY, yi), sadd(sum2, ti)
		ti = smul(ti, big.NewInt(2))
	}
	delta := sadd(smul(sadd(z, sneg(z2)), sumY), sneg(smul(z2, z, sum2)))
	t0, t1, t2 := dot(l0, r0), sadd(dot(l0, rS), dot(sL, r0)), dot(sL, rS)
	if p.V == nil {
		v := smul(sadd(t0, sneg(delta)), sinv(z2))
		el[EV] = Mul(Exp(G, v), Exp(H, gamma))
	}
	el[ET1] = Mul(Exp(G, t1), Exp(H, tau1))
	el[ET2] = Mul(Exp(G, t2), Exp(H, tau2))
	x, _ := hash(pick(p.Hyp.X)...)
	l, r := make([]*big.Int, n), make([]*big.Int, n)
	for i := range l {
		l[i] = sadd(l0[i], smul(sL[i], x))
		r[i] = sadd(r0[i], smul(rS[i], x))
	}
	tprime := dot(l, r)
	taux := sadd(smul(tau2, x, x), smul(tau1, x), smul(z2, gamma))
	mu := sadd(alpha, smul(rho, x))
	hp := make([]*p256.P256, n)
	for i := range hp {
		hp[i] = Exp(par.Hh[i], sinv(yp(i)))
	}
	if p.BadC {
		tprime = sadd(tprime, one)
	}
	if p.Claim != "" {
		tprime = sadd(smul(z2, p.V), delta, smul(t1, x), smul(t2, x, x))
		if p.Claim == "vectors" {
			for i := range l {
				l[i], r[i] = rnd(), rnd()
			}
			r[0] = smul(sadd(tprime, sneg(dot(l, r)), smul(l[0], r[0])), sinv(l[0]))
		}
	}
	if p.IsLate {
		switch p.Late {
		case ET1, ET2:
			// Fit T1 or T2 to condition (65).
			rest := Mul(Exp(el[EV], z2), Exp(G, delta))
			o, oe, fe := el[ET2], smul(x, x), x
			if p.Late == ET2 {
				o, oe, fe = el[ET1], x, smul(x, x)
			}
			rest = Mul(rest, Exp(o, oe))
			lhs := Mul(Exp(G, tprime), Exp(H, taux))
			el[p.Late] = Exp(Mul(lhs, Exp(rest, big.NewInt(-1))), sinv(fe))
		case EV:
			// Fit V to condition (65).
			rest := Mul(Exp(G, delta), Exp(el[ET1], x), Exp(el[ET2], smul(x, x)))
			lhs := Mul(Exp(G, tprime), Exp(H, taux))
			el[EV] = Exp(Mul(lhs, Exp(rest, big.NewInt(-1))), sinv(z2))
		case EA, ES:
			// Condition (65) is met with the value of V; l and r are any vectors
			// with that inner product, and A or S is fitted to condition (67).
			tprime = sadd(smul(z2, p.V), delta, smul(t1, x), smul(t2, x, x))
			for i := range l {
				l[i], r[i] = rnd(), rnd()
			}
			r[0] = smul(sadd(tprime, sneg(dot(l, r)), smul(l[0], r[0])), sinv(l[0]))
			mz := make([]*big.Int, n)
			ex := make([]*big.Int, n)
			ti := big.NewInt(1)
			for i := range mz {
				yi := yp(i)
				mz[i] = sneg(z)
				ex[i] = sadd(smul(z, yi), smul(z2, ti))
				ti = smul(ti, big.NewInt(2))
			}
			rest := Mul(vexp(par.Gg, mz), vexp(hp, ex))
			want := Mul(Exp(H, mu), vexp(par.Gg, l), vexp(hp, r))
			d := Mul(want, Exp(rest, big.NewInt(-1)))
			if p.Late == EA {
				el[EA] = Mul(d, Exp(el[ES], sneg(x)))
			} else {
				el[ES] = Exp(Mul(d, Exp(el[EA], big.NewInt(-1))), sinv(x))
			}
		}
	}
	switch p.Other {
	case "negated":
		for i := range l {
			l[i], r[i] = sneg(l[i]), sneg(r[i])
		}
	case "exchanged":
		l, r = r, l
	case "scaled":
		k := rnd()
		for i := range l {
			l[i], r[i] = smul(l[i], k), smul(r[i], sinv(k))
		}
	case "moved":
		d := rnd()
		l[0] = sadd(l[0], d)
		r[n-1] = smul(sadd(tprime, sneg(dot(l, r)), smul(l[n-1], r[n-1])), sinv(l[n-1]))
	}
	if p.MuNegated {
		mu = sneg(mu)
	}
	commit := Mul(vexp(par.Gg, l), vexp(hp, r))
	ip := forgeIP(par, hp, commit, tprime, l, r, p, rnd)
	proof.V, proof.A, proof.S, proof.T1, proof.T2 = el[EV], el[EA], el[ES], el[ET1], el[ET2]
	proof.Taux, proof.Mu, proof.Tprime, proof.Commit = taux, mu, tprime, commit
	proof.Params = par
	proof.Params.InnerProductParams = ip.Params
	proof.Params.InnerProductParams.P = new(p256.P256)
	proof.InnerProductProof = ip
	return
}

func forgeIP(par bulletproofs.BulletProofSetupParams, hp []*p256.P256, commit *p256.P256, c *big.Int, a, b []*big.Int, p Plan, rnd func() *big.Int) bulletproofs.InnerProductProof {
	var pr bulletproofs.InnerProductProof
	U, _ := p256.MapToGroup(bulletproofs.SEEDU)
	pr.Params = bulletproofs.InnerProductParams{N: int64(len(a)), Cc: c, Uu: U, H: par.H, Gg: par.Gg, Hh: hp}
	u := Exp(U, haship(par.Gg, hp, commit, c))
	P := Mul(commit, Exp(u, c))
	switch p.Claim {
	case "P":
		P = Mul(commit, Exp(u, dot(a, b)))
	case "U":
		u = Exp(u, smul(c, sinv(dot(a, b))))
	}
	pr.Params.P = P
	pr.N = int64(len(a))
	pr.U = u
	g, h := par.Gg, hp
	for len(a) > 1 {
		m := len(a) / 2
		L := Mul(vexp(g[m:], a[:m]), vexp(h[:m], b[m:]), Exp(u, dot(a[:m], b[m:])))
		R := Mul(vexp(g[:m], a[m:]), vexp(h[m:], b[:m]), Exp(u, dot(a[m:], b[:m])))
		var ch []*p256.P256
		for _, k := range p.Hyp.LR {
			ch = append(ch, map[rune]*p256.P256{'L': L, 'R': R, 'P': P}[k])
		}
		x, _ := hash(ch...)
		xi := sinv(x)
		x2, xi2 := smul(x, x), smul(xi, xi)
		var g2, h2 []*p256.P256
		var a2, b2 []*big.Int
		for i := 0; i < m; i++ {
			g2 = append(g2, Mul(Exp(g[i], xi), Exp(g[m+i], x)))
			h2 = append(h2, Mul(Exp(h[i], x), Exp(h[m+i], xi)))
			a2 = append(a2, sadd(smul(a[i], x), smul(a[m+i], xi)))
			b2 = append(b2, sadd(smul(b[i], xi), smul(b[m+i], x)))
		}
		if m == 1 && p.LateLR != "" {
			// Fit L or R of the last round.
			want := Mul(Exp(g2[0], a2[0]), Exp(h2[0], b2[0]), Exp(u, smul(a2[0], b2[0])))
			if p.LateLR == "L" {
				L = Exp(Mul(want, Exp(Mul(P, Exp(R, xi2)), big.NewInt(-1))), sinv(x2))
			} else {
				R = Exp(Mul(want, Exp(Mul(P, Exp(L, x2)), big.NewInt(-1))), sinv(xi2))
			}
		}
		P = Mul(Exp(L, x2), P, Exp(R, xi2))
		g, h, a, b = g2, h2, a2, b2
		pr.Ls, pr.Rs = append(pr.Ls, L), append(pr.Rs, R)
	}
	pr.A, pr.B, pr.Gg, pr.Hh, pr.P = a[0], b[0], g[0], h[0], P
	return pr
}
