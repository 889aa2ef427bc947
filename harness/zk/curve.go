package zk

import "math/big"

// Curve is an independent reference implementation of y^2 = x^3 + 7.
type Curve struct {
	P, N   *big.Int
	Gx, Gy *big.Int
}

// Pt is a point of a reference curve; X is nil at infinity.
type Pt struct{ X, Y *big.Int }

// Secp is secp256k1.
var Secp = &Curve{SecpP, SecpN, SecpX, SecpY}

// G is the base point.
func (c *Curve) G() Pt { return Pt{c.Gx, c.Gy} }

// Add is the complete addition, from the textbook formulas.
func (c *Curve) Add(a, b Pt) Pt {
	if a.X == nil {
		return b
	}
	if b.X == nil {
		return a
	}
	m := func(x *big.Int) *big.Int { return x.Mod(x, c.P) }
	var num, den *big.Int
	if a.X.Cmp(b.X) == 0 {
		if m(new(big.Int).Add(a.Y, b.Y)).Sign() == 0 {
			return Pt{}
		}
		num = m(new(big.Int).Mul(B(3), new(big.Int).Mul(a.X, a.X)))
		den = new(big.Int).Lsh(a.Y, 1)
	} else {
		num = m(new(big.Int).Sub(b.Y, a.Y))
		den = m(new(big.Int).Sub(b.X, a.X))
	}
	l := m(new(big.Int).Mul(num, new(big.Int).ModInverse(den, c.P)))
	x := m(new(big.Int).Sub(new(big.Int).Mul(l, l), new(big.Int).Add(a.X, b.X)))
	y := m(new(big.Int).Sub(new(big.Int).Mul(l, new(big.Int).Sub(a.X, x)), a.Y))
	return Pt{x, y}
}

// Neg is the inverse.
func (c *Curve) Neg(a Pt) Pt {
	if a.X == nil {
		return a
	}
	return Pt{a.X, new(big.Int).Mod(new(big.Int).Neg(a.Y), c.P)}
}

// Mul is scalar multiplication by any integer.
func (c *Curve) Mul(a Pt, k *big.Int) Pt {
	k = new(big.Int).Mod(k, c.N)
	r := Pt{}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.Add(r, r)
		if k.Bit(i) == 1 {
			r = c.Add(r, a)
		}
	}
	return r
}

// On reports whether a is on the curve, with reduced coordinates.
func (c *Curve) On(a Pt) bool {
	if a.X == nil {
		return true
	}
	if a.X.Sign() < 0 || a.Y.Sign() < 0 || a.X.Cmp(c.P) >= 0 || a.Y.Cmp(c.P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(a.Y, a.Y)
	r := new(big.Int).Exp(a.X, B(3), nil)
	r.Add(r, B(7))
	return l.Sub(l, r).Mod(l, c.P).Sign() == 0
}

// Eq compares points.
func (c *Curve) Eq(a, b Pt) bool {
	if a.X == nil || b.X == nil {
		return a.X == nil && b.X == nil
	}
	return a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
}

// Tiny returns the curve over the field of p elements, of prime order n, with
// the first point that has a square root as base point.
func Tiny(p, n int64) *Curve {
	for x := int64(1); x < p; x++ {
		for y := int64(1); y < p; y++ {
			if (y*y-x*x%p*x-7)%p == 0 {
				return &Curve{B(p), B(n), B(x), B(y)}
			}
		}
	}
	panic("no point")
}
