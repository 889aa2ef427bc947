// C17: encodings of bn256 elements: all elements of an alphabet in every
// representation, and all malformed strings of an alphabet of alterations,
// against an independent membership test.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"

	"zkrpmc/bnx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

// group gives the three groups one interface.
type group struct {
	ref    *bnx.Group
	size   int
	forms  func(k *big.Int) []func() interface{}
	enc    func(a interface{}) []byte
	str    func(a interface{}) string
	dec    func(b []byte, used bool) (interface{}, bool)
	valid  func(b []byte) bool // reference membership test on strings of the right length
	heavy  bool
	canon  func(b []byte) []byte // the canonical encoding of a valid string
	refEnc func(a interface{}) []byte
	double func(a interface{}) interface{}
}

func lt(b []byte) bool {
	for i := 0; i < len(b); i += 32 {
		if new(big.Int).SetBytes(b[i:i+32]).Cmp(zk.BnP) >= 0 {
			return false
		}
	}
	return true
}

func zero(b []byte) bool { return len(bytes.Trim(b, "\x00")) == 0 }

func g1() *group {
	type E = *bn256.G1
	one := make([]byte, 64)
	one[63] = 1
	id := new(bn256.G1).SetInfinity().Marshal()
	g := func(k *big.Int) *bn256.G1 { return new(bn256.G1).ScalarBaseMult(k) }
	return &group{
		ref: bnx.G1, size: 64,
		enc: func(a interface{}) []byte { return a.(E).Marshal() },
		str: func(a interface{}) string { return a.(E).String() },
		dec: func(b []byte, used bool) (interface{}, bool) {
			r := new(bn256.G1)
			if used {
				r = g(zk.B(9))
			}
			x, ok := r.Unmarshal(b)
			return x, ok
		},
		valid: func(b []byte) bool {
			if !lt(b) {
				return false
			}
			if zero(b) || bytes.Equal(b, one) {
				return true
			}
			x, y := new(big.Int).SetBytes(b[:32]), new(big.Int).SetBytes(b[32:])
			y.Mul(y, y)
			x.Exp(x, zk.B(3), nil)
			x.Add(x, zk.B(3))
			return y.Sub(y, x).Mod(y, zk.BnP).Sign() == 0
		},
		canon: func(b []byte) []byte {
			if zero(b) || bytes.Equal(b, one) {
				return id
			}
			return b
		},
		refEnc: func(a interface{}) []byte {
			s := bnx.G1.Enc(a)
			if s == "O" {
				return id
			}
			return zkHex(s)
		},
		double: func(a interface{}) interface{} { return new(bn256.G1).Add(a.(E), a.(E)) },
		forms: func(k *big.Int) []func() interface{} {
			out := []func() interface{}{
				func() interface{} { return g(k) },
				func() interface{} { return new(bn256.G1).Add(g(new(big.Int).Sub(k, zk.B(4))), g(zk.B(4))) },
				func() interface{} { return new(bn256.G1).Neg(g(new(big.Int).Neg(k))) },
				func() interface{} {
					return new(bn256.G1).ScalarMult(g(zk.B(3)), new(big.Int).Mul(k, new(big.Int).ModInverse(zk.B(3), zk.BnN)))
				},
				func() interface{} { x := g(k); x.Marshal(); _ = x.String(); return x },
			}
			if new(big.Int).Mod(k, zk.BnN).Sign() == 0 {
				out = append(out, func() interface{} { return new(bn256.G1).SetInfinity() }, func() interface{} { x := g(zk.B(8)); x.SetZero(); return x },
					func() interface{} { x := g(zk.B(8)); return x.ScalarMult(x, zk.B(0)) }, func() interface{} { x := g(zk.B(8)); return x.Add(x, g(zk.B(-8))) })
			}
			return out
		},
	}
}

func zkHex(s string) []byte {
	b := zk.Hex(s).Bytes()
	return append(make([]byte, len(s)/2-len(b)), b...)
}

func g2() *group {
	type E = *bn256.G2
	id := new(bn256.G2).SetInfinity().Marshal()
	g := func(k *big.Int) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(k) }
	return &group{
		ref: bnx.G2, size: 128, heavy: true,
		enc: func(a interface{}) []byte { return a.(E).Marshal() },
		str: func(a interface{}) string { return a.(E).String() },
		dec: func(b []byte, used bool) (interface{}, bool) {
			r := new(bn256.G2)
			if used {
				r = g(zk.B(9))
			}
			x, ok := r.Unmarshal(b)
			return x, ok
		},
		valid: func(b []byte) bool {
			if !lt(b) {
				return false
			}
			if zero(b) {
				return true
			}
			c := func(i int) *big.Int { return new(big.Int).SetBytes(b[32*i : 32*i+32]) }
			q := bnx.T{X: &bnx.F2{A: c(1), B: c(0)}, Y: &bnx.F2{A: c(3), B: c(2)}}
			if !bnx.OnTwist(q) {
				return false
			}
			// Multiplied by the order (Mul reduces scalars, so add once more).
			r := bnx.G2.Add(bnx.G2.Mul(q, new(big.Int).Sub(zk.BnN, zk.B(1))), q)
			return bnx.G2.Enc(r) == "O"
		},
		canon: func(b []byte) []byte { return b },
		refEnc: func(a interface{}) []byte {
			s := bnx.G2.Enc(a)
			if s == "O" {
				return id
			}
			return zkHex(s)
		},
		double: func(a interface{}) interface{} { return new(bn256.G2).Add(a.(E), a.(E)) },
		forms: func(k *big.Int) []func() interface{} {
			out := []func() interface{}{
				func() interface{} { return g(k) },
				func() interface{} { return new(bn256.G2).Add(g(new(big.Int).Sub(k, zk.B(4))), g(zk.B(4))) },
				func() interface{} { return new(bn256.G2).Neg(g(new(big.Int).Neg(k))) },
				func() interface{} { x := g(k); x.Marshal(); _ = x.String(); return x },
			}
			if new(big.Int).Mod(k, zk.BnN).Sign() == 0 {
				out = append(out, func() interface{} { return new(bn256.G2).SetInfinity() }, func() interface{} { x := g(zk.B(8)); return x.ScalarMult(x, zk.B(0)) },
					func() interface{} { x := g(zk.B(8)); return x.Add(x, g(zk.B(-8))) }, func() interface{} { return g(zk.BnN) })
			}
			return out
		},
	}
}

func gt() *group {
	type E = *bn256.GT
	ref := bnx.GT()
	gen := bn256.Pair(new(bn256.G1).ScalarBaseMult(zk.B(1)), new(bn256.G2).ScalarBaseMult(zk.B(1)))
	g := func(k *big.Int) *bn256.GT { return new(bn256.GT).ScalarMult(gen, k) }
	return &group{
		ref: ref, size: 384, heavy: true,
		enc: func(a interface{}) []byte { return a.(E).Marshal() },
		str: func(a interface{}) string { return a.(E).String() },
		dec: func(b []byte, used bool) (interface{}, bool) {
			r := new(bn256.GT)
			if used {
				r = g(zk.B(9))
			}
			x, ok := r.Unmarshal(b)
			return x, ok
		},
		valid: func(b []byte) bool {
			if !lt(b) {
				return false
			}
			f := bnx.DecodeGT(b)
			r := ref.Add(ref.Mul(f, new(big.Int).Sub(zk.BnN, zk.B(1))), f)
			return ref.Enc(r) == ref.Enc(ref.Zero)
		},
		canon:  func(b []byte) []byte { return b },
		refEnc: func(a interface{}) []byte { return zkHex(ref.Enc(a)) },
		double: func(a interface{}) interface{} { return new(bn256.GT).Add(a.(E), a.(E)) },
		forms: func(k *big.Int) []func() interface{} {
			return []func() interface{}{
				func() interface{} { return g(k) },
				func() interface{} { return new(bn256.GT).Add(g(new(big.Int).Sub(k, zk.B(4))), g(zk.B(4))) },
				func() interface{} { return new(bn256.GT).Neg(g(new(big.Int).Neg(k))) },
				func() interface{} {
					return bn256.Pair(new(bn256.G1).ScalarBaseMult(k), new(bn256.G2).ScalarBaseMult(zk.B(1)))
				},
				func() interface{} { x := g(k); x.Marshal(); _ = x.String(); x.IsOne(); return x },
			}
		},
	}
}

func key(k *big.Int) string {
	s := k.Text(16)
	if len(s) > 24 {
		s = s[:10] + ".." + s[len(s)-10:]
	}
	return s
}

func bad(t *mc.T, g *group, what string, b []byte) {
	in := append([]byte(nil), b...)
	x, ok := g.dec(in, false)
	t.Check(bytes.Equal(in, b), "decoding %s changes its input", what)
	t.Eval(1)
	t.NonTrivial(1)
	t.Check(!ok, "decoding %s is accepted", what)
	_ = x
}

// altered checks a string of the right length of which the reference decides.
func altered(t *mc.T, g *group, what string, b []byte) {
	x, ok := g.dec(append([]byte(nil), b...), false)
	t.Eval(1)
	t.NonTrivial(1)
	if !ok {
		// Refused: it must not be a valid encoding. (Membership by accident is
		// checked only in G1, where it is cheap.)
		if !g.heavy {
			t.Check(!g.valid(b), "%s: %s is refused, but it encodes an element", g.ref.Name, what)
		}
		return
	}
	t.Check(g.valid(b), "%s: %s is accepted", g.ref.Name, what)
	t.Check(bytes.Equal(g.enc(x), g.canon(b)), "%s: %s is accepted and encoded as %x", g.ref.Name, what, g.enc(x))
}

func explore(c *mc.Ctx, g *group, ks []*big.Int, full bool) {
	name := g.ref.Name
	for i := range ks {
		k := ks[i]
		c.Case(name+" elements", key(k), func(t *mc.T) {
			want := g.refEnc(g.ref.Exp(k))
			str := ""
			for f, mk := range g.forms(k) {
				x := mk()
				s := g.str(x)
				b := g.enc(x)
				t.Check(bytes.Equal(b, want), "%s: form %d of %v is encoded as %x, want %x", name, f, k, b, want)
				t.Check(bytes.Equal(g.enc(x), b) && g.str(x) == s, "%s: encoding form %d of %v twice gives two results", name, f, k)
				y := mk()
				t.Check(bytes.Equal(g.enc(y), b) && g.str(y) == s, "%s: the encoding of form %d of %v depends on whether it was printed before", name, f, k)
				if f == 0 {
					str = s
				}
				t.Check(s == str, "%s: form %d of %v prints as %s, form 0 as %s", name, f, k, s, str)
				for _, used := range []bool{false, true} {
					z, ok := g.dec(b, used)
					t.Check(ok, "%s: the encoding %x of form %d of %v is refused", name, b, f, k)
					t.Check(bytes.Equal(g.enc(z), want) && g.str(z) == str, "%s: decoding the encoding of form %d of %v gives another element", name, f, k)
					t.Check(bytes.Equal(g.enc(g.double(z)), g.refEnc(g.ref.Exp(new(big.Int).Lsh(k, 1)))), "%s: the element decoded from form %d of %v does not behave like it", name, f, k)
				}
				// The encoding is a copy.
				for j := range b {
					b[j] ^= 0xff
				}
				t.Check(bytes.Equal(g.enc(x), want), "%s: the encoding of form %d of %v shares memory with it", name, f, k)
				t.Eval(1)
				t.NonTrivial(1)
			}
			// Different elements have different encodings and strings.
			d := g.forms(new(big.Int).Add(k, zk.B(1)))[0]()
			t.Check(!bytes.Equal(g.enc(d), want) && g.str(d) != str, "%s: %v and its successor are encoded alike", name, k)
			n := g.forms(new(big.Int).Neg(k))[0]()
			t.Check(new(big.Int).Mod(new(big.Int).Lsh(k, 1), zk.BnN).Sign() == 0 || !bytes.Equal(g.enc(n), want) && g.str(n) != str, "%s: %v and its opposite are encoded alike", name, k)
		})
	}
	// Elements of which some coordinate starts with zero bytes, by the reference.
	{
		lim := int64(1 << 12)
		if c.Thorough {
			lim = 1 << 15
		}
		a := g.ref.Zero
		found := map[string]bool{}
		for k := int64(1); k < lim; k++ {
			a = g.ref.Add(a, g.ref.Gen)
			b := g.refEnc(a)
			for i := 0; i < len(b); i += 32 {
				z := 0
				for z < 31 && b[i+z] == 0 {
					z++
				}
				id := fmt.Sprint(i/32, z, b[i+z] >= 128)
				if z == 0 && b[i] >= 8 || found[id] {
					continue
				}
				found[id] = true
				k, i := k, i
				c.Case(name+" elements with short coordinates", fmt.Sprintf("coordinate %d has %d zero bytes and then %02x", i/32, z, b[i+z]), func(t *mc.T) {
					for f, mk := range g.forms(zk.B(k)) {
						x := mk()
						e := g.enc(x)
						t.Check(bytes.Equal(e, b), "%s: form %d of %d is encoded as %x, want %x", name, f, k, e, b)
						s := g.str(x)
						for _, used := range []bool{false, true} {
							z, ok := g.dec(e, used)
							t.Check(ok, "%s: the encoding of form %d of %d is refused", name, f, k)
							t.Check(bytes.Equal(g.enc(z), b) && g.str(z) == s, "%s: decoding the encoding of form %d of %d gives another element", name, f, k)
							t.Check(bytes.Equal(g.enc(g.double(z)), g.refEnc(g.ref.Exp(zk.B(2*k)))), "%s: the element decoded from form %d of %d does not behave like it", name, f, k)
						}
						t.Eval(1)
						t.NonTrivial(1)
						if g.heavy && f == 1 {
							break
						}
					}
				})
			}
		}
	}
	enc := func(k int64) []byte { return g.enc(g.forms(zk.B(k))[0]()) }
	c.Case(name+" lengths", "", func(t *mc.T) {
		for _, k := range []int64{0, 1, 2} {
			b := enc(k)
			for n := 0; n < len(b); n++ {
				bad(t, g, fmt.Sprintf("the first %d bytes of an encoding in %s", n, name), b[:n])
				bad(t, g, fmt.Sprintf("the last %d bytes of an encoding in %s", n, name), b[len(b)-n:])
			}
			for n := 1; n < 2*len(b); n++ {
				bad(t, g, fmt.Sprintf("an encoding in %s with %d more bytes", name, n), append(append([]byte(nil), b...), make([]byte, n)...))
				bad(t, g, fmt.Sprintf("an encoding in %s after %d more bytes", name, n), append(make([]byte, n), b...))
			}
		}
		bad(t, g, "nil", nil)
	})
	// Coordinates not below the prime.
	for _, k := range []int64{0, 1, 2, 3} {
		k := k
		c.Case(name+" coordinates not reduced", fmt.Sprint(k), func(t *mc.T) {
			b := enc(k)
			for i := 0; i < len(b); i += 32 {
				v := new(big.Int).SetBytes(b[i : i+32])
				for m := int64(1); m < 6; m++ {
					w := new(big.Int).Add(v, new(big.Int).Mul(zk.B(m), zk.BnP))
					if w.BitLen() > 256 {
						break
					}
					a := append([]byte(nil), b...)
					w.FillBytes(a[i : i+32])
					bad(t, g, fmt.Sprintf("%s: %d with coordinate %d plus %d times the prime", name, k, i/32, m), a)
				}
				for _, v := range []*big.Int{zk.BnP, new(big.Int).Sub(zk.Pow2(256), zk.B(1)), zk.B(0), zk.B(1), new(big.Int).Sub(zk.BnP, zk.B(1)), new(big.Int).Sub(zk.BnP, v)} {
					a := append([]byte(nil), b...)
					if v.Sign() >= 0 && v.BitLen() <= 256 {
						v.FillBytes(a[i : i+32])
						if !bytes.Equal(a, b) {
							altered(t, g, fmt.Sprintf("%d with coordinate %d replaced by %v", k, i/32, v), a)
						}
					}
				}
				for j := 0; j < len(b); j += 32 {
					a := append([]byte(nil), b...)
					copy(a[i:i+32], b[j:j+32])
					copy(a[j:j+32], b[i:i+32])
					if !bytes.Equal(a, b) {
						altered(t, g, fmt.Sprintf("%d with coordinates %d and %d exchanged", k, i/32, j/32), a)
					}
					copy(a[i:i+32], b[j:j+32])
					copy(a[j:j+32], b[j:j+32])
					if !bytes.Equal(a, b) {
						altered(t, g, fmt.Sprintf("%d with coordinate %d copied to %d", k, j/32, i/32), a)
					}
				}
			}
			for i := 0; i < len(b); i += 32 {
				for _, other := range []int64{5, -1, 0} {
					o := enc(other)
					a := append([]byte(nil), b...)
					copy(a[i:i+32], o[i:i+32])
					if !bytes.Equal(a, b) && !bytes.Equal(a, o) {
						altered(t, g, fmt.Sprintf("%d with coordinate %d of %d", k, i/32, other), a)
					}
				}
			}
		})
	}
	// Bytes.
	for i := 0; i < g.size; i++ {
		i := i
		c.Case(name+" bytes", fmt.Sprint(i), func(t *mc.T) {
			for _, k := range []int64{0, 1, 2} {
				b := enc(k)
				for v := 1; v < 256; v++ {
					if !full && !c.Thorough && (zk.Popcount(v) != 1 && v != 255 || k == 2) {
						continue
					}
					a := append([]byte(nil), b...)
					a[i] ^= byte(v)
					altered(t, g, fmt.Sprintf("%d with byte %d changed by %02x", k, i, v), a)
				}
			}
		})
	}
}

// outside lists strings of points on the curve, or of field elements, outside the group.
func outside(c *mc.Ctx) {
	g := g2()
	n := 0
	for x := int64(0); x < 40; x++ {
		for z := int64(0); z < 3; z++ {
			// x + z i: solve for y by a square root in F_p2.
			q := &bnx.F2{A: zk.B(x), B: zk.B(z)}
			y := bnx.SqrtTwist(q)
			if y == nil {
				continue
			}
			b := zkHex(bnx.G2.Enc(bnx.T{X: q, Y: y}))
			n++
			c.Case("points of the twist outside G2", fmt.Sprintf("%d+%di", x, z), func(t *mc.T) {
				t.Check(!g.valid(b), "the reference finds it inside")
				bad(t, g, fmt.Sprintf("a point of the twist outside G2 with x = %d+%di", x, z), b)
				// Plus an element of the group.
				p := bnx.G2.Add(bnx.T{X: q, Y: y}, bnx.G2.Gen)
				bad(t, g, "its sum with the generator", zkHex(bnx.G2.Enc(p)))
				// A point of the cofactor subgroup.
				co := bnx.G2.Add(bnx.G2.Mul(bnx.T{X: q, Y: y}, new(big.Int).Sub(zk.BnN, zk.B(1))), bnx.T{X: q, Y: y})
				if s := bnx.G2.Enc(co); s != "O" {
					bad(t, g, "a point of the cofactor subgroup", zkHex(s))
				}
			})
		}
	}
	h := gt()
	c.Case("field elements outside GT", "", func(t *mc.T) {
		for _, e := range bnx.Outside12(h.ref) {
			b := bnx.EncodeGT(e)
			t.Check(!h.valid(b), "the reference finds it inside")
			bad(t, h, fmt.Sprintf("a field element outside GT: %x", b), b)
		}
	})
}

// assign gives an element that already holds something the value k, in five ways.
func assign(x interface{}, k *big.Int, how int) {
	m := new(big.Int).Neg(k)
	switch x := x.(type) {
	case *bn256.G1:
		g := func(k *big.Int) *bn256.G1 { return new(bn256.G1).ScalarBaseMult(k) }
		switch how {
		case 0:
			x.ScalarBaseMult(k)
		case 1:
			x.Neg(g(m))
		case 2:
			x.Add(g(new(big.Int).Sub(k, zk.B(9))), g(zk.B(9)))
		case 3:
			x.ScalarMult(g(zk.B(1)), k)
		case 4:
			x.Unmarshal(g(k).Marshal())
		case 5:
			x.ScalarBaseMult(m)
			x.Marshal()
			x.Neg(x)
		case 6:
			x.SetInfinity()
			x.Marshal()
			x.Add(x, g(k))
		}
	case *bn256.G2:
		g := func(k *big.Int) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(k) }
		switch how {
		case 0:
			x.ScalarBaseMult(k)
		case 1:
			x.Neg(g(m))
		case 2:
			x.Add(g(new(big.Int).Sub(k, zk.B(9))), g(zk.B(9)))
		case 3:
			x.ScalarMult(g(zk.B(1)), k)
		case 4:
			x.Unmarshal(g(k).Marshal())
		case 5:
			x.ScalarBaseMult(m)
			x.Marshal()
			x.Neg(x)
		case 6:
			x.SetInfinity()
			x.Marshal()
			x.Add(x, g(k))
		}
	case *bn256.GT:
		e := bn256.Pair(new(bn256.G1).ScalarBaseMult(zk.B(1)), new(bn256.G2).ScalarBaseMult(zk.B(1)))
		g := func(k *big.Int) *bn256.GT { return new(bn256.GT).ScalarMult(e, k) }
		switch how {
		case 0:
			x.ScalarMult(e, k)
		case 1:
			x.Neg(g(m))
		case 2:
			x.Add(g(new(big.Int).Sub(k, zk.B(9))), g(zk.B(9)))
		case 3:
			x.Exp(e, k)
		case 4:
			x.Unmarshal(g(k).Marshal())
		case 5:
			x.ScalarMult(e, m)
			x.Marshal()
			x.Invert(x)
		case 6:
			x.ScalarMult(e, zk.B(0))
			x.Marshal()
			x.Add(x, g(k))
		}
	}
}

// again encodes and decodes variables that are given one value after the other.
func again(c *mc.Ctx, g *group) {
	ks := []*big.Int{zk.B(0), zk.B(1), zk.B(-1), zk.B(2), zk.B(12345)}
	want := make([]string, len(ks))
	strs := make([]string, len(ks))
	for i := range ks {
		want[i] = fmt.Sprintf("%x", g.refEnc(g.ref.Exp(ks[i])))
		strs[i] = g.str(g.forms(ks[i])[0]())
	}
	hows := 7
	for i := range ks {
		i := i
		c.Case(g.ref.Name+" variables used again", key(ks[i]), func(t *mc.T) {
			for j := range ks {
				for how := 0; how < hows; how++ {
					x := g.forms(zk.B(3))[0]()
					set := func(i int) { assign(x, ks[i], how) }
					mc.Reuse{Set: set,
						Call: func() interface{} { return g.enc(x) },
						Want: func(i int) string { return want[i] },
						Read: func(r interface{}) string { return fmt.Sprintf("%x", r) },
						Scribble: func(r interface{}) {
							for k, b := 0, r.([]byte); k < len(b); k++ {
								b[k] ^= 0x5a
							}
						},
					}.Run(t, fmt.Sprintf("%s: encoding (values given in way %d)", g.ref.Name, how), i, j)
					mc.Reuse{Set: set, Call: func() interface{} { return g.str(x) }, Want: func(i int) string { return strs[i] }, Read: func(r interface{}) string { return r.(string) }}.Run(t, fmt.Sprintf("%s: printing (values given in way %d)", g.ref.Name, how), i, j)
				}
				// One buffer for all encodings.
				buf := make([]byte, g.size)
				for _, used := range []bool{false, true} {
					mc.Reuse{
						Set:    func(i int) { copy(buf, zkHex(want[i])) },
						Intact: func(i int) bool { return bytes.Equal(buf, zkHex(want[i])) },
						Call: func() interface{} {
							x, ok := g.dec(buf, used)
							if !ok {
								t.Failf("%s: the encoding %x is refused", g.ref.Name, buf)
							}
							return x
						},
						Want:     func(i int) string { return want[i] },
						Read:     func(r interface{}) string { return fmt.Sprintf("%x", g.enc(zk.Clone(r))) },
						Scribble: func(r interface{}) { g.double(r); assign(r, zk.B(77), 5); assign(r, zk.B(78), 0) },
					}.Run(t, g.ref.Name+": decoding", i, j)
				}
			}
		})
	}
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		again(c, g1())
		again(c, g2())
		again(c, gt())
		explore(c, g1(), zk.Scalars(zk.BnN, 60, true), true)
		ks := zk.Scalars(zk.BnN, 10, false)
		if !c.Thorough {
			var f []*big.Int
			for i, k := range ks {
				if k.BitLen() < 6 || i%4 == 0 {
					f = append(f, k)
				}
			}
			ks = f
		}
		explore(c, g2(), ks, false)
		explore(c, gt(), ks, false)
		outside(c)
	})
}
