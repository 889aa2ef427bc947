// C19: the two's-complement codec, exhaustively on short inputs and at every
// byte boundary, against an oracle on machine integers.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/util/byteconversion"

	"zkrpmc/mc"
	"zkrpmc/zk"
)

// denotes is the integer that a byte string denotes.
func unsigned(b []byte) *big.Int {
	if len(b) > 64 {
		m := len(b) / 2
		x := unsigned(b[:m])
		return x.Lsh(x, uint(8*(len(b)-m))).Add(x, unsigned(b[m:]))
	}
	x := new(big.Int)
	for _, c := range b {
		x.Lsh(x, 8)
		x.Add(x, zk.B(int64(c)))
	}
	return x
}

func denotes(b []byte) *big.Int {
	x := unsigned(b)
	if b[0] >= 128 {
		x.Sub(x, zk.Pow2(uint(8*len(b))))
	}
	return x
}

// size is the length of the shortest two's-complement string for x.
func size(x *big.Int) int {
	if x.BitLen() > 500 {
		if x.Sign() < 0 {
			return new(big.Int).Not(x).BitLen()/8 + 1
		}
		return x.BitLen()/8 + 1
	}
	for n := 1; ; n++ {
		lim := zk.Pow2(uint(8*n - 1))
		if x.Cmp(lim) < 0 && x.Cmp(new(big.Int).Neg(lim)) >= 0 {
			return n
		}
	}
}

func encode(t *mc.T, x *big.Int) {
	in := new(big.Int).Set(x)
	b := byteconversion.ToByteArray(in)
	t.Check(in.Cmp(x) == 0, "ToByteArray(%v) changes its argument", x)
	t.Check(len(b) == size(x) && denotes(b).Cmp(x) == 0, "ToByteArray(%v) = %x", x, b)
	t.Check(in.Cmp(x) == 0 && scribble(b) && in.Cmp(x) == 0, "the result of ToByteArray(%v) shares memory with its argument", x)
	b = byteconversion.ToByteArray(in)
	y, err := byteconversion.FromByteArray(b)
	t.Check(err == nil && y.Cmp(x) == 0, "FromByteArray(ToByteArray(%v)) = %v, %v", x, y, err)
	t.Eval(1)
	t.NonTrivial(1)
}

func scribble(b []byte) bool {
	for i := range b {
		b[i] ^= 0xa5
	}
	return true
}

func decode(t *mc.T, b []byte) {
	in := append([]byte(nil), b...)
	x, err := byteconversion.FromByteArray(in)
	t.Check(bytes.Equal(in, b), "FromByteArray(%x) changes its argument", b)
	t.Check(err == nil && x.Cmp(denotes(b)) == 0, "FromByteArray(%x) = %v, %v", b, x, err)
	f := byteconversion.FlipBytes(in)
	ok := len(f) == len(b) && bytes.Equal(in, b)
	for i := range f {
		ok = ok && f[i] == ^b[i]
	}
	t.Check(ok, "FlipBytes(%x) = %x", b, f)
	t.Eval(1)
	t.NonTrivial(1)
}

// again keeps the arguments in the same variables and uses results together.
func again(c *mc.Ctx) {
	var vals []*big.Int
	for _, v := range []int64{0, 1, -1, 127, 128, 200, 201, -128, -129, 255, 256, 40000, -40000} {
		vals = append(vals, zk.B(v))
	}
	for _, n := range []uint{63, 64, 255, 256, 512} {
		vals = append(vals, zk.Pow2(n), new(big.Int).Neg(zk.Pow2(n)), new(big.Int).Sub(zk.Pow2(n), zk.B(1)), new(big.Int).Sub(zk.Pow2(n), zk.B(2)))
	}
	short := func(x *big.Int) []byte {
		n := size(x)
		b := new(big.Int).Mod(x, zk.Pow2(uint(8*n))).Bytes()
		return append(make([]byte, n-len(b)), b...)
	}
	x := new(big.Int)
	buf := make([]byte, 100)
	var b []byte
	for i := range vals {
		i := i
		c.Case("variables used again", vals[i].Text(16), func(t *mc.T) {
			for j := range vals {
				bytesOf := func(r interface{}) string { return fmt.Sprintf("%x", r) }
				spoil := func(r interface{}) {
					l := r.([]byte)
					scribble(l)
					_ = append(l, 1, 2, 3)
				}
				mc.Reuse{Set: func(i int) { x.Set(vals[i]) }, Intact: func(i int) bool { return x.Cmp(vals[i]) == 0 },
					Call: func() interface{} { return byteconversion.ToByteArray(x) },
					Want: func(i int) string { return fmt.Sprintf("%x", short(vals[i])) }, Read: bytesOf, Scribble: spoil,
				}.Run(t, "ToByteArray", i, j)
				set := func(i int) { b = buf[:copy(buf, short(vals[i]))] }
				intact := func(i int) bool { return bytes.Equal(b, short(vals[i])) }
				mc.Reuse{Set: set, Intact: intact,
					Call: func() interface{} { return byteconversion.FlipBytes(b) },
					Want: func(i int) string {
						f := short(vals[i])
						for k := range f {
							f[k] = ^f[k]
						}
						return fmt.Sprintf("%x", f)
					}, Read: bytesOf, Scribble: spoil,
				}.Run(t, "FlipBytes", i, j)
				mc.Reuse{Set: set, Intact: intact,
					Call: func() interface{} {
						r, err := byteconversion.FromByteArray(b)
						if err != nil {
							t.Failf("FromByteArray(%x): %v", b, err)
						}
						return r
					},
					Want: func(i int) string { return vals[i].String() },
					Read: func(r interface{}) string { return r.(*big.Int).String() },
					Scribble: func(r interface{}) {
						z := r.(*big.Int)
						for k, w := 0, z.Bits(); k < len(w); k++ {
							w[k] ^= 5
						}
						z.SetInt64(7)
					},
				}.Run(t, "FromByteArray", i, j)
			}
		})
	}
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		again(c)
		c.Case("empty", "", func(t *mc.T) {
			for _, b := range [][]byte{nil, {}} {
				x, err := byteconversion.FromByteArray(b)
				t.Check(err != nil && x == nil, "FromByteArray of nothing = %v, %v", x, err)
				t.Check(len(byteconversion.FlipBytes(b)) == 0, "FlipBytes of nothing is not empty")
			}
		})
		// Small integers and strings, on machine integers.
		max := 3
		if c.Thorough {
			max = 4
		}
		for n := 1; n <= max; n++ {
			for hi := 0; hi < 256; hi++ {
				n, hi := n, hi
				c.Case(fmt.Sprintf("all strings and integers of %d bytes", n), fmt.Sprintf("%02x..", hi), func(t *mc.T) {
					b := make([]byte, n)
					in := new(big.Int)
					out := make([]byte, n)
					for k := 0; k < 1<<uint(8*(n-1)); k++ {
						b[0] = byte(hi)
						v := int64(int8(hi))
						for i := 1; i < n; i++ {
							b[i] = byte(k >> uint(8*(n-1-i)))
							v = v<<8 | int64(b[i])
						}
						copy(out, b)
						x, err := byteconversion.FromByteArray(b)
						if err != nil || !x.IsInt64() || x.Int64() != v || !bytes.Equal(out, b) {
							t.Failf("FromByteArray(%x) = %v, %v (argument afterwards %x)", out, x, err, b)
						}
						// v fits in n bytes: its encoding is b without repeated sign bytes.
						m := b
						for len(m) > 1 && (m[0] == 0 && m[1] < 128 || m[0] == 255 && m[1] >= 128) {
							m = m[1:]
						}
						in.SetInt64(v)
						e := byteconversion.ToByteArray(in)
						if !bytes.Equal(e, m) || in.Int64() != v {
							t.Failf("ToByteArray(%d) = %x (argument afterwards %v)", v, e, in)
						}
					}
					t.Eval(1 << uint(8*(n-1)))
					t.NonTrivial(1 << uint(8*(n-1)))
				})
			}
		}
		// Every length, and lengths around limits of blocks and buffers.
		most := 2100
		if c.Thorough {
			most = 9000
		}
		var lens []int
		for n := 1; n <= most; n++ {
			lens = append(lens, n)
		}
		for k := uint(9); k <= 17; k++ {
			for d := -3; d <= 3; d++ {
				if n := 1<<k + d; n > most {
					lens = append(lens, n)
				}
			}
		}
		for _, n := range []int{3000, 3333, 5000, 7777, 10000, 12345, 50001, 100000} {
			lens = append(lens, n)
		}
		for i := 0; i < len(lens); i += 50 {
			part := lens[i:]
			if len(part) > 50 {
				part = part[:50]
			}
			c.Case("every length", fmt.Sprintf("%d..%d", part[0], part[len(part)-1]), func(t *mc.T) {
				for _, n := range part {
					for _, head := range []byte{0, 1, 0x5a, 0x7f, 0x80, 0xa5, 0xfe, 0xff} {
						b := make([]byte, n)
						for k := range b {
							b[k] = byte(k*k*31 + k*7 + 0x35)
						}
						b[0] = head
						decode(t, b)
						encode(t, denotes(b))
					}
				}
			})
		}
		// Boundaries.
		long := 40
		if c.Thorough {
			long = 300
		}
		for k := 1; k <= long; k++ {
			k := k
			c.Case("byte and bit boundaries", fmt.Sprint(k), func(t *mc.T) {
				for bit := uint(8*k - 8); bit < uint(8*k); bit++ {
					for d := int64(-3); d <= 3; d++ {
						x := new(big.Int).Add(zk.Pow2(bit), zk.B(d))
						encode(t, x)
						encode(t, new(big.Int).Neg(x))
						y := new(big.Int).Sub(zk.Pow2(uint(8*k)), x)
						encode(t, y)
						encode(t, new(big.Int).Neg(y))
					}
				}
			})
			c.Case("strings with padding, zero and 255 bytes", fmt.Sprint(k), func(t *mc.T) {
				for _, fill := range []byte{0, 255, 0x80, 0x7f, 1} {
					for _, head := range []byte{0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff} {
						for _, tail := range []byte{0, 1, 0x7f, 0x80, 0xff} {
							for pos := 0; pos < k; pos++ {
								b := bytes.Repeat([]byte{fill}, k)
								b[k-1] = tail
								b[0] = head
								b[pos] ^= 0x80
								decode(t, b)
								b[pos] ^= 0x80
								decode(t, b)
								encode(t, denotes(b))
							}
						}
					}
				}
			})
		}
	})
}
