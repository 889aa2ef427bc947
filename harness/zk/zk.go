// Package zk has what the checks share: alphabets of secrets and scalars, deep
// copies and comparisons of proofs, and an independent reference implementation
// of the elliptic curve y^2 = x^3 + 7.
package zk

import (
	"math/big"
	"math/bits"
	"reflect"
	"sort"
)

// B is big.NewInt.
func B(x int64) *big.Int { return big.NewInt(x) }

// Pow2 is 2^k.
func Pow2(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }

// Hex reads a hexadecimal number.
func Hex(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return x
}

// Secp256k1 constants, written out independently of the code under test.
var (
	SecpP  = Hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	SecpN  = Hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	SecpX  = Hex("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	SecpY  = Hex("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")
	BnP, _ = new(big.Int).SetString("21888242871839275222246405745257275088696311157297823662689037894645226208583", 10)
	BnN, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
)

// Uniq sorts and removes duplicates.
func Uniq(xs []*big.Int) []*big.Int {
	sort.Slice(xs, func(i, j int) bool { return xs[i].Cmp(xs[j]) < 0 })
	var out []*big.Int
	for i, x := range xs {
		if i == 0 || x.Cmp(xs[i-1]) != 0 {
			out = append(out, x)
		}
	}
	return out
}

// InRange is the structured alphabet of secrets of [0, 2^n): powers of two,
// their neighbours, complements, and bit patterns.
func InRange(n uint) []*big.Int {
	var xs []*big.Int
	max := Pow2(n)
	add := func(x *big.Int) {
		if x.Sign() >= 0 && x.Cmp(max) < 0 {
			xs = append(xs, x)
		}
	}
	for k := uint(0); k <= n; k++ {
		for d := int64(-2); d <= 2; d++ {
			add(new(big.Int).Add(Pow2(k), B(d)))
			add(new(big.Int).Sub(max, new(big.Int).Add(Pow2(k), B(d))))
		}
	}
	for _, p := range []string{"55555555", "aaaaaaaa", "33333333", "cccccccc", "0f0f0f0f", "f0f0f0f0", "00ff00ff", "ff00ff00", "0000ffff", "deadbeef", "80000001", "7fffffff", "01010101", "10000000", "000a0000"} {
		add(new(big.Int).Mod(Hex(p), max))
	}
	return Uniq(xs)
}

// OutOfRange is the structured alphabet of secrets outside [0, 2^n), modulo ord.
func OutOfRange(n uint, ord *big.Int, width int64) []*big.Int {
	var xs []*big.Int
	max := Pow2(n)
	add := func(x *big.Int) {
		if new(big.Int).Mod(x, ord).Cmp(max) >= 0 {
			xs = append(xs, new(big.Int).Set(x))
		}
	}
	for d := int64(0); d <= width; d++ {
		add(B(-1 - d))
		add(new(big.Int).Add(max, B(d)))
	}
	for k := uint(1); k <= 300; k++ {
		if k > 2*n+4 && k%32 > 1 && k != 63 && k != 255 && k != 257 {
			continue
		}
		add(Pow2(k))
		add(new(big.Int).Neg(Pow2(k)))
		add(new(big.Int).Add(Pow2(k), max))
		add(new(big.Int).Add(Pow2(k), B(1)))
		add(new(big.Int).Sub(Pow2(k), B(1)))
		add(new(big.Int).Sub(max, Pow2(k)))
	}
	for d := int64(0); d < 4; d++ {
		add(new(big.Int).Sub(ord, B(1+d)))
		add(new(big.Int).Add(new(big.Int).Rsh(ord, 1), B(d)))
		add(new(big.Int).Add(ord, new(big.Int).Add(max, B(d))))
	}
	return Uniq(xs)
}

// Scalars is a structured alphabet of scalars for a group of order ord:
// zero, boundaries of the order and its multiples, powers of two with
// neighbours, byte patterns with leading, inner and trailing zero bytes, both signs.
func Scalars(ord *big.Int, small int64, pow bool) []*big.Int {
	var xs []*big.Int
	add := func(x *big.Int) { xs = append(xs, x, new(big.Int).Neg(x)) }
	for i := int64(0); i <= small; i++ {
		add(B(i))
	}
	for m := int64(1); m <= 3; m++ {
		for d := int64(-3); d <= 3; d++ {
			add(new(big.Int).Add(new(big.Int).Mul(ord, B(m)), B(d)))
		}
	}
	half := new(big.Int).Rsh(ord, 1)
	for d := int64(-1); d <= 2; d++ {
		add(new(big.Int).Add(half, B(d)))
	}
	if pow {
		for k := uint(3); k <= 260; k++ {
			add(Pow2(k))
			add(new(big.Int).Sub(Pow2(k), B(1)))
			if k%8 == 0 || k%64 < 2 {
				add(new(big.Int).Add(Pow2(k), B(1)))
			}
		}
	} else {
		for _, k := range []uint{8, 16, 31, 32, 63, 64, 65, 127, 128, 192, 248, 255, 256, 257, 320, 512} {
			add(Pow2(k))
			add(new(big.Int).Sub(Pow2(k), B(1)))
			add(new(big.Int).Add(Pow2(k), B(1)))
		}
	}
	for _, h := range []string{"ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff", "0100000000000000000000000000000000000000000000000000000000000001",
		"5555555555555555555555555555555555555555555555555555555555555555", "2aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
		"000000000000000000000000ffffffffffffffffffffffffffffffffffffffff", "1234567890abcdef1234567890abcdef1234567890abcdef1234567890abcd00"} {
		add(Hex(h))
	}
	return Uniq(xs)
}

// Clone makes a deep copy of any value (pointers, slices, maps, structs, also
// unexported fields).
func Clone(v interface{}) interface{} {
	return clone(reflect.ValueOf(v), nil).Interface()
}

// CloneShared is like Clone, but what is one object in v is one in the copy.
func CloneShared(v interface{}) interface{} {
	return clone(reflect.ValueOf(v), map[interface{}]reflect.Value{}).Interface()
}

func key(v reflect.Value) interface{} {
	n := 0
	if v.Kind() == reflect.Slice {
		n = v.Len()
	}
	return [3]interface{}{v.Type(), v.Pointer(), n}
}

func clone(v reflect.Value, seen map[interface{}]reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		if c, ok := seen[key(v)]; ok {
			return c
		}
		if x, ok := v.Interface().(*big.Int); ok {
			n := reflect.ValueOf(new(big.Int).Set(x))
			if seen != nil {
				seen[key(v)] = n
			}
			return n
		}
		n := reflect.New(v.Elem().Type())
		if seen != nil {
			seen[key(v)] = n
		}
		n.Elem().Set(clone(v.Elem(), seen))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		if c, ok := seen[key(v)]; ok {
			return c
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		if seen != nil {
			seen[key(v)] = n
		}
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(clone(v.Index(i), seen))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, clone(v.MapIndex(k), seen))
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(clone(v.Elem(), seen))
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			src := field(addressable(v), i)
			field(n, i).Set(clone(src, seen))
		}
		return n
	}
	return v
}

// Popcount is the number of one bits.
func Popcount(x int) int { return bits.OnesCount(uint(x)) }

func sortStrings(s []string) { sort.Strings(s) }

// Long gives integers of many more bits than the order, among them ones that
// are congruent to small numbers.
func Long(ord *big.Int, thorough bool) []*big.Int {
	var xs []*big.Int
	add := func(x *big.Int) { xs = append(xs, x, new(big.Int).Neg(x)) }
	ks := []uint{513, 1030}
	if thorough {
		ks = []uint{384, 385, 511, 512, 513, 514, 640, 767, 769, 1023, 1024, 1025, 1030, 2048, 2049, 4100}
	}
	for _, k := range ks {
		add(Pow2(k))
		add(new(big.Int).Sub(Pow2(k), B(1)))
		m := new(big.Int).Div(Pow2(k), ord)
		m.Mul(m, ord)
		add(m)
		add(new(big.Int).Add(m, B(1)))
		add(new(big.Int).Sub(m, B(2)))
	}
	return xs
}
