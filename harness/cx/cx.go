// Package cx has helpers around the ccs08, bn256 and p256 packages under test.
package cx

import (
	"encoding/hex"
	"math/big"
	"reflect"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"

	"zkrpmc/zk"
)

var (
	g1Type = reflect.TypeOf((*bn256.G1)(nil))
	g2Type = reflect.TypeOf((*bn256.G2)(nil))
	gtType = reflect.TypeOf((*bn256.GT)(nil))
	pType  = reflect.TypeOf((*p256.P256)(nil))
)

// Enc is the canonical encoding of a group element, computed on a copy.
func Enc(v interface{}) string {
	switch x := zk.Clone(v).(type) {
	case *bn256.G1:
		return hex.EncodeToString(x.Marshal())
	case *bn256.G2:
		return hex.EncodeToString(x.Marshal())
	case *bn256.GT:
		return hex.EncodeToString(x.Marshal())
	}
	panic("Enc")
}

// Canonical makes zk.Dump compare group elements by value: whatever the
// representation of a bn256 element, and with one form of infinity in p256.
func Canonical() {
	zk.DumpHook = func(v reflect.Value) (string, bool) {
		switch v.Type() {
		case g1Type, g2Type, gtType:
			if v.IsNil() || v.Elem().Field(0).IsNil() {
				return "nil", true
			}
			return Enc(v.Interface()), true
		case pType:
			if v.IsNil() {
				return "nil", true
			}
			p := v.Interface().(*p256.P256)
			if p.X == nil || p.Y == nil || p.X.Sign() == 0 && p.Y.Sign() == 0 {
				return "infinity", true
			}
		}
		return "", false
	}
}

// Get reads a field, also an unexported one.
func Get(p interface{}, path ...string) interface{} {
	v := reflect.ValueOf(p)
	for _, n := range path {
		f, ok := zk.Field(v.Interface(), n)
		if !ok {
			return nil
		}
		if f.Kind() == reflect.Struct {
			f = f.Addr()
		}
		v = f
	}
	return v.Interface()
}

// Set writes a field, also an unexported one, and reports whether it exists.
func Set(p interface{}, name string, x interface{}) bool {
	f, ok := zk.Field(p, name)
	if !ok {
		return false
	}
	if x == nil {
		f.Set(reflect.Zero(f.Type()))
	} else {
		f.Set(reflect.ValueOf(x))
	}
	return true
}

// B is big.NewInt.
func B(x int64) *big.Int { return big.NewInt(x) }
