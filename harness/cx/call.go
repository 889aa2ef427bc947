package cx

import (
	"math/big"
	"reflect"

	"github.com/ing-bank/zkrp/ccs08"
)

// The types of ccs08's parameters and proofs have no names outside that
// package: these helpers take and give pointers to them as interfaces.

func ptr(v reflect.Value) interface{} {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.Interface()
}

func err(v reflect.Value) error {
	e, _ := v.Interface().(error)
	return e
}

// ProveSet calls ccs08.ProveSet.
func ProveSet(x int64, r *big.Int, p interface{}) (interface{}, error) {
	out := reflect.ValueOf(ccs08.ProveSet).Call([]reflect.Value{reflect.ValueOf(x), reflect.ValueOf(r), reflect.ValueOf(p).Elem()})
	return ptr(out[0]), err(out[1])
}

// VerifySet calls ccs08.VerifySet.
func VerifySet(proof, p interface{}) (bool, error) {
	out := reflect.ValueOf(ccs08.VerifySet).Call([]reflect.Value{reflect.ValueOf(proof), reflect.ValueOf(p)})
	return out[0].Bool(), err(out[1])
}

// ProveUL calls ccs08.ProveUL.
func ProveUL(x, r *big.Int, p interface{}) (interface{}, error) {
	out := reflect.ValueOf(ccs08.ProveUL).Call([]reflect.Value{reflect.ValueOf(x), reflect.ValueOf(r), reflect.ValueOf(p).Elem()})
	return ptr(out[0]), err(out[1])
}

// VerifyUL calls ccs08.VerifyUL.
func VerifyUL(proof, p interface{}) (bool, error) {
	out := reflect.ValueOf(ccs08.VerifyUL).Call([]reflect.Value{reflect.ValueOf(proof), reflect.ValueOf(p)})
	return out[0].Bool(), err(out[1])
}

// Quiet calls f and turns a panic into false.
func Quiet(f func() (bool, error)) (ok, panicked bool) {
	defer func() {
		if recover() != nil {
			ok, panicked = false, true
		}
	}()
	ok, _ = f()
	return
}
