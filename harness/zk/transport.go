package zk

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"sort"
)

// Pack writes the values that the given pointers point to, without calling any
// of their methods. What is one object in them is one after Unpack.
func Pack(ptrs ...interface{}) []byte {
	w := &packer{ids: map[interface{}]int64{}}
	for _, p := range ptrs {
		w.put(reflect.ValueOf(p).Elem())
	}
	return w.b.Bytes()
}

// Unpack reads values of the same types.
func Unpack(b []byte, ptrs ...interface{}) {
	r := &unpacker{b: bytes.NewReader(b)}
	for _, p := range ptrs {
		r.get(reflect.ValueOf(p).Elem())
	}
}

type packer struct {
	b   bytes.Buffer
	ids map[interface{}]int64
}

func (w *packer) num(n int64) {
	var t [10]byte
	w.b.Write(t[:binary.PutVarint(t[:], n)])
}

func (w *packer) str(s string) { w.num(int64(len(s))); w.b.WriteString(s) }

// shared says whether v was written already; otherwise it gets a number.
func (w *packer) shared(v reflect.Value) bool {
	if id, ok := w.ids[key(v)]; ok {
		w.num(2 + id)
		return true
	}
	w.ids[key(v)] = int64(len(w.ids))
	w.num(1)
	return false
}

func (w *packer) put(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			w.num(0)
			return
		}
		if w.shared(v) {
			return
		}
		if x, ok := v.Interface().(*big.Int); ok {
			w.str(x.Text(16))
			return
		}
		w.put(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			w.num(0)
			return
		}
		if w.shared(v) {
			return
		}
		w.num(int64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			w.put(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.put(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			w.num(0)
			return
		}
		if w.shared(v) {
			return
		}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		w.num(int64(len(ks)))
		for _, k := range ks {
			w.put(k)
			w.put(v.MapIndex(k))
		}
	case reflect.Struct:
		v = addressable(v)
		for i := 0; i < v.NumField(); i++ {
			w.put(field(v, i))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w.num(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w.num(int64(v.Uint()))
	case reflect.Bool:
		if v.Bool() {
			w.num(1)
		} else {
			w.num(0)
		}
	case reflect.String:
		w.str(v.String())
	case reflect.Interface, reflect.Func, reflect.Chan:
		if !v.IsNil() {
			panic("cannot pack " + v.Type().String())
		}
	default:
		panic("cannot pack " + v.Type().String())
	}
}

type unpacker struct {
	b    *bytes.Reader
	vals []reflect.Value
}

func (r *unpacker) num() int64 {
	n, err := binary.ReadVarint(r.b)
	if err != nil {
		panic(err)
	}
	return n
}

func (r *unpacker) str() string {
	b := make([]byte, r.num())
	if _, err := io.ReadFull(r.b, b); err != nil {
		panic(err)
	}
	return string(b)
}

// old sets v and is true if it is nil or was read already.
func (r *unpacker) old(v reflect.Value) bool {
	switch n := r.num(); n {
	case 0:
		v.Set(reflect.Zero(v.Type()))
		return true
	case 1:
		return false
	default:
		v.Set(r.vals[n-2])
		return true
	}
}

func (r *unpacker) get(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if r.old(v) {
			return
		}
		n := reflect.New(v.Type().Elem())
		r.vals = append(r.vals, n)
		if x, ok := n.Interface().(*big.Int); ok {
			x.SetString(r.str(), 16)
		} else {
			r.get(n.Elem())
		}
		v.Set(n)
	case reflect.Slice:
		if r.old(v) {
			return
		}
		k := int(r.num())
		n := reflect.MakeSlice(v.Type(), k, k)
		r.vals = append(r.vals, n)
		for i := 0; i < k; i++ {
			r.get(n.Index(i))
		}
		v.Set(n)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.get(v.Index(i))
		}
	case reflect.Map:
		if r.old(v) {
			return
		}
		n := reflect.MakeMap(v.Type())
		r.vals = append(r.vals, n)
		for i := r.num(); i > 0; i-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			r.get(k)
			r.get(e)
			n.SetMapIndex(k, e)
		}
		v.Set(n)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.get(field(v, i))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(r.num())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(r.num()))
	case reflect.Bool:
		v.SetBool(r.num() == 1)
	case reflect.String:
		v.SetString(r.str())
	}
}
