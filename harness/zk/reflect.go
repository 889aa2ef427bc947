package zk

import (
	"fmt"
	"math/big"
	"reflect"
	"unsafe"
)

func addressable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return v
	}
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

// field is v.Field(i), accessible also when it is unexported.
func field(v reflect.Value, i int) reflect.Value {
	f := v.Field(i)
	if f.CanSet() {
		return f
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

// Field returns a settable view of the named field of the struct that p points
// to, also when it is unexported, and whether it exists.
func Field(p interface{}, name string) (reflect.Value, bool) {
	v := reflect.ValueOf(p).Elem()
	if v.Kind() != reflect.Struct {
		return reflect.Value{}, false
	}
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Name == name {
			return field(v, i), true
		}
	}
	return reflect.Value{}, false
}

// Leaf is one scalar part of a value, with its path.
type Leaf struct {
	Path string
	V    reflect.Value // settable
}

var bigType = reflect.TypeOf((*big.Int)(nil))

// Leaves lists the *big.Int pointers and the integers inside the value that p
// points to, in order. Every leaf is settable.
func Leaves(p interface{}) []Leaf {
	var out []Leaf
	walk(reflect.ValueOf(p).Elem(), "", &out, nil)
	return out
}

func walk(v reflect.Value, path string, out *[]Leaf, ptrs *[]Leaf) {
	if v.Type() == bigType {
		*out = append(*out, Leaf{path, v})
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if ptrs != nil {
			*ptrs = append(*ptrs, Leaf{path, v})
		}
		if !v.IsNil() {
			walk(v.Elem(), path, out, ptrs)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			walk(field(v, i), path+"."+v.Type().Field(i).Name, out, ptrs)
		}
	case reflect.Slice:
		if ptrs != nil {
			*ptrs = append(*ptrs, Leaf{path, v})
		}
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out, ptrs)
		}
	case reflect.Int, reflect.Int64:
		*out = append(*out, Leaf{path, v})
	}
}

// Dump is a canonical text of a value: structure, big integers and integers,
// also in unexported fields. nil and empty slices are the same.
func Dump(v interface{}) string {
	var b []byte
	dump(addressable(reflect.ValueOf(v)), &b)
	return string(b)
}

// DumpHook, when not nil, may give the canonical text of a value by itself.
var DumpHook func(v reflect.Value) (string, bool)

func dump(v reflect.Value, b *[]byte) {
	if DumpHook != nil {
		if s, ok := DumpHook(v); ok {
			*b = append(*b, s...)
			return
		}
	}
	if v.Type() == bigType {
		if v.IsNil() {
			*b = append(*b, "nil"...)
		} else {
			*b = append(*b, v.Interface().(*big.Int).Text(62)...)
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			*b = append(*b, "nil"...)
			return
		}
		if v.Kind() == reflect.Interface {
			dump(addressable(v.Elem()), b)
			return
		}
		dump(v.Elem(), b)
	case reflect.Struct:
		*b = append(*b, '{')
		for i := 0; i < v.NumField(); i++ {
			*b = append(*b, v.Type().Field(i).Name...)
			*b = append(*b, ':')
			dump(field(v, i), b)
			*b = append(*b, ' ')
		}
		*b = append(*b, '}')
	case reflect.Slice, reflect.Array:
		*b = append(*b, '[')
		for i := 0; i < v.Len(); i++ {
			dump(v.Index(i), b)
			*b = append(*b, ' ')
		}
		*b = append(*b, ']')
	case reflect.Map:
		var ks []string
		m := map[string]string{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprint(k.Interface())
			var e []byte
			dump(addressable(v.MapIndex(k)), &e)
			ks = append(ks, s)
			m[s] = string(e)
		}
		sortStrings(ks)
		for _, k := range ks {
			*b = append(*b, k+"="+m[k]+";"...)
		}
	default:
		*b = append(*b, fmt.Sprint(v.Interface())...)
	}
}

// Find lists every settable value of the given type inside the value that p
// points to, with its path.
func Find(p interface{}, typ reflect.Type) []Leaf {
	var out []Leaf
	find(reflect.ValueOf(p).Elem(), "", typ, nil, &out)
	return out
}

// FindUntil is Find that does not look inside values of the other types.
func FindUntil(p interface{}, typ reflect.Type, closed ...reflect.Type) []Leaf {
	var out []Leaf
	find(reflect.ValueOf(p).Elem(), "", typ, closed, &out)
	return out
}

func find(v reflect.Value, path string, typ reflect.Type, closed []reflect.Type, out *[]Leaf) {
	if v.Type() == typ {
		*out = append(*out, Leaf{path, v})
		return
	}
	for _, c := range closed {
		if v.Type() == c {
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			find(v.Elem(), path, typ, closed, out)
		}
	case reflect.Struct:
		if v.Type() == bigType.Elem() {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			find(field(v, i), path+"."+v.Type().Field(i).Name, typ, closed, out)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			find(v.Index(i), fmt.Sprintf("%s[%d]", path, i), typ, closed, out)
		}
	}
}
