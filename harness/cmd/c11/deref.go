package main

import "reflect"

func deref(p interface{}) interface{} { return reflect.ValueOf(p).Elem().Interface() }
