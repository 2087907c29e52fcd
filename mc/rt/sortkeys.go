package rt

import (
	"fmt"
	"reflect"
)

func less(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.IsValid() && y.IsValid() && x.Kind() == y.Kind() {
		switch x.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return x.Int() < y.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return x.Uint() < y.Uint()
		case reflect.String:
			return x.String() < y.String()
		case reflect.Ptr, reflect.Chan, reflect.Func, reflect.UnsafePointer:
			return false
		}
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// SortKeys is an insertion sort through accessors.
func SortKeys(n int, at func(int) interface{}, swap func(i, j int)) {
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(at(j), at(j-1)); j-- {
			swap(j, j-1)
		}
	}
}
