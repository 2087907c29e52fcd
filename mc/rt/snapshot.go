package rt

import (
	"reflect"
	"strings"
	"unsafe"
)

// Vars are the package-level variables of the packages under test, by import path and name.
var Vars = map[string]interface{}{}

// SetUint sets a package-level counter to n, as if that much had happened before; it tells
// whether there is such a variable.
func SetUint(name string, n uint64) bool {
	p, ok := Vars[name]
	if !ok {
		return false
	}
	v := reflect.ValueOf(p).Elem()
	if v.Kind() != reflect.Uint64 {
		return false
	}
	v.SetUint(n)
	return true
}

// Snapshot remembers what the variable *p holds, and everything of the packages under test that
// it leads to; the returned function puts it back in place.
func Snapshot(p interface{}) func() {
	s := &snapper{seen: map[unsafe.Pointer]bool{}}
	s.walk(reflect.ValueOf(p).Elem(), 0)
	acts := s.acts
	return func() {
		for _, f := range acts {
			f()
		}
	}
}

type snapper struct {
	seen map[unsafe.Pointer]bool
	acts []func()
}

// own tells whether the inside of a type is ours to put back.
func own(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "" || strings.HasPrefix(p, "gitee.com/coco/go808") || strings.HasPrefix(p, "github.com/funny/link") ||
		p == "verifmc/rt/vsync" || p == "verifmc/vatomic" || p == "sync/atomic" || p == "container/list" || p == "bytes"
}

func (s *snapper) set(v reflect.Value) {
	if v.Type().Size() == 0 {
		return
	}
	saved := reflect.New(v.Type()).Elem()
	saved.Set(v)
	s.acts = append(s.acts, func() { v.Set(saved) })
}

// walk records an addressable value.
func (s *snapper) walk(v reflect.Value, depth int) {
	if v.CanAddr() && !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	if depth > 40 {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		if !own(v.Type()) {
			s.set(v)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			s.walk(v.Field(i), depth+1)
		}
	case reflect.Array:
		if simple(v.Type().Elem()) {
			s.set(v)
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.walk(v.Index(i), depth+1)
		}
	default:
		s.set(v)
		s.inside(v, depth+1)
	}
}

func simple(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Struct, reflect.Array:
		return false
	}
	return true
}

// inside records what a reference leads to.
func (s *snapper) inside(v reflect.Value, depth int) {
	if depth > 40 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || !own(v.Type().Elem()) {
			return
		}
		p := unsafe.Pointer(v.Pointer())
		if s.seen[p] {
			return
		}
		s.seen[p] = true
		s.walk(v.Elem(), depth)
	case reflect.Interface:
		if !v.IsNil() {
			s.inside(v.Elem(), depth)
		}
	case reflect.Slice:
		if v.Len() == 0 {
			return
		}
		p := unsafe.Pointer(v.Pointer())
		if s.seen[p] {
			return
		}
		s.seen[p] = true
		if simple(v.Type().Elem()) {
			c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			reflect.Copy(c, v)
			s.acts = append(s.acts, func() { reflect.Copy(v, c) })
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.walk(v.Index(i), depth)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		p := unsafe.Pointer(v.Pointer())
		if s.seen[p] {
			return
		}
		s.seen[p] = true
		var ks, vs []reflect.Value
		for it := v.MapRange(); it.Next(); {
			ks, vs = append(ks, it.Key()), append(vs, it.Value())
			s.inside(it.Value(), depth)
		}
		s.acts = append(s.acts, func() {
			if v.Len() == len(ks) {
				same := true
				for i, k := range ks {
					x := v.MapIndex(k)
					if !x.IsValid() || !equalRef(x, vs[i]) {
						same = false
						break
					}
				}
				if same {
					return
				}
			}
			v.Clear()
			for i, k := range ks {
				v.SetMapIndex(k, vs[i])
			}
		})
	case reflect.Struct:
		if own(v.Type()) {
			for i := 0; i < v.NumField(); i++ {
				s.inside(v.Field(i), depth+1)
			}
		}
	}
}

func equalRef(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Func, reflect.Ptr, reflect.Map, reflect.Chan, reflect.Slice:
		if a.Kind() == reflect.Slice && a.Len() != b.Len() {
			return false
		}
		return a.Pointer() == b.Pointer()
	}
	return a.Comparable() && b.Comparable() && a.Equal(b)
}
