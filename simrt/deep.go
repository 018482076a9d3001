package simrt

import (
	"reflect"
	"strings"
	"unsafe"
)

var globals []any

// OnGlobal registers package variables of the code under test.
func OnGlobal(ps ...any) { globals = append(globals, ps...) }

// Globals are pointers to the package variables of the code under test.
func Globals() []any { return globals }

// DeepSize is the number of bytes reachable from the roots, without what
// belongs to the simulator.
func DeepSize(roots ...any) int64 {
	s := sizer{seen: map[seenKey]bool{}}
	for _, r := range roots {
		s.walk(reflect.ValueOf(r))
	}
	return s.n
}

type seenKey struct {
	p unsafe.Pointer
	t reflect.Type
}

type sizer struct {
	n    int64
	seen map[seenKey]bool
}

func ours(t reflect.Type) bool { return strings.HasPrefix(t.PkgPath(), "verif/simrt") }

func (s *sizer) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || ours(v.Type().Elem()) {
			return
		}
		k := seenKey{v.UnsafePointer(), v.Type()}
		if s.seen[k] {
			return
		}
		s.seen[k] = true
		s.n += int64(v.Type().Elem().Size())
		s.walk(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if e.Kind() != reflect.Ptr {
			if ours(e.Type()) {
				return
			}
			s.n += int64(e.Type().Size())
		}
		s.walk(e)
	case reflect.String:
		s.n += int64(v.Len())
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		k := seenKey{v.UnsafePointer(), v.Type()}
		if v.Cap() > 0 {
			if s.seen[k] {
				return
			}
			s.seen[k] = true
		}
		s.n += int64(v.Cap()) * int64(v.Type().Elem().Size())
		if flat(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.walk(v.Index(i))
		}
	case reflect.Array:
		if flat(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.walk(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := seenKey{v.UnsafePointer(), v.Type()}
		if s.seen[k] {
			return
		}
		s.seen[k] = true
		t := v.Type()
		s.n += int64(v.Len()) * int64(t.Key().Size()+t.Elem().Size()+8)
		for it := v.MapRange(); it.Next(); {
			s.walk(it.Key())
			s.walk(it.Value())
		}
	case reflect.Struct:
		if ours(v.Type()) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			s.walk(v.Field(i))
		}
	}
}

func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.String, reflect.Slice, reflect.Map, reflect.Struct, reflect.Array:
		return t.Kind() == reflect.Array && flat(t.Elem())
	}
	return true
}
