package core

import (
	"reflect"
	"strings"
	"unsafe"

	"github.com/golang/freetype/verifsim/libglobals"
)

// The library's package variables are put back to their initial values before
// every run and every oracle run, so that an oracle never inherits state that a
// simulated run left behind, and one process can execute any number of runs.

var (
	globalPtrs []reflect.Value
	pristine   []reflect.Value
)

func init() {
	c := cloner{map[unsafe.Pointer]reflect.Value{}, map[unsafe.Pointer]bool{}}
	for _, p := range libglobals.All() {
		v := reflect.ValueOf(p)
		globalPtrs = append(globalPtrs, v)
		c.fixed[v.UnsafePointer()] = true
	}
	for _, v := range globalPtrs {
		n := reflect.New(v.Elem().Type())
		c.copyInto(n.Elem(), v.Elem())
		pristine = append(pristine, n)
	}
}

// ResetGlobals restores all package variables.
func ResetGlobals() {
	c := cloner{map[unsafe.Pointer]reflect.Value{}, map[unsafe.Pointer]bool{}}
	for _, v := range globalPtrs {
		c.fixed[v.UnsafePointer()] = true
	}
	for i, v := range globalPtrs {
		c.copyInto(v.Elem(), pristine[i].Elem())
	}
}

type cloner struct {
	seen  map[unsafe.Pointer]reflect.Value
	fixed map[unsafe.Pointer]bool // the variables themselves stay where they are
}

// rw makes a value obtained through unexported fields usable.
func rw(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem()
	}
	return v
}

func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128, reflect.String,
		reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return true
	case reflect.Array:
		return flat(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !flat(t.Field(i).Type) {
				return false
			}
		}
		return true
	}
	return false
}

func (c *cloner) copyInto(dst, src reflect.Value) {
	dst, src = rw(dst), rw(src)
	t := src.Type()
	if flat(t) {
		dst.Set(src)
		return
	}
	switch t.Kind() {
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			c.copyInto(dst.Index(i), src.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			c.copyInto(dst.Field(i), src.Field(i))
		}
	case reflect.Pointer:
		if src.IsNil() || c.fixed[src.UnsafePointer()] || foreign(t.Elem()) {
			dst.Set(src)
			return
		}
		if n, ok := c.seen[src.UnsafePointer()]; ok && n.Type() == t {
			dst.Set(n)
			return
		}
		n := reflect.New(t.Elem())
		c.seen[src.UnsafePointer()] = n
		c.copyInto(n.Elem(), src.Elem())
		dst.Set(n)
	case reflect.Slice:
		if src.IsNil() {
			dst.Set(src)
			return
		}
		if src.Cap() > 0 {
			if n, ok := c.seen[src.UnsafePointer()]; ok && n.Type() == t && n.Cap() >= src.Cap() {
				dst.Set(n.Slice3(0, src.Len(), src.Cap()))
				return
			}
		}
		full := src.Slice3(0, src.Cap(), src.Cap())
		n := reflect.MakeSlice(t, src.Cap(), src.Cap())
		if src.Cap() > 0 {
			c.seen[src.UnsafePointer()] = n
		}
		if flat(t.Elem()) {
			reflect.Copy(n, full)
		} else {
			for i := 0; i < full.Len(); i++ {
				c.copyInto(n.Index(i), full.Index(i))
			}
		}
		dst.Set(n.Slice3(0, src.Len(), src.Cap()))
	case reflect.Map:
		if src.IsNil() {
			dst.Set(src)
			return
		}
		n := reflect.MakeMap(t)
		for it := src.MapRange(); it.Next(); {
			k := reflect.New(t.Key()).Elem()
			v := reflect.New(t.Elem()).Elem()
			kk := reflect.New(t.Key()).Elem()
			kk.Set(it.Key())
			vv := reflect.New(t.Elem()).Elem()
			vv.Set(it.Value())
			c.copyInto(k, kk)
			c.copyInto(v, vv)
			n.SetMapIndex(k, v)
		}
		dst.Set(n)
	case reflect.Interface:
		if src.IsNil() {
			dst.Set(src)
			return
		}
		e := src.Elem()
		if foreign(e.Type()) || e.Kind() == reflect.Pointer && foreign(e.Type().Elem()) {
			dst.Set(src)
			return
		}
		from := reflect.New(e.Type()).Elem()
		from.Set(e)
		n := reflect.New(e.Type()).Elem()
		c.copyInto(n, from)
		dst.Set(n)
	default:
		dst.Set(src)
	}
}

// foreign reports whether a named type belongs to a package outside the library
// that is not known to be plain data.
func foreign(t reflect.Type) bool {
	p := t.PkgPath()
	if p == "" || strings.HasPrefix(p, "github.com/golang/freetype") {
		return false
	}
	return !strings.HasPrefix(p, "golang.org/x/image/math") && p != "image" && p != "image/color" && p != "bytes" && p != "math/rand"
}
