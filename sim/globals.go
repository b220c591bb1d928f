package zsim

import (
	"reflect"
	"runtime"
	"strings"
	"sync"
	"unsafe"
)

// Package-level variables of the code under test, so that every execution starts from the same state.

type globalVar struct {
	p    reflect.Value // what the variable is
	init reflect.Value // what it was at the start of the process
}

var globalVars []*globalVar

// seen holds the objects that are saved, by address.
var seen map[unsafe.Pointer]bool

// Globals registers pointers to package-level variables.  Generated code calls it.
func Globals(ptrs ...any) {
	for _, p := range ptrs {
		globalVars = append(globalVars, &globalVar{p: reflect.ValueOf(p).Elem()})
	}
}

// SaveGlobals notes the present state as the one to go back to: that of the variables,
// and of the program's own objects that they point to, which stay where they are.
func SaveGlobals() {
	runtime.ZsimSeed(0x6A0BA15)
	seen = make(map[unsafe.Pointer]bool)
	for _, g := range globalVars {
		seen[g.p.Addr().UnsafePointer()] = true
	}
	for i := 0; i < len(globalVars); i++ { // it grows
		g := globalVars[i]
		if restorable(g.p.Type()) {
			g.init = deep(g.p, true)
		}
	}
	seen = nil
}

// RestoreGlobals goes back to the state that SaveGlobals noted.
func RestoreGlobals() {
	runtime.ZsimSeed(0x6A0BA15) // the order of copying must not depend on the past
	for _, g := range globalVars {
		if g.init.IsValid() {
			g.p.Set(deep(g.init, false))
		}
	}
}

var syncMap = reflect.TypeOf((*sync.Map)(nil)).Elem()

// restorable: everything but channels.
func restorable(t reflect.Type) bool {
	return t.Kind() != reflect.Chan && t.Kind() != reflect.UnsafePointer
}

// own tells the program's own types from those of libraries and of the simulator.
func own(t reflect.Type) bool {
	p, ok := strings.CutPrefix(t.PkgPath(), "github.com/madkins23/go-slog/")
	return ok && !strings.HasPrefix(p, "internal/zsim") && !strings.HasPrefix(p, "internal/zcore")
}

// deep copies maps, slices, arrays and structs, also within each other; everything else is shared.
// When saving, the program's own objects that are pointed to become variables to be restored as well.
func deep(v reflect.Value, saving bool) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	switch v.Kind() {
	case reflect.Map:
		if v.IsNil() {
			break
		}
		m := reflect.MakeMapWithSize(v.Type(), v.Len())
		it := v.MapRange()
		for it.Next() {
			m.SetMapIndex(it.Key(), deep(it.Value(), saving))
		}
		n.Set(m)
	case reflect.Slice:
		if v.IsNil() {
			break
		}
		m := reflect.MakeSlice(v.Type(), v.Len(), v.Cap())
		for i := 0; i < v.Len(); i++ {
			m.Index(i).Set(deep(v.Index(i), saving))
		}
		n.Set(m)
	case reflect.Array:
		for i := 0; i < n.Len(); i++ {
			n.Index(i).Set(deep(n.Index(i), saving))
		}
	case reflect.Struct:
		if v.Type() == syncMap && v.CanAddr() { // a copy would share its entries
			n.SetZero()
			v.Addr().Interface().(*sync.Map).Range(func(key, value any) bool {
				n.Addr().Interface().(*sync.Map).Store(key, value)
				return true
			})
			break
		}
		if !own(v.Type()) && v.Type().Name() != "" {
			break
		}
		for i := 0; i < n.NumField(); i++ {
			f := n.Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem() // also if it is not exported
			if restorable(f.Type()) {
				f.Set(deep(f, saving))
			}
		}
	case reflect.Ptr:
		if at := v.UnsafePointer(); saving && !v.IsNil() && own(v.Type().Elem()) && !seen[at] {
			seen[at] = true
			globalVars = append(globalVars, &globalVar{p: v.Elem()})
		}
	case reflect.Interface:
		if saving && !v.IsNil() && v.Elem().Kind() == reflect.Ptr {
			deep(v.Elem(), saving)
		}
	}
	return n
}
