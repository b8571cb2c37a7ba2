// Package globals puts the library's package variables back to what they are when a process starts, so that each
// simulated execution is one of a fresh process.
package globals

import (
	"reflect"
	"sort"
	"unsafe"

	"vsim/hook"
)

type saver struct {
	undo []func()
	seen map[key]bool
}

type key struct {
	p unsafe.Pointer
	t reflect.Type
}

var saved *saver

// Init remembers the current state; to be called before the library is used.
func Init() {
	saved = &saver{seen: map[key]bool{}}
	var names []string
	for n := range hook.Globals {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		saved.block(reflect.ValueOf(hook.Globals[n]))
	}
}

// Reset puts back the state remembered.
func Reset() {
	if saved == nil {
		return
	}
	for _, f := range saved.undo {
		f()
	}
}

// block saves what a pointer points to.
func (s *saver) block(p reflect.Value) {
	k := key{unsafe.Pointer(p.Pointer()), p.Type()}
	if s.seen[k] {
		return
	}
	s.seen[k] = true
	e := reflect.NewAt(p.Type().Elem(), k.p).Elem()
	c := reflect.New(e.Type()).Elem()
	c.Set(e)
	if e.Kind() != reflect.Func || !e.IsNil() {
		s.undo = append(s.undo, func() { e.Set(c) })
	}
	s.walk(e)
}

func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Struct, reflect.Array:
		return false
	}
	return true
}

// walk follows what an addressable value refers to.
func (s *saver) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			s.block(v)
		}
	case reflect.Slice:
		if v.Len() == 0 {
			return
		}
		k := key{unsafe.Pointer(v.Pointer()), v.Type()}
		if s.seen[k] {
			return
		}
		s.seen[k] = true
		w := v.Slice(0, v.Len())
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(c, w)
		s.undo = append(s.undo, func() { reflect.Copy(w, c) })
		if !plain(v.Type().Elem()) {
			for i := 0; i < w.Len(); i++ {
				s.walk(w.Index(i))
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := key{unsafe.Pointer(v.Pointer()), v.Type()}
		if s.seen[k] {
			return
		}
		s.seen[k] = true
		m := reflect.New(v.Type()).Elem()
		m.Set(v)
		keys := m.MapKeys()
		vals := make([]reflect.Value, len(keys))
		for i, k := range keys {
			vals[i] = m.MapIndex(k)
			x := reflect.New(vals[i].Type()).Elem()
			x.Set(vals[i])
			s.walk(x)
		}
		s.undo = append(s.undo, func() {
			for _, k := range m.MapKeys() {
				m.SetMapIndex(k, reflect.Value{})
			}
			for i, k := range keys {
				m.SetMapIndex(k, vals[i])
			}
		})
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		x := reflect.New(v.Elem().Type()).Elem()
		x.Set(v.Elem())
		s.walk(x)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !plain(f.Type()) {
				s.walk(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem())
			}
		}
	case reflect.Array:
		if !plain(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				s.walk(v.Index(i))
			}
		}
	}
}
