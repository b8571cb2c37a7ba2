package worlds

import (
	"math"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"vsim/core"
	"vsim/hook"
)

// memory is what can be reached from some roots: the blocks (pointed-to values, slices, maps), by address, with a hash
// of what each holds itself. Comparing two of them tells whether somebody wrote there in between.
type memory struct {
	blocks map[memKey]memBlock
	todo   []memTodo
}

type memKey struct {
	p uintptr
	t reflect.Type
}
type memBlock struct {
	h    uint64
	path string
}
type memTodo struct {
	v    reflect.Value
	k    memKey
	path string
}

// reach collects the memory of the roots; names gives each its name for reports.
func reach(names []string, roots []interface{}) *memory {
	m := &memory{blocks: map[memKey]memBlock{}}
	for i, r := range roots {
		if r == nil {
			continue
		}
		m.flat(reflect.ValueOf(r), names[i])
	}
	for len(m.todo) > 0 {
		x := m.todo[len(m.todo)-1]
		m.todo = m.todo[:len(m.todo)-1]
		m.blocks[x.k] = memBlock{m.content(x.v, x.path), x.path}
	}
	return m
}

func (m *memory) push(p uintptr, v reflect.Value, path string) {
	k := memKey{p, v.Type()}
	if _, ok := m.blocks[k]; !ok {
		m.blocks[k] = memBlock{0, path}
		m.todo = append(m.todo, memTodo{v, k, path})
	}
}

// content hashes what a block holds itself.
func (m *memory) content(v reflect.Value, path string) uint64 {
	switch v.Kind() {
	case reflect.Ptr:
		return m.flat(v.Elem(), path)
	case reflect.Map:
		h := uint64(v.Len())
		it := v.MapRange()
		for it.Next() {
			h += core.H(m.flat(it.Key(), path), m.flat(it.Value(), path))
		}
		return h
	case reflect.Slice:
		n := v.Len()
		h := uint64(n)
		switch v.Type().Elem().Kind() {
		case reflect.Uint64, reflect.Int64, reflect.Float64, reflect.Int, reflect.Uint:
			return HU(h, unsafe.Slice((*uint64)(unsafe.Pointer(v.Pointer())), n))
		case reflect.Uint8:
			return HB(unsafe.Slice((*byte)(unsafe.Pointer(v.Pointer())), n)) ^ h
		}
		for i := 0; i < n; i++ {
			h = core.H(h, m.flat(v.Index(i), path))
		}
		return h
	}
	return 0
}

func (m *memory) flat(v reflect.Value, path string) uint64 {
	switch v.Kind() {
	case reflect.Bool:
		return uint64(b2i(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return uint64(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return v.Uint()
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(v.Float())
	case reflect.Complex64, reflect.Complex128:
		return core.H(math.Float64bits(real(v.Complex())), math.Float64bits(imag(v.Complex())))
	case reflect.String:
		return core.HS(v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return uint64(v.Pointer())
	case reflect.Ptr, reflect.Map:
		if v.IsNil() {
			return 1
		}
		m.push(v.Pointer(), v, path)
		return uint64(v.Pointer())
	case reflect.Slice:
		if v.IsNil() {
			return 1
		}
		if v.Len() > 0 {
			m.push(v.Pointer(), v, path)
		}
		return core.H(uint64(v.Pointer()), uint64(v.Len()))
	case reflect.Interface:
		if v.IsNil() {
			return 1
		}
		return m.flat(v.Elem(), path)
	case reflect.Array:
		h := uint64(v.Len())
		for i := 0; i < v.Len(); i++ {
			h = core.H(h, m.flat(v.Index(i), path))
		}
		return h
	case reflect.Struct:
		t := v.Type()
		if strings.HasSuffix(t.PkgPath(), "/simsync") {
			return 0
		}
		h := core.HS(t.Name())
		for i := 0; i < v.NumField(); i++ {
			h = core.H(h, m.flat(v.Field(i), path+"."+t.Field(i).Name))
		}
		return h
	}
	return 0
}

// written names the blocks of m that differ in n, "" if there are none.
func (m *memory) written(n *memory) string {
	var l []string
	for k, b := range m.blocks {
		if c, ok := n.blocks[k]; ok && c.h != b.h {
			l = append(l, b.path)
		}
	}
	sort.Strings(l)
	if len(l) > 3 {
		l = l[:3]
	}
	return strings.Join(l, ", ")
}

// packageVars lists the library's package variables.
func packageVars() (names []string, roots []interface{}) {
	for n := range hook.Globals {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		roots = append(roots, hook.Globals[n])
	}
	return
}

// sameEng tells whether two engines are one (values that cannot be compared count as one).
func sameEng(a, b interface{}) bool {
	t := reflect.TypeOf(a)
	return t == reflect.TypeOf(b) && (!t.Comparable() || a == b)
}
