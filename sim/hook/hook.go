// Package hook is what instrumented library code calls. It holds the seams: yield points, map iteration order, entropy,
// goroutine start, blocking, time. The scheduler installs itself through the function variables.
package hook

import (
	"fmt"
	"reflect"
	"sort"
	"time"
)

// C counts down to the next scheduling decision of the running task.
var C int64 = 1 << 62

// Slow is called when C runs out, with the site of the yield point.
var Slow func(site int32)

// Y is the yield point.
func Y(site int32) {
	C--
	if C < 0 {
		slow(site)
	}
}

func slow(site int32) {
	if Slow == nil {
		C = 1 << 62
		return
	}
	Slow(site)
}

// Syncs counts synchronising operations of the library.
var Syncs int64

// S is the yield point of a synchronising operation.
func S() {
	Syncs++
	Y(-1)
}

// Globals holds pointers to the library's package variables; the instrumenter registers them.
var Globals = map[string]interface{}{}

// Global registers a package variable.
func Global(name string, p interface{}) bool {
	Globals[name] = p
	return true
}

// ---- map iteration

// MapOrder permutes n map entries that were first sorted by key. nil means sorted order.
var MapOrder func(n int) []int

// MapRanges counts the map iterations that went through the seam.
var MapRanges int64

type KV struct{ m, k reflect.Value }

func (e KV) Live() bool       { return e.m.MapIndex(e.k).IsValid() }
func (e KV) Key() interface{} { return e.k.Interface() }
func (e KV) Val() interface{} {
	v := e.m.MapIndex(e.k)
	if !v.IsValid() {
		return nil
	}
	return v.Interface()
}

// MapIter returns the entries of m in an order decided by the simulator.
func MapIter(m interface{}) []KV {
	v := reflect.ValueOf(m)
	keys := v.MapKeys()
	MapRanges++
	sort.Slice(keys, func(i, j int) bool { return keyLess(keys[i], keys[j]) })
	res := make([]KV, len(keys))
	var perm []int
	if MapOrder != nil {
		perm = MapOrder(len(keys))
	}
	for i := range keys {
		k := i
		if perm != nil {
			k = perm[i]
		}
		res[i] = KV{v, keys[k]}
	}
	return res
}

func keyLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.String:
		return a.String() < b.String()
	}
	return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
}

// ---- goroutines and blocking

// Go starts a simulated task.
var Go func(f func())

// Wait blocks the running task until cond holds.
var Wait func(what string, cond func() bool)

// GoCall is the rewritten go statement; arguments are evaluated by the caller, as for go.
func GoCall(f interface{}, args ...interface{}) {
	fv := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	ft := fv.Type()
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else {
			in[i] = reflect.ValueOf(a)
			if in[i].Type() != pt && in[i].Type().ConvertibleTo(pt) {
				in[i] = in[i].Convert(pt)
			}
		}
	}
	run := func() { fv.Call(in) }
	if Go == nil {
		run()
		return
	}
	Go(run)
}

// Block is used by the simulated sync package.
func Block(what string, cond func() bool) {
	if cond() {
		return
	}
	if Wait == nil {
		panic("simulated deadlock outside the scheduler: " + what)
	}
	Wait(what, cond)
}

// ---- entropy and time

// Entropy serves the library's randomness.
var Entropy func(b []byte) (int, error)

// NowFn serves the library's clock.
var NowFn func() time.Time

func Now() time.Time {
	if NowFn == nil {
		return time.Unix(1600000000, 0)
	}
	return NowFn()
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Sleep(d time.Duration)           {}
