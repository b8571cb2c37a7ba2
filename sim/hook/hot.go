package hook

// Hot lists, per piece of state that calls keep, the sites next to its uses; the instrumenter replaces this file.
var Hot [][]int32

// Atomics tells whether the library uses sync/atomic; the instrumenter replaces this file.
var Atomics bool
