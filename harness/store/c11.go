package store

import vf "github.com/kacheio/kache/zzvf/vf"

// The in-memory cache behaves like a map with expiry and least-recently-used
// eviction: a sequence of operations leaves exactly the items the reference
// keeps, in its order, and every lookup finds the latest unexpired value.
//
// Bounds: 4 (thorough: 5) operations out of set, get, delete, waiting, flush
// and purge on up to three symbolic keys, values of 30 or 76 bytes in a
// cache of 200 bytes with items of at most 100 bytes, any TTL and any waiting
// time up to 3 s in milliseconds.
//
//vf:time=120 ttime=500
func C11_Order() {
	n := 4
	if vf.Thorough() {
		n = 5
	}
	sequence(n, 200, 100, 6, false)
}

// The same holds if the very same value is stored again and again.
//
// Bounds: 3 (thorough: 4) operations out of set, get, delete and waiting, as
// in C11_Order.
//
//vf:time=60 ttime=300
func C11_Same() {
	n := 3
	if vf.Thorough() {
		n = 4
	}
	sequence(n, 200, 100, 4, true)
}
