package store

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	vf "github.com/kacheio/kache/zzvf/vf"
)

// op is one operation on a provider; its result is recorded.
type op struct {
	kind, key, val int
}

func chooseOp(v, kinds int) op {
	o := op{kind: vf.Choose("op", kinds), val: v}
	if o.kind < 3 {
		o.key = vf.Choose("key", 2)
	}
	return o
}

// run performs an operation and returns its result.
func (o op) run(c provider.Provider) string {
	ctx := context.Background()
	keys := [...]string{"a", "ab"}
	switch o.kind {
	case 0:
		// Two items of this size do not fit.
		c.Set(keys[o.key], []byte(strings.Repeat(string(rune('0'+o.val)), 60)), hour)
	case 1:
		return string(c.Get(ctx, keys[o.key]))
	case 2:
		return fmt.Sprint(c.Delete(ctx, keys[o.key]))
	case 3:
		return fmt.Sprint(c.Purge(ctx, "a*") == nil)
	case 4:
		return fmt.Sprint(c.Flush(ctx) == nil)
	case 5:
		return strings.Join(c.Keys(ctx, ""), ",")
	case 6:
		return fmt.Sprint(c.Size())
	case 7:
		// This item is too large.
		c.Set(keys[o.key], make([]byte, 120), hour)
	}
	return ""
}

// state shows everything a provider holds.
func state(c provider.Provider) string {
	ctx := context.Background()
	ks := c.Keys(ctx, "")
	s := strings.Join(ks, ",")
	sort.Strings(ks)
	for _, k := range ks {
		s += ";" + k + "=" + string(c.Get(ctx, k))
	}
	return s + ";" + fmt.Sprint(c.Size())
}

func small(expired bool) provider.Provider {
	c, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: 150, MaxItemSize: 100})
	vf.Assert(err == nil, "the provider is created")
	ttl := time.Hour
	if expired {
		ttl = time.Second
	}
	c.Set("a", []byte("first"), ttl)
	c.Set("ab", []byte("second"), time.Hour)
	vf.Advance(2 * time.Second)
	return c
}

// Operations on the in-memory provider that run concurrently have the results
// they have in some order one after the other, and leave the same items.
//
// Bounds: one goroutine with two operations and one with one (thorough: two
// each) out of set, get, delete, purge, flush, list and count, on two keys,
// with evictions, the second goroutine also out of storing too large an item; or one each if one of the items has expired before; every interleaving with up to 2 preemptions; all accesses to
// memory are checked for data races.
//
//vf:time=100 ttime=500
func C31_Provider() {
	n := [2]int{2, 1}
	if vf.Thorough() {
		n[1] = 2
	}
	expired := vf.Bool("expired")
	if expired && !vf.Thorough() {
		n[0] = 1
	}
	var ops [2][]op
	for g := range ops {
		for i := 0; i < n[g]; i++ {
			ops[g] = append(ops[g], chooseOp(1+2*g+i, 7+g))
		}
	}
	c := small(expired)
	var res [2][]string
	var wg sync.WaitGroup
	wg.Add(2)
	vf.DetectRaces()
	vf.Explore(2)
	for g := range ops {
		g := g
		go func() {
			defer wg.Done()
			for _, o := range ops[g] {
				res[g] = append(res[g], o.run(c))
			}
		}()
	}
	wg.Wait()
	vf.StopExplore()
	end := state(c)
	// Compare with every order.
	found := false
	var try func(order []int, i, j int)
	try = func(order []int, i, j int) {
		if found {
			return
		}
		if i < n[0] {
			try(append(order[:len(order):len(order)], 0), i+1, j)
		}
		if j < n[1] {
			try(append(order[:len(order):len(order)], 1), i, j+1)
		}
		if i < n[0] || j < n[1] {
			return
		}
		s := small(expired)
		var at [2]int
		ok := true
		for _, g := range order {
			ok = ok && ops[g][at[g]].run(s) == res[g][at[g]]
			at[g]++
		}
		found = ok && state(s) == end
	}
	try(nil, 0, 0)
	vf.Assert(found, "concurrent operations have the results of some order")
	vf.Reach("done")
}
