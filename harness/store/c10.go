package store

import (
	"context"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	vf "github.com/kacheio/kache/zzvf/vf"
)

// overhead is the size an item takes in addition to its value.
const overhead = 24

// lru is the reference: the items from the least to the most recently used.
type lru struct {
	max, maxItem int64
	items        []entry
}

type entry struct {
	key string
	n   int64
	exp time.Time
	tag byte
}

func (l *lru) find(k string) int {
	for i := range l.items {
		if l.items[i].key == k {
			return i
		}
	}
	return -1
}

func (l *lru) remove(i int) entry {
	e := l.items[i]
	l.items = append(append([]entry{}, l.items[:i]...), l.items[i+1:]...)
	return e
}

func (l *lru) size() int64 {
	n := int64(0)
	for _, e := range l.items {
		n += overhead + e.n
	}
	return n
}

func (l *lru) set(k string, n int64, ttl time.Duration, tag byte) {
	i := l.find(k)
	if overhead+n > l.maxItem {
		if i >= 0 {
			l.remove(i) // never keep an outdated value
		}
		return
	}
	if i >= 0 {
		l.remove(i)
	}
	for l.size()+overhead+n > l.max {
		l.remove(0)
	}
	l.items = append(l.items, entry{k, n, time.Now().Add(ttl), tag})
}

func (l *lru) get(k string) (entry, bool) {
	i := l.find(k)
	if i < 0 {
		return entry{}, false
	}
	e := l.remove(i)
	if e.exp.Before(time.Now()) {
		return entry{}, false
	}
	l.items = append(l.items, e)
	return e, true
}

func value(n int64, tag byte) []byte {
	b := make([]byte, n)
	if n > 0 {
		b[0] = tag
	}
	return b
}

// sequence runs n operations on the in-memory cache and on the reference and
// compares what can be observed.
func sequence(n int, max, maxItem int64, ops int, same bool) {
	c, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: uint64(max), MaxItemSize: uint64(maxItem)})
	vf.Assert(err == nil, "created")
	l := &lru{max: max, maxItem: maxItem}
	ctx := context.Background()
	sizes, names := []int64{1, 76, 476}, "abcd"
	if ops > 3 {
		sizes, names = []int64{30, 76}, "abc"
	}
	var used []string
	for i := 0; i < n; i++ {
		k := ""
		op := 0
		if i > 0 {
			op = vf.Choose("op", ops)
		}
		if op < 3 {
			k = vf.String("key", 1, names)
			if op == 0 {
				used = append(used, k)
			}
		}
		switch op {
		case 0:
			s := sizes[vf.Choose("size", len(sizes))]
			tag := byte(i + 1)
			if same {
				tag = 1
			}
			ttl := hour
			if ops > 3 && vf.Bool("short") {
				ttl = time.Duration(vf.Int("ttl", 0, 3000)) * time.Millisecond
			}
			c.Set(k, value(s, tag), ttl)
			before := len(l.items)
			l.set(k, s, ttl, tag)
			if len(l.items) < before {
				vf.Reach("evicted")
			}
		case 1:
			v := c.Get(ctx, k)
			e, ok := l.get(k)
			vf.Assert((v != nil) == ok, "an item is found exactly if it is stored")
			if ok {
				vf.Assert(int64(len(v)) == e.n && v[0] == e.tag, "the latest value is found")
				vf.Reach("found")
			}
		case 2:
			i := l.find(k)
			vf.Assert(c.Delete(ctx, k) == (i >= 0), "deleting tells whether the item existed")
			if i >= 0 {
				l.remove(i)
			}
		case 3:
			vf.Advance(time.Duration(vf.Int("delay", 0, 3000)) * time.Millisecond)
		case 4:
			vf.Assert(c.Flush(ctx) == nil, "flushed")
			l.items = nil
		case 5:
			vf.Assert(c.Purge(ctx, "a*") == nil, "purged")
			for i := len(l.items) - 1; i >= 0; i-- {
				if wild("a*", l.items[i].key) {
					l.remove(i)
				}
			}
		}
		vf.Assert(l.size() <= max, "the reference is within its bounds")
		keys := c.Keys(ctx, "")
		vf.Assert(len(keys) == len(l.items) && c.Size() == len(l.items), "exactly the items the bounds allow are kept")
		for i := range keys {
			vf.Assert(keys[i] == l.items[i].key, "the least recently used items go first")
		}
	}
	for _, k := range used {
		v := c.Get(ctx, k)
		e, ok := l.get(k)
		vf.Assert((v != nil) == ok, "an item is found exactly if it is stored")
		if ok {
			vf.Assert(int64(len(v)) == e.n && v[0] == e.tag, "the latest value is found")
		}
	}
}

// The items in memory, with their overhead, never exceed the configured size;
// no item is dropped unless the space is needed, and none exceeds the
// configured item size.
//
// Bounds: 4 (thorough: 5) operations out of set and get on up to four keys
// with values of 1, 76 or 476 bytes; any overall size from 100 to 2001 and any
// item size from 24 up to that.
//
//vf:time=120 ttime=500
func C10_Size() {
	n := 4
	if vf.Thorough() {
		n = 5
	}
	max := vf.Int("max", 100, 2001)
	maxItem := vf.Int("maxitem", 24, 2001)
	vf.Assume(maxItem <= max)
	sequence(n, max, maxItem, 2, false)
}
