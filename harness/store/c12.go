package store

import (
	"context"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	vf "github.com/kacheio/kache/zzvf/vf"
)

const hour = time.Hour

// wild is the reference: '*' matches any sequence, everything else itself.
func wild(p, s string) bool {
	// row[j]: p[:i] matches s[:j]
	row := make([]bool, len(s)+1)
	row[0] = true
	for i := 0; i < len(p); i++ {
		next := make([]bool, len(s)+1)
		for j := 0; j <= len(s); j++ {
			if p[i] == '*' {
				next[j] = row[j]
				if j > 0 {
					next[j] = vf.Or(row[j], next[j-1])
				}
			} else if j > 0 {
				next[j] = vf.And(row[j-1], p[i] == s[j-1])
			}
		}
		row = next
	}
	return row[len(s)]
}

const keyChars = "a*.[?\\\n\xc3\xa9"

// pattern chooses a pattern of up to n characters.
func pattern(n int) string {
	p := ""
	l := 1 + vf.Choose("plen", n)
	for i := 0; i < l; i++ {
		p += [...]string{"a", "*", ".", "[", "]", "?", "\\", "+", "é"}[vf.Choose("p", 9)]
	}
	return p
}

func present(p provider.Provider, k string) bool { return p.Get(context.Background(), k) != nil }

func purge(p provider.Provider, pat string, stored func(string) bool) {
	n := 1 + vf.Choose("klen", 3)
	key := vf.String("k", n, keyChars)
	p.Set(key, []byte("1"), hour)
	p.Set("zz", []byte("2"), hour)
	vf.Wait()
	vf.Assert(stored(key), "the item is stored")
	err := p.Purge(context.Background(), pat)
	vf.Assert(err == nil, "purging succeeds")
	m := wild(pat, key)
	vf.Assert(stored(key) == vf.Not(m), "an item is removed exactly if its key matches the pattern")
	vf.Assert(stored("zz") == !wild(pat, "zz"), "other items stay")
	if m {
		vf.Reach("match")
	} else {
		vf.Reach("no match")
	}
}

// Purging the in-memory cache removes exactly the items whose whole key
// matches the pattern.
//
// Bounds: every pattern of 1-2 (thorough: 1-3) characters out of a * . [ ] ? \
// + and a non-ASCII letter, every key of 1-3 bytes out of those, line feeds
// and arbitrary halves of UTF-8 sequences.
//
//vf:time=60 ttime=600
func C12_Memory() {
	n := 2
	if vf.Thorough() {
		n = 3
	}
	c, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{})
	vf.Assert(err == nil, "created")
	pat := pattern(n)
	purge(c, pat, func(k string) bool { return present(c, k) })
}

// The same for the Redis provider, given the documented meaning of Redis'
// glob-style patterns.
//
// Bounds: as above.
//
//vf:time=60 ttime=600 replace=github.com/redis/go-redis/v9.NewUniversalClient->universal
func C12_Redis() {
	n := 2
	if vf.Thorough() {
		n = 3
	}
	s := newServer()
	rc := connect(s, provider.RedisClientConfig{MaxQueueBufferSize: 4, MaxQueueConcurrency: 1})
	c := provider.NewRedisCache("test", rc)
	pat := pattern(n)
	purge(c, pat, func(k string) bool { return present(c, k) })
	rc.Stop()
}

// Longer patterns of a few characters.
//
// Bounds: every pattern of 3-4 (thorough: 3-5) characters out of a, b and *,
// every key of 1-4 bytes out of a, b and *; in-memory and Redis provider.
//
//vf:time=60 ttime=400 replace=github.com/redis/go-redis/v9.NewUniversalClient->universal
func C12_Long() {
	n := 2
	if vf.Thorough() {
		n = 3
	}
	pat := ""
	for i := 3 + vf.Choose("plen", n); i > 0; i-- {
		pat += [...]string{"a", "b", "*"}[vf.Choose("p", 3)]
	}
	var c provider.Provider
	if vf.Bool("redis") {
		rc := connect(newServer(), provider.RedisClientConfig{MaxQueueBufferSize: 4, MaxQueueConcurrency: 1})
		defer rc.Stop()
		c = provider.NewRedisCache("test", rc)
	} else {
		c, _ = provider.NewInMemoryCache(provider.InMemoryCacheConfig{})
	}
	key := vf.String("k", 1+vf.Choose("klen", 4), "ab*")
	c.Set(key, []byte("1"), hour)
	vf.Wait()
	vf.Assert(c.Purge(context.Background(), pat) == nil, "purging succeeds")
	m := wild(pat, key)
	vf.Assert(present(c, key) == vf.Not(m), "an item is removed exactly if its key matches the pattern")
	if m {
		vf.Reach("match")
	} else {
		vf.Reach("no match")
	}
}

// A purge reaches every page of a scan, and the empty pattern removes all.
//
// Bounds: four items with symbolic one-byte suffixes, pages of 1-5 keys, four
// patterns; Redis, in-memory and layered provider.
//
//vf:time=60 replace=github.com/redis/go-redis/v9.NewUniversalClient->universal
func C12_All() {
	s := newServer()
	s.page = 1 + vf.Choose("page", 5)
	rc := connect(s, provider.RedisClientConfig{MaxQueueBufferSize: 4, MaxQueueConcurrency: 1})
	var c provider.Provider = provider.NewRedisCache("test", rc)
	switch vf.Choose("provider", 3) {
	case 1:
		c, _ = provider.NewInMemoryCache(provider.InMemoryCacheConfig{})
	case 2:
		c, _ = provider.NewCached(c, "test", hour, provider.InMemoryCacheConfig{})
	}
	var keys [4]string
	for i := range keys {
		keys[i] = "k" + vf.String("key", 1, "ab.")
		c.Set(keys[i], []byte{byte(i)}, hour)
		vf.Wait()
	}
	pat := [...]string{"", "*", "ka*", "k."}[vf.Choose("pattern", 4)]
	var err error
	if pat == "" && vf.Bool("flush") {
		err = c.Flush(context.Background())
	} else {
		err = c.Purge(context.Background(), pat)
	}
	vf.Assert(err == nil, "purging succeeds")
	for _, k := range keys {
		m := pat == "" || wild(pat, k)
		vf.Assert(present(c, k) == !m, "an item is removed exactly if its key matches the pattern")
		if m {
			vf.Reach("removed")
		} else {
			vf.Reach("kept")
		}
	}
	rc.Stop()
}

// Listing keys returns exactly the keys with the given literal prefix.
//
// Bounds: two items with symbolic keys of 2 bytes, any prefix of 0-2 bytes
// out of a * . [ ? \; Redis, in-memory and layered provider.
//
//vf:time=60 replace=github.com/redis/go-redis/v9.NewUniversalClient->universal
func C12_Keys() {
	s := newServer()
	rc := connect(s, provider.RedisClientConfig{MaxQueueBufferSize: 4, MaxQueueConcurrency: 1})
	var c provider.Provider = provider.NewRedisCache("test", rc)
	switch vf.Choose("provider", 3) {
	case 1:
		c, _ = provider.NewInMemoryCache(provider.InMemoryCacheConfig{})
	case 2:
		c, _ = provider.NewCached(c, "test", hour, provider.InMemoryCacheConfig{})
	}
	const chars = "a*.[?\\"
	k := vf.String("k", 2, chars)
	c.Set(k, []byte("1"), hour)
	c.Set("zz", []byte("2"), hour)
	vf.Wait()
	prefix := ""
	for i := vf.Choose("n", 3); i > 0; i-- {
		prefix += string(chars[vf.Choose("c", len(chars))])
	}
	n := 0
	for _, x := range c.Keys(context.Background(), prefix) {
		vf.Assert(x == k || x == "zz", "only stored keys are listed")
		n++
	}
	want := wild(prefix, k[:len(prefix)]) // no wildcard in play unless '*'
	if prefix != "" {
		want = vf.StrEq(prefix, k[:len(prefix)])
	}
	cnt := 0
	if want {
		cnt++
		vf.Reach("listed")
	} else {
		vf.Reach("not listed")
	}
	if prefix == "" {
		cnt++
	}
	vf.Assert(n == cnt, "exactly the keys with the prefix are listed")
	rc.Stop()
}
