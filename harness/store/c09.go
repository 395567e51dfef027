package store

import (
	"context"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	vf "github.com/kacheio/kache/zzvf/vf"
)

// No provider returns an item after its time to live, and none loses it
// before.
//
// Bounds: any TTL from 0 to 10^6 s in milliseconds, two lookups after any
// delays up to 10^6 s; in-memory and Redis provider; overwriting with a
// second TTL.
//
//vf:time=60 replace=github.com/redis/go-redis/v9.NewUniversalClient->universal
func C09_Tiers() {
	var c provider.Provider
	var rc provider.RemoteCacheClient
	if vf.Bool("redis") {
		rc = connect(newServer(), provider.RedisClientConfig{MaxQueueBufferSize: 4, MaxQueueConcurrency: 1})
		c = provider.NewRedisCache("test", rc)
	} else {
		cfg := provider.InMemoryCacheConfig{}
		if vf.Bool("default") {
			cfg.DefaultTTL = "10s" // does not matter for items with their own TTL
		}
		c, _ = provider.NewInMemoryCache(cfg)
	}
	ttl := vf.Int("ttl", 0, 1000000000)
	c.Set("a", []byte("1"), time.Duration(ttl)*time.Millisecond)
	vf.Wait()
	if vf.Bool("again") {
		vf.Advance(time.Duration(vf.Int("pause", 0, 1000000000)) * time.Millisecond)
		ttl = vf.Int("ttl2", 0, 1000000000)
		c.Set("a", []byte("1"), time.Duration(ttl)*time.Millisecond)
		vf.Wait()
	}
	age := int64(0)
	for i := 0; i < 2; i++ {
		d := vf.Int("delay", 0, 1000000000)
		age += d
		vf.Advance(time.Duration(d) * time.Millisecond)
		if present(c, "a") {
			vf.Reach("found")
			vf.Assert(age <= ttl, "an item is not returned after its TTL")
		} else {
			vf.Reach("expired")
			vf.Assert(age >= ttl, "an item is returned during its TTL")
		}
	}
	if rc != nil {
		rc.Stop()
	}
}

// In a two-tier setup an item outlives its TTL by at most the layered TTL,
// counted from its last fetch from the remote tier, and the writing node never
// returns it after its TTL.
//
// Bounds: any TTL up to 10^6 s and layered TTL up to 10^5 s in milliseconds;
// two nodes sharing one remote tier, three lookups at the other node and one
// at the writing node after any delays up to 10^6 s.
//
//vf:time=60 replace=github.com/redis/go-redis/v9.NewUniversalClient->universal
func C09_Layered() {
	s := newServer()
	ra := connect(s, provider.RedisClientConfig{MaxQueueBufferSize: 4, MaxQueueConcurrency: 1})
	rb := connect(s, provider.RedisClientConfig{MaxQueueBufferSize: 4, MaxQueueConcurrency: 1})
	layered := vf.Int("layered", 1, 100000000)
	mk := func(rc provider.RemoteCacheClient) provider.Provider {
		c, err := provider.NewCached(provider.NewRedisCache("test", rc), "test",
			time.Duration(layered)*time.Millisecond, provider.InMemoryCacheConfig{})
		vf.Assert(err == nil, "created")
		return c
	}
	a, b := mk(ra), mk(rb)
	ttl := vf.Int("ttl", 1, 1000000000)
	a.Set("a", []byte("1"), time.Duration(ttl)*time.Millisecond)
	vf.Wait()
	age, last := int64(0), int64(-1)
	for i := 0; i < 3; i++ {
		d := vf.Int("delay", 0, 1000000000)
		age += d
		vf.Advance(time.Duration(d) * time.Millisecond)
		n := s.n
		found := b.Get(context.Background(), "a") != nil
		if s.n > n && found {
			last = age
			vf.Reach("fetched")
			vf.Assert(age <= ttl, "nothing is fetched after its TTL")
		}
		if found {
			vf.Reach("found")
			vf.Assert(vf.And(last >= 0, age-last <= layered), "an item is kept locally for the layered TTL at most")
		} else {
			vf.Reach("expired")
			vf.Assert(age >= ttl, "an item is returned during its TTL")
		}
	}
	if present(a, "a") {
		vf.Assert(age <= ttl, "the writing node does not return an item after its TTL")
	} else {
		vf.Assert(age >= ttl, "the writing node returns an item during its TTL")
	}
	ra.Stop()
	rb.Stop()
}
