package store

import (
	"context"
	"sync"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	vf "github.com/kacheio/kache/zzvf/vf"
)

// node returns a layered provider whose remote tier is s.
func node(s *server, buf, workers int) (provider.Provider, provider.RemoteCacheClient) {
	rc := connect(s, provider.RedisClientConfig{MaxQueueBufferSize: buf, MaxQueueConcurrency: workers})
	c, err := provider.NewCached(provider.NewRedisCache("test", rc), "test", hour, provider.InMemoryCacheConfig{})
	vf.Assert(err == nil, "created")
	return c, rc
}

// remover removes "a" (and maybe more) from c.
func remover(c provider.Provider) func() {
	ctx := context.Background()
	switch vf.Choose("remove", 4) {
	case 0:
		return func() { c.Delete(ctx, "a") }
	case 1:
		return func() { _ = c.Purge(ctx, "a*") }
	case 2:
		return func() { _ = c.Purge(ctx, "") }
	}
	return func() { _ = c.Flush(ctx) }
}

// Once a deletion, purge or flush of a layered provider has finished, no
// lookup that starts later finds an item stored before, however lookups ran
// concurrently.
//
// Bounds: one stored item (locally, remotely or both); one removal and two
// concurrent lookups, every interleaving with up to 2 (thorough: 3)
// preemptions.
//
//vf:time=60 ttime=300 replace=github.com/redis/go-redis/v9.NewUniversalClient->universal
func C13_Remove() {
	s := newServer()
	c, rc := node(s, 4, 1)
	ctx := context.Background()
	c.Set("a", []byte("1"), hour)
	vf.Wait()
	if vf.Bool("remote only") {
		rc.Stop()
		c, rc = node(s, 4, 1)
	}
	rm := remover(c)
	k := 2
	if vf.Thorough() {
		k = 3
	}
	var wg sync.WaitGroup
	wg.Add(3)
	vf.Explore(k)
	go func() { defer wg.Done(); rm() }()
	for i := 0; i < 2; i++ {
		go func() {
			defer wg.Done()
			if v := c.Get(ctx, "a"); v != nil {
				vf.Assert(string(v) == "1", "a lookup returns the stored value")
				vf.Reach("found")
			}
		}()
	}
	wg.Wait()
	vf.StopExplore()
	vf.Assert(c.Get(ctx, "a") == nil, "a removed item is not found again")
	vf.Assert(len(c.Keys(ctx, "")) == 0, "a removed item is not listed")
	vf.Reach("removed")
	rc.Stop()
}

// The same at another node that has no local copy.
//
// Bounds: as above, the lookups at another node and only after the removal;
// the removing node keeps nothing.
//
//vf:time=60 replace=github.com/redis/go-redis/v9.NewUniversalClient->universal
func C13_Remote() {
	s := newServer()
	a, ra := node(s, 4, 1)
	b, rb := node(s, 4, 1)
	ctx := context.Background()
	a.Set("a", []byte("1"), hour)
	a.Set("b", []byte("2"), hour)
	vf.Wait()
	remover(b)()
	vf.Assert(b.Get(ctx, "a") == nil, "a removed item is not found at the removing node")
	c, rcc := node(s, 4, 1)
	vf.Assert(c.Get(ctx, "a") == nil, "a removed item is not found at a third node")
	vf.Reach("removed")
	ra.Stop()
	rb.Stop()
	rcc.Stop()
}

// A stored value is found at the storing node at once and at every other node
// without a local copy as soon as it reached the remote tier; later values
// replace earlier ones.
//
// Bounds: two values stored one after the other, two concurrent lookups,
// every interleaving with up to 2 (thorough: 3) preemptions; one worker.
//
//vf:time=60 ttime=300 replace=github.com/redis/go-redis/v9.NewUniversalClient->universal
func C13_Set() {
	s := newServer()
	c, rc := node(s, 4, 1)
	ctx := context.Background()
	c.Set("a", []byte("1"), hour)
	if vf.Bool("drained") {
		vf.Wait()
	}
	k := 2
	if vf.Thorough() {
		k = 3
	}
	var wg sync.WaitGroup
	wg.Add(2)
	vf.Explore(k)
	for i := 0; i < 2; i++ {
		go func() {
			defer wg.Done()
			v := c.Get(ctx, "a")
			vf.Assert(v != nil, "a stored item is found")
			vf.Assert(string(v) == "1" || string(v) == "2", "a lookup returns a stored value")
		}()
	}
	c.Set("a", []byte("2"), hour)
	vf.Assert(string(c.Get(ctx, "a")) == "2", "the latest value is found at once")
	wg.Wait()
	vf.StopExplore()
	vf.Assert(string(c.Get(ctx, "a")) == "2", "the latest value stays")
	vf.Wait()
	d, rd := node(s, 4, 1)
	vf.Assert(string(d.Get(ctx, "a")) == "2", "the latest value is found at another node")
	vf.Reach("set")
	rc.Stop()
	rd.Stop()
}

// A removal is not undone by a store operation that was started before.
//
// Bounds: one item stored and then removed through the Redis or the layered
// provider, every order of the background worker.
//
//vf:time=60 replace=github.com/redis/go-redis/v9.NewUniversalClient->universal
func C13_Async() {
	s := newServer()
	var c provider.Provider
	var rc provider.RemoteCacheClient
	if vf.Bool("layered") {
		c, rc = node(s, 4, 1)
	} else {
		rc = connect(s, provider.RedisClientConfig{MaxQueueBufferSize: 4, MaxQueueConcurrency: 1})
		c = provider.NewRedisCache("test", rc)
	}
	ctx := context.Background()
	vf.Explore(1)
	c.Set("a", []byte("1"), hour)
	rm := remover(c)
	queued := s.sets == 0
	rm()
	vf.StopExplore()
	s.fail = true
	vf.Assert(c.Get(ctx, "a") == nil, "a removed item has no local copy")
	s.fail = false
	vf.Wait()
	vf.Known(c.Get(ctx, "a") == nil, "C13-async-store", queued, "a removed item is not found again")
	vf.Reach("removed")
	rc.Stop()
}

// The local tier never makes a lookup fail or find more than the remote tier
// held within the layered TTL: if the remote tier fails, only local copies are
// found, and errors of removals are reported while local copies are removed.
//
// Bounds: one item stored locally and remotely or remotely only; the remote
// tier failing or not; one removal.
//
//vf:time=60 replace=github.com/redis/go-redis/v9.NewUniversalClient->universal
func C13_Failure() {
	s := newServer()
	c, rc := node(s, 4, 1)
	ctx := context.Background()
	c.Set("a", []byte("1"), hour)
	vf.Wait()
	local := !vf.Bool("remote only")
	if !local {
		rc.Stop()
		c, rc = node(s, 4, 1)
	}
	s.fail = vf.Bool("fail")
	if vf.Bool("lookup") {
		vf.Assert((c.Get(ctx, "a") != nil) == (local || !s.fail), "a lookup finds the local copy, or the remote one")
		local = local || !s.fail
	}
	var ok bool
	switch vf.Choose("remove", 3) {
	case 0:
		ok = c.Delete(ctx, "a")
	case 1:
		ok = c.Purge(ctx, "*") == nil
	case 2:
		ok = c.Flush(ctx) == nil
	}
	vf.Assert(ok == !s.fail, "a failed removal is reported")
	vf.Assert(c.Get(ctx, "a") == nil, "the local copy is removed in any case")
	vf.Assert(len(c.Keys(ctx, "")) == 0, "nothing is listed")
	if s.fail {
		vf.Reach("failed")
		s.fail = false
		vf.Assert(c.Get(ctx, "a") != nil, "the remote copy is found again after the failure")
	} else {
		vf.Reach("removed")
	}
	vf.Advance(time.Second)
	rc.Stop()
}
