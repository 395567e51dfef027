package store

import (
	"context"
	"fmt"
	"io"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	vf "github.com/kacheio/kache/zzvf/vf"
)

// Whatever commands fail at the Redis server, no operation crashes or returns
// wrong data: a lookup is a miss, a store is dropped, a listing is empty, a
// removal is reported as failed and never touches other items; once the server
// works again all operations do.
//
// Bounds: Redis alone; two keys; histories of three operations (thorough: four)
// of six kinds, each of their commands failing or not, with an error of the
// server, the connection or a context; pages of one or two keys.
//
//vf:time=80 ttime=500 replace=github.com/redis/go-redis/v9.NewUniversalClient->universal
func C25_Failure() {
	s := newServer()
	s.page = 1 + vf.Choose("page", 2)
	rc := connect(s, provider.RedisClientConfig{MaxQueueBufferSize: 4, MaxQueueConcurrency: 1})
	c := provider.NewRedisCache("test", rc)
	ctx := context.Background()
	keys := [...]string{"a", "b"}
	have := [2]string{"1", "2"}
	for i, k := range keys {
		c.Set(k, []byte(have[i]), hour)
	}
	vf.Wait()
	// may[i]: an operation failed half-way, the item may be gone.
	var may [2]bool
	s.flaky = func(string) bool { return vf.Bool("fail") }
	switch vf.Choose("error", 4) {
	case 1:
		s.err = context.Canceled
	case 2:
		s.err = fmt.Errorf("redis: %w", context.DeadlineExceeded)
	case 3:
		s.err = io.EOF
	}
	n := 3
	if vf.Thorough() {
		n = 4
	}
	for j := 0; j < n; j++ {
		before := s.failed
		broken := func() bool { return s.failed > before }
		i := 0
		op := vf.Choose("op", 6)
		if op < 4 {
			i = vf.Choose("key", 2)
		}
		switch op {
		case 0:
			got := c.Get(ctx, keys[i])
			if broken() {
				vf.Assert(got == nil, "a failed lookup is a miss")
				vf.Reach("miss")
			} else {
				vf.Assert(string(got) == have[i] && (got != nil || have[i] == "") || may[i] && got == nil, "a lookup finds the item")
			}
		case 1:
			v := [...]string{"3", "4", "5", "6"}[j]
			c.Set(keys[i], []byte(v), hour)
			vf.Wait()
			if !broken() {
				have[i], may[i] = v, false
			} else {
				vf.Reach("dropped")
			}
		case 2:
			ok := c.Delete(ctx, keys[i])
			vf.Assert(ok == !broken(), "a failed removal is reported")
			if ok {
				have[i], may[i] = "", false
			}
		case 3:
			err := c.Purge(ctx, keys[i]+"*")
			vf.Assert((err != nil) == broken(), "a failed purge is reported")
			if err == nil {
				have[i], may[i] = "", false
			} else {
				may[i] = true
				vf.Reach("half")
			}
		case 4:
			err := c.Flush(ctx)
			vf.Assert((err != nil) == broken(), "a failed flush is reported")
			if err == nil {
				have, may = [2]string{}, [2]bool{}
			}
		case 5:
			ks := c.Keys(ctx, "")
			if broken() {
				vf.Assert(len(ks) == 0, "a failed listing is empty")
				vf.Reach("unlisted")
			} else {
				m := 0
				for i := range keys {
					found := false
					for _, k := range ks {
						found = found || k == keys[i]
					}
					if found {
						m++
					}
					vf.Assert(found == (have[i] != "") || may[i] && !found, "a listing is complete")
				}
				vf.Assert(m == len(ks), "a listing has nothing else")
			}
		}
	}
	s.flaky = nil
	for i, k := range keys {
		got := c.Get(ctx, k)
		vf.Assert(string(got) == have[i] || may[i] && got == nil, "failures spare other items")
	}
	c.Set("a", []byte("9"), hour)
	vf.Wait()
	vf.Assert(string(c.Get(ctx, "a")) == "9", "stores work again")
	vf.Assert(c.Purge(ctx, "*") == nil && len(c.Keys(ctx, "")) == 0, "removals work again")
	rc.Stop()
	vf.Reach("done")
}

// A Redis server that hangs delays neither stores nor what waits for them;
// stores beyond the queue are dropped, the others are made in the end, and
// items above the size limit are not stored.
//
// Bounds: queues of one or two places, one or two workers, five stores of up to
// two bytes with a limit of one byte or none; a server taking any time up to
// 1000 s; Redis alone or below a local tier.
//
//vf:time=60 replace=github.com/redis/go-redis/v9.NewUniversalClient->universal
func C25_Hang() {
	s := newServer()
	size, workers := 1+vf.Choose("size", 2), 1+vf.Choose("workers", 2)
	limit := vf.Choose("limit", 2)
	rc := connect(s, provider.RedisClientConfig{MaxQueueBufferSize: size, MaxQueueConcurrency: workers, MaxItemSize: limit})
	var c provider.Provider = provider.NewRedisCache("test", rc)
	layered := vf.Bool("layered")
	if layered {
		var err error
		c, err = provider.NewCached(c, "test", 1000*time.Second, provider.InMemoryCacheConfig{})
		vf.Assert(err == nil, "the provider is created")
	}
	d := time.Duration(vf.Int("slow", 1, 1000e9))
	s.slow = func(cmd string) time.Duration {
		if cmd == "set" {
			return d
		}
		return 0
	}
	ctx := context.Background()
	vf.Wait()
	keys := [...]string{"a", "b", "c", "d", "e"}
	big := [5]bool{}
	start := time.Now()
	for i, k := range keys {
		v := "x"
		if i < 2 && vf.Bool("big") {
			big[i] = true
			v = "xx"
		}
		c.Set(k, []byte(v), 10*hour)
		if layered {
			vf.Assert(string(c.Get(ctx, k)) == v, "the local tier has the item at once")
		}
	}
	vf.Assert(time.Since(start) == 0, "stores do not wait for the server")
	vf.Assert(c.Get(ctx, "other") == nil && time.Since(start) == 0, "lookups do not wait for stores")
	vf.Advance(5000 * time.Second)
	s.slow = nil
	for i, k := range keys {
		it, ok := s.alive(k)
		if i < size && !(big[i] && limit == 1) {
			vf.Assert(ok, "stores within the queue are made")
		}
		if big[i] && limit == 1 {
			vf.Assert(!ok, "items above the limit are not stored")
			vf.Reach("big")
		} else if ok {
			want := "x"
			if big[i] {
				want = "xx"
			}
			vf.Assert(it.val == want, "an item is stored unchanged")
		}
	}
	rc.Stop()
	vf.Reach("done")
}
