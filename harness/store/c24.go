package store

import (
	"context"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	vf "github.com/kacheio/kache/zzvf/vf"
	"github.com/redis/go-redis/v9"
)

// universalOf remembers how the client was configured.
func universalOf(opts *redis.UniversalOptions) redis.UniversalClient {
	asked = opts
	return universal(opts)
}

var asked *redis.UniversalOptions

// The provider is built as configured or rejected.
//
// Bounds: backends inmemory, redis, none and unknown ones; layered or not; an
// endpoint, two or none; -1 to 2 workers, a valid or negative
// buffer size; a reachable server or not; lifetimes
// from a list; symbolic limits up to 100 bytes for items of up to 100 bytes.
//
//vf:time=60 noreplay replace=github.com/redis/go-redis/v9.NewUniversalClient->universalOf
func C24_Provider() {
	s := newServer()
	current = s
	s.fail = vf.Bool("unreachable")
	backend := [...]string{"inmemory", "redis", "", "Redis", "memcached"}[vf.Choose("backend", 5)]
	layered := vf.Bool("layered")
	cfg := provider.ProviderBackendConfig{Backend: backend, Layered: layered}
	cfg.InMemory.MaxSize = uint64(vf.Int("max size", 0, 100))
	cfg.InMemory.MaxItemSize = uint64(vf.Int("max item size", 0, 100))
	ttls := [...]string{"", "-1", "5s", "x"}
	k := vf.Choose("ttl", 4)
	cfg.InMemory.DefaultTTL = ttls[k]
	isRedis := backend == "redis"
	local := 120 * time.Second
	if isRedis {
		cfg.Redis.Endpoint = [...]string{"r:1", "", "r:1,r:2"}[vf.Choose("endpoint", 3)]
		cfg.Redis.Username, cfg.Redis.Password, cfg.Redis.DB = "u", "p", 3
		cfg.Redis.MaxQueueConcurrency = vf.Choose("workers", 4) - 1
		cfg.Redis.MaxQueueBufferSize = [...]int{4, -1}[vf.Choose("buffer", 2)]
		if layered && vf.Bool("local ttl") {
			cfg.LayeredTTL = "50s"
			local = 50 * time.Second
		}
	}
	maxSize, maxItem := cfg.InMemory.MaxSize, cfg.InMemory.MaxItemSize
	if maxSize == 0 {
		maxSize = 1 << 28
	}
	if maxItem == 0 {
		maxItem = 1 << 27
	}
	mem := backend == "inmemory" || isRedis && layered
	bad := backend != "inmemory" && !isRedis || mem && maxItem > maxSize ||
		isRedis && (s.fail || cfg.Redis.Endpoint == "" || cfg.Redis.MaxQueueConcurrency < 1 || cfg.Redis.MaxQueueBufferSize < 0)
	c, err := provider.CreateCacheProvider("kache", cfg)
	vf.Assert((err != nil) == bad, "exactly invalid configurations are rejected")
	if bad {
		vf.Assert(c == nil, "there is no provider for an invalid configuration")
		vf.Reach("rejected")
		return
	}
	if isRedis {
		n := 1
		if cfg.Redis.Endpoint == "r:1,r:2" {
			n = 2
		}
		vf.Assert(len(asked.Addrs) == n && asked.Addrs[0] == "r:1" && asked.Addrs[n-1] == [...]string{"", "r:1", "r:2"}[n] &&
			asked.Username == "u" && asked.Password == "p" && asked.DB == 3, "the configured server is used")
	}
	ctx := context.Background()
	size := int(vf.Int("size", 1, 100))
	c.Set("a", make([]byte, size), hour)
	vf.Wait()
	_, remote := s.items["a"]
	vf.Assert(remote == isRedis, "exactly the Redis backend stores in Redis")
	s.fail = true
	got := c.Get(ctx, "a") != nil
	if mem {
		// Some bytes of overhead count as well.
		vf.Assert(vf.Implies(got, uint64(size) <= maxItem), "an item above the limit is not stored locally")
		vf.Assert(vf.Implies(uint64(size)+24 <= maxItem, got), "an item within the limits is stored locally")
	} else {
		vf.Assert(!got, "there is no local tier")
	}
	s.fail = false
	if isRedis {
		vf.Assert(c.Get(ctx, "a") != nil, "the item is stored in Redis")
	}
	if got && isRedis {
		// A copy fetched from Redis lives as long as configured.
		c.Set("b", make([]byte, size), hour)
		vf.Wait()
		other, err := provider.CreateCacheProvider("kache", cfg)
		vf.Assert(err == nil && other.Get(ctx, "b") != nil, "another node finds the item")
		s.fail = true
		d := time.Duration(vf.Int("delay", 0, 200)) * time.Second
		vf.Advance(d)
		if k != 1 {
			vf.Assert((other.Get(ctx, "b") != nil) == (d <= local), "a local copy lives as long as configured")
			vf.Reach("local")
		}
		s.fail = false
	}
	vf.Reach("done")
}
