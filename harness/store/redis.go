// Package store holds the harnesses for the cache providers.
package store

import (
	"context"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/provider"
	vf "github.com/kacheio/kache/zzvf/vf"
	"github.com/redis/go-redis/v9"
)

// server is a redis server as far as kache may use one. It sits behind a hook
// of the real client library, which builds the commands and reads the replies.
type server struct {
	mu    sync.Mutex
	keys  []string
	items map[string]item
	page  int // keys per SCAN page
	fail  bool
	n     int // commands
	sets  int // executed stores

	flaky  func(cmd string) bool          // whether a command fails
	slow   func(cmd string) time.Duration // how long a command takes
	failed int                            // failed commands
	err    error                          // how they fail
}

type item struct {
	val string
	exp time.Time // zero: never
}

func newServer() *server { return &server{items: map[string]item{}, page: 10} }

func (s *server) DialHook(next redis.DialHook) redis.DialHook {
	return func(context.Context, string, string) (net.Conn, error) { panic("no network") }
}

func (s *server) ProcessPipelineHook(next redis.ProcessPipelineHook) redis.ProcessPipelineHook {
	return func(ctx context.Context, cmds []redis.Cmder) error {
		for _, c := range cmds {
			if err := s.exec(c); err != nil {
				return err
			}
		}
		return nil
	}
}

func (s *server) ProcessHook(next redis.ProcessHook) redis.ProcessHook {
	return func(ctx context.Context, cmd redis.Cmder) error {
		if err := ctx.Err(); err != nil {
			cmd.SetErr(err)
			return err
		}
		return s.exec(cmd)
	}
}

type serverError string

func (e serverError) Error() string { return string(e) }

func (s *server) alive(k string) (item, bool) {
	it, ok := s.items[k]
	if ok && !it.exp.IsZero() && !time.Now().Before(it.exp) {
		return item{}, false
	}
	return it, ok
}

func (s *server) del(k string) bool {
	_, ok := s.alive(k)
	delete(s.items, k)
	return ok
}

func toInt(v any) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case int:
		return int64(v)
	case uint64:
		return int64(v)
	}
	panic("number expected")
}

func toStr(v any) string {
	switch v := v.(type) {
	case string:
		return v
	case []byte:
		return string(v)
	}
	panic("string expected")
}

func (s *server) exec(cmd redis.Cmder) error {
	a := cmd.Args()
	if s.slow != nil {
		if d := s.slow(strings.ToLower(a[0].(string))); d > 0 {
			time.Sleep(d)
		}
	}
	if !vf.Symbolic() {
		// The engine runs one goroutine at a time.
		s.mu.Lock()
		defer s.mu.Unlock()
	}
	s.n++
	if s.fail || s.flaky != nil && s.flaky(strings.ToLower(a[0].(string))) {
		s.failed++
		if s.err == nil {
			s.err = serverError("connection refused")
		}
		cmd.SetErr(s.err)
		return cmd.Err()
	}
	switch strings.ToLower(a[0].(string)) {
	case "ping":
		cmd.(*redis.StatusCmd).SetVal("PONG")
	case "get":
		it, ok := s.alive(a[1].(string))
		if !ok {
			cmd.SetErr(redis.Nil)
			return redis.Nil
		}
		cmd.(*redis.StringCmd).SetVal(it.val)
	case "exists":
		n := int64(0)
		for _, k := range a[1:] {
			if _, ok := s.alive(k.(string)); ok {
				n++
			}
		}
		cmd.(*redis.IntCmd).SetVal(n)
	case "set", "setex", "psetex":
		k := a[1].(string)
		it := item{}
		rest := a[3:]
		val := a[2]
		switch strings.ToLower(a[0].(string)) {
		case "setex":
			it.exp = time.Now().Add(time.Duration(toInt(a[2])) * time.Second)
			val, rest = a[3], nil
		case "psetex":
			it.exp = time.Now().Add(time.Duration(toInt(a[2])) * time.Millisecond)
			val, rest = a[3], nil
		}
		it.val = toStr(val)
		for i := 0; i < len(rest); i++ {
			switch strings.ToLower(rest[i].(string)) {
			case "ex":
				i++
				it.exp = time.Now().Add(time.Duration(toInt(rest[i])) * time.Second)
			case "px":
				i++
				it.exp = time.Now().Add(time.Duration(toInt(rest[i])) * time.Millisecond)
			case "keepttl":
				old, _ := s.alive(k)
				it.exp = old.exp
			default:
				panic("unknown option of SET")
			}
		}
		s.items[k] = it
		s.sets++
		cmd.(*redis.StatusCmd).SetVal("OK")
	case "del", "unlink":
		n := int64(0)
		for _, k := range a[1:] {
			if s.del(k.(string)) {
				n++
			}
		}
		cmd.(*redis.IntCmd).SetVal(n)
	case "flushdb", "flushall":
		s.items = map[string]item{}
		cmd.(*redis.StatusCmd).SetVal("OK")
	case "dbsize":
		cmd.(*redis.IntCmd).SetVal(int64(len(s.sorted("*"))))
	case "keys":
		cmd.(*redis.StringSliceCmd).SetVal(s.sorted(a[1].(string)))
	case "scan":
		pat := "*"
		for i := 2; i+1 < len(a); i += 2 {
			if strings.ToLower(a[i].(string)) == "match" {
				pat = a[i+1].(string)
			}
		}
		// The cursor counts positions in the list of all names ever seen, so a
		// full scan returns every key that stays throughout.
		names := s.names()
		cur := int(toInt(a[1]))
		var page []string
		for n := 0; cur < len(names) && n < s.page; n++ {
			k := names[cur]
			if _, ok := s.alive(k); ok && glob(pat, k) {
				page = append(page, k)
			}
			cur++
		}
		if cur >= len(names) {
			cur = 0
		}
		cmd.(*redis.ScanCmd).SetVal(page, uint64(cur))
	default:
		panic("unknown command " + a[0].(string))
	}
	return nil
}

// names returns all names ever used in a fixed order.
func (s *server) names() []string {
	for k := range s.items {
		s.addName(k)
	}
	return s.keys
}

func (s *server) addName(k string) {
	for i, x := range s.keys {
		if x == k {
			return
		}
		if x > k {
			s.keys = append(s.keys[:i], append([]string{k}, s.keys[i:]...)...)
			return
		}
	}
	s.keys = append(s.keys, k)
}

func (s *server) sorted(pat string) []string {
	var out []string
	for _, k := range s.names() {
		if _, ok := s.alive(k); ok && glob(pat, k) {
			out = append(out, k)
		}
	}
	return out
}

// glob matches like redis' stringmatchlen.
func glob(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			if len(p) == 1 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if glob(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if len(s) == 0 {
				return false
			}
			s = s[1:]
		case '[':
			if len(s) == 0 {
				return false
			}
			p = p[1:]
			not := len(p) > 0 && p[0] == '^'
			if not {
				p = p[1:]
			}
			match := false
			for {
				if len(p) >= 2 && p[0] == '\\' {
					p = p[1:]
					if p[0] == s[0] {
						match = true
					}
				} else if len(p) == 0 {
					break
				} else if p[0] == ']' {
					break
				} else if len(p) >= 3 && p[1] == '-' {
					lo, hi := p[0], p[2]
					if lo > hi {
						lo, hi = hi, lo
					}
					p = p[2:]
					if s[0] >= lo && s[0] <= hi {
						match = true
					}
				} else if p[0] == s[0] {
					match = true
				}
				p = p[1:]
			}
			if match == not {
				return false
			}
			s = s[1:]
			if len(p) == 0 {
				return len(s) == 0
			}
		case '\\':
			if len(p) >= 2 {
				p = p[1:]
			}
			fallthrough
		default:
			if len(s) == 0 || p[0] != s[0] {
				return false
			}
			s = s[1:]
		}
		p = p[1:]
	}
	return len(s) == 0
}

var current *server

// universal stands for redis.NewUniversalClient in the engine.
func universal(opts *redis.UniversalOptions) redis.UniversalClient {
	c := redis.NewClient(opts.Simple())
	c.AddHook(current)
	return c
}

// connect returns a redis client talking to s.
func connect(s *server, cfg provider.RedisClientConfig) provider.RemoteCacheClient {
	cfg.Endpoint = "localhost:1"
	if vf.Symbolic() {
		current = s
		c, err := provider.NewRedisClient("test", cfg)
		vf.Assert(err == nil, "the redis client is created")
		return c
	}
	// The constructor checks the connection: let it talk to a real server, then
	// swap the connection.
	m, err := miniredis.Run()
	if err != nil {
		panic(err)
	}
	cfg.Endpoint = m.Addr()
	c, err := provider.NewRedisClient("test", cfg)
	if err != nil {
		panic(err)
	}
	u := redis.NewClient(&redis.Options{Addr: "localhost:1"})
	u.AddHook(s)
	_ = provider.VFSwap(c, u).Close()
	m.Close()
	return c
}
