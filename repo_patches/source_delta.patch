From 1250b7793d2c50c539d10af6a3216fd33dea73b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 01/59] fix: keep percent-encoded path characters distinct in
 the cache key

---
 pkg/cache/key.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/cache/key.go b/pkg/cache/key.go
index 38eed29..7eba51d 100644
--- a/pkg/cache/key.go
+++ b/pkg/cache/key.go
@@ -36,6 +36,7 @@ type Key struct {
 	ClusterName string
 	Host        string
 	Path        string
+	RawPath     string // encoded path hint, see url.URL
 	Query       string
 	Scheme      string
 }
@@ -57,6 +58,14 @@ func NewKeyFromRequst(req *http.Request) *Key {
 			key.Scheme = "https"
 		}
 	}
+	if req.URL.RawPath != "" {
+		// Different resources must not share a key: an encoded reserved
+		// character (e.g. %2F) is not equivalent to its decoded form.
+		key.RawPath = cleanPath(req.URL.EscapedPath())
+		if p, err := url.PathUnescape(key.RawPath); err == nil {
+			key.Path = p
+		}
+	}
 	return key
 }
 
@@ -66,6 +75,7 @@ func (k Key) String() string {
 		Scheme:   k.Scheme,
 		Host:     k.Host,
 		Path:     k.Path,
+		RawPath:  k.RawPath,
 		RawQuery: k.Query,
 	}
 	return fmt.Sprintf("%s%s", k.ClusterName, url.String())
-- 
2.43.0


From 4d503bdf0cd8678db5b152c662617df45a24c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:31 +0000
Subject: [PATCH 02/59] fix: do not drop malformed query parameters from the
 cache key

---
 pkg/cache/key.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/key.go b/pkg/cache/key.go
index 7eba51d..301510f 100644
--- a/pkg/cache/key.go
+++ b/pkg/cache/key.go
@@ -48,7 +48,7 @@ func NewKeyFromRequst(req *http.Request) *Key {
 		ClusterName: "kache-",
 		Host:        req.Host,
 		Path:        cleanPath(req.URL.Path),
-		Query:       req.URL.Query().Encode(),
+		Query:       cleanQuery(req.URL.RawQuery),
 		Scheme:      req.URL.Scheme,
 	}
 	if key.Scheme == "" {
@@ -104,3 +104,14 @@ func cleanPath(p string) string {
 	}
 	return path.Clean(p)
 }
+
+// cleanQuery returns the canonical (sorted) query for q. A query that cannot be
+// parsed is used as is, as dropping the malformed parts would map different
+// resources to the same key.
+func cleanQuery(q string) string {
+	values, err := url.ParseQuery(q)
+	if err != nil {
+		return q
+	}
+	return values.Encode()
+}
-- 
2.43.0


From 4d3f03da23e6b517546dbfb210b74675ea58080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 03/59] fix: match cache-control directive names
 case-insensitively

---
 pkg/cache/cache_control.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 8f92c7d..c31b10c 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -185,7 +185,8 @@ func splitDirective(s string) (dir string, arg string) {
 	} else {
 		dir = strings.TrimSpace(s)
 	}
-	return dir, arg
+	// Directive names are case-insensitive.
+	return strings.ToLower(strings.TrimSpace(dir)), arg
 }
 
 // parseDuration parses a directive argument and returns a valid duration in
-- 
2.43.0


From 1605471a5da57977debb16c91f137a9e91686806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 04/59] fix: consider all cache-control header lines

---
 pkg/cache/cacheable.go | 9 ++++++++-
 pkg/cache/httpcache.go | 6 +++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index e2f6a90..e51a2ff 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -24,6 +24,7 @@ package cache
 
 import (
 	"net/http"
+	"strings"
 )
 
 type (
@@ -116,7 +117,7 @@ func IsCacheableRequest(req *http.Request) bool {
 // then its response is also not cacheable. Hence, CanServeRequestFromCache and
 // `IsCacheableResponse` together should cover the cacheability of the response.
 func IsCacheableResponse(res *http.Response) bool {
-	cacheControl := res.Header.Get(HeaderCacheControl)
+	cacheControl := headerList(res.Header, HeaderCacheControl)
 	resCacheControl := ParseResponseCacheControl(cacheControl)
 
 	// Only cache responses with enough data to calculate freshness lifetime:
@@ -132,6 +133,12 @@ func IsCacheableResponse(res *http.Response) bool {
 		hasValidationData
 }
 
+// headerList returns all values of a list-based header field as a single list. A field
+// that is sent in several lines is equivalent to one line with the joined values.
+func headerList(h http.Header, key string) string {
+	return strings.Join(h.Values(key), ", ")
+}
+
 // Contains checks if the given key is in the map.
 func Contains[K comparable, V any](m map[K]V, k K) bool {
 	if _, ok := m[k]; ok {
diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 3e86cbd..b26da8a 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -360,7 +360,7 @@ type LookupRequest struct {
 func NewLookupRequest(req *http.Request, timestamp time.Time, strict bool) *LookupRequest {
 	var requestCacheControl RequestCacheControl
 	requestCacheControl.SetDefaults()
-	cacheControl := req.Header.Get(HeaderCacheControl)
+	cacheControl := headerList(req.Header, HeaderCacheControl)
 
 	if cacheControl != "" {
 		requestCacheControl = ParseRequestCacheControl(cacheControl)
@@ -369,7 +369,7 @@ func NewLookupRequest(req *http.Request, timestamp time.Time, strict bool) *Look
 		// According to https://httpwg.org/specs/rfc7234.html#header.pragma, when the Cache-Control
 		// header is not set, the "Pragma:no-cache" directive is equivalent to "Cache-Control:no-cache",
 		// any other directives are ignored.
-		pragma := req.Header.Get(HeaderPragma)
+		pragma := headerList(req.Header, HeaderPragma)
 		requestCacheControl.MustValidate = ParseRequestCacheControl(pragma).MustValidate
 	}
 
@@ -404,7 +404,7 @@ func (l *LookupRequest) makeResult(res *http.Response, resTime time.Time) *Looku
 
 // requiresValidation checks if the cached response needs to be validated by the origin.
 func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duration) bool {
-	resCacheControl := ParseResponseCacheControl(header.Get(HeaderCacheControl))
+	resCacheControl := ParseResponseCacheControl(headerList(*header, HeaderCacheControl))
 	reqCacheControl := l.ReqCacheControl
 
 	maxAgeExceeded := reqCacheControl.MaxAge >= 0 && reqCacheControl.MaxAge < age
-- 
2.43.0


From f19a0346f9532baf20956ecffc7b8eb71e4839ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 05/59] fix: do not serve responses without a valid date as
 fresh forever

---
 pkg/cache/cache_control.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index c31b10c..9a29b5e 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -232,8 +232,11 @@ func parseHttpTime(s string) time.Time {
 // https://httpwg.org/specs/rfc7234.html#age.calculations
 func CalculateAge(headers *http.Header, responseTime time.Time, now time.Time) time.Duration {
 	// Calculate apparent age.
-	date := parseHttpTime(headers.Get(HeaderDate))
-	apparentAge := max(0, int64(responseTime.Sub(date)))
+	// Without a valid Date, the response is assumed to be generated when it was received.
+	apparentAge := int64(0)
+	if date := parseHttpTime(headers.Get(HeaderDate)); !date.IsZero() {
+		apparentAge = max(0, int64(responseTime.Sub(date)))
+	}
 
 	// Set corrected age to the value Age header,
 	// as response delay (response_time - request_time) is assumed to be negligible.
@@ -248,6 +251,9 @@ func CalculateAge(headers *http.Header, responseTime time.Time, now time.Time) t
 	// since the response was last validated by the origin server.
 	residentTime := now.Sub(responseTime)
 	currentAge := correctedInitialAge + int64(residentTime)
+	if residentTime > 0 && currentAge < correctedInitialAge {
+		currentAge = math.MaxInt64 // overflow, the response is older than we can express.
+	}
 
 	return time.Duration(currentAge).Truncate(time.Second)
 }
-- 
2.43.0


From d375394ae99c28dffcdd449f10c999708366f604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 06/59] fix: treat overflowing delta-seconds as the maximum
 duration

---
 pkg/cache/cache_control.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 9a29b5e..2ae770b 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -191,10 +191,14 @@ func splitDirective(s string) (dir string, arg string) {
 
 // parseDuration parses a directive argument and returns a valid duration in
 // seconds. Any invalid duration is ignored, returning a negative duration.
+// A number of seconds too large to be represented is the maximum duration.
 // https://httpwg.org/specs/rfc7234.html#delta-seconds
 func parseDuration(s string) time.Duration {
 	s = strings.Trim(s, "\"'") // trim quotes
 	d, err := time.ParseDuration(s + "s")
+	if err != nil && s != "" && strings.Trim(s, "0123456789") == "" {
+		return time.Duration(math.MaxInt64) // overflow
+	}
 	if err != nil || d < 0 {
 		return time.Duration(-1)
 	}
@@ -240,11 +244,7 @@ func CalculateAge(headers *http.Header, responseTime time.Time, now time.Time) t
 
 	// Set corrected age to the value Age header,
 	// as response delay (response_time - request_time) is assumed to be negligible.
-	age, err := time.ParseDuration(headers.Get(HeaderAge) + "s")
-	if err != nil {
-		age = time.Duration(0 * time.Second)
-	}
-	correctedAge := age
+	correctedAge := max(0, parseDuration(headers.Get(HeaderAge)))
 	correctedInitialAge := max(int64(apparentAge), int64(correctedAge))
 
 	// Calculate current age by adding the amount of time (seconds)
-- 
2.43.0


From 52ed3f452a87331913f336702f9f96ef88fe01a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:02 +0000
Subject: [PATCH 07/59] fix: treat an invalid Expires header as already expired

---
 pkg/cache/httpcache.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index b26da8a..bb4d874 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -27,6 +27,7 @@ import (
 	"bytes"
 	"context"
 	"fmt"
+	"math"
 	"net/http"
 	"net/http/httputil"
 	"regexp"
@@ -421,14 +422,22 @@ func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duratio
 	} else {
 		expires := parseHttpTime(header.Get(HeaderExpires))
 		date := parseHttpTime(header.Get(HeaderDate))
+		if expires.IsZero() || date.IsZero() {
+			// An invalid date, especially the value "0", represents a time in the past.
+			expires = date.Add(-time.Second)
+		}
 		freshness = expires.Sub(date)
 	}
 
 	if age > freshness { // Stale response.
 		// Check if the response is allowed being served stale,
 		// or if the request max-stale directive prevents it.
+		staleness := age - freshness
+		if staleness < 0 {
+			staleness = math.MaxInt64 // overflow
+		}
 		allowStale := reqCacheControl.MaxStale >= 0 &&
-			reqCacheControl.MaxStale > age-freshness
+			reqCacheControl.MaxStale > staleness
 
 		return resCacheControl.NoStale || !allowStale
 	}
-- 
2.43.0


From 89032ccee30d473bd5cfa57de608961786e8db9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 08/59] fix: bypass the cache for range requests

---
 pkg/cache/cacheable.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index e51a2ff..440f989 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -42,6 +42,7 @@ const (
 
 	// Request headers
 	HeaderPragma            = "Pragma"
+	HeaderRange             = "Range"
 	HeaderIfRange           = "If-Range"
 	HeaderIfMatch           = "If-Match"
 	HeaderIfNoneMatch       = "If-None-Match"
@@ -101,6 +102,11 @@ func IsCacheableRequest(req *http.Request) bool {
 		}
 	}
 
+	// Partial content is not supported, requests with a range header bypass the cache.
+	if _, ok := req.Header[HeaderRange]; ok {
+		return false
+	}
+
 	// Check if the request contains authorization headers.
 	// For now, requests with authorization headers bypass the cache.
 	// https://httpwg.org/specs/rfc7234.html#caching.authenticated.responses
-- 
2.43.0


From 8d0258f4c51017d777bc639e457d23051cb8b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 09/59] fix: use the default cache config if a reloaded config
 has no cache section

---
 pkg/cache/httpcache.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index bb4d874..36d68ba 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -132,15 +132,10 @@ type HttpCache struct {
 
 // NewHttpCache creates a new http cache.
 func NewHttpCache(config *HttpCacheConfig, pdr provider.Provider) (*HttpCache, error) {
-	cfg := &HttpCacheConfig{Strict: true}
-	if config != nil {
-		cfg = config
-
-	}
 	c := &HttpCache{
 		cache: pdr,
 	}
-	c.UpdateConfig(cfg)
+	c.UpdateConfig(config)
 	return c, nil
 }
 
@@ -158,6 +153,10 @@ func (c *HttpCache) loadConfig() *HttpCacheConfig {
 
 // UpdateConfig updates the cache config in a concurrent safe way.
 func (c *HttpCache) UpdateConfig(config *HttpCacheConfig) {
+	if config == nil {
+		config = &HttpCacheConfig{Strict: true}
+	}
+
 	// Compile custom timeout matchers.
 	for i, t := range config.Timeouts {
 		r, err := regexp.Compile(t.Path)
-- 
2.43.0


From 0272ebc0fcca49f63ab2065aacdde6c32a8ddda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:18 +0000
Subject: [PATCH 10/59] fix: do not panic on a 304 response without a cached
 response

---
 pkg/server/middleware/httpcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index c88a3c9..f773658 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -147,7 +147,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 	}
 
 	shouldUpdateCachedEntry := true
-	if resp.StatusCode == http.StatusNotModified {
+	if resp.StatusCode == http.StatusNotModified && cached.Status == cache.EntryRequiresValidation {
 		// If the 304 response contains a strong validator (etag) that does not match
 		// the cached response, the cached response should not be updated.
 		resEtag := resp.Header.Get(cache.HeaderEtag)
-- 
2.43.0


From 9a29afe2bcfe4a1d7fd9d2925e47afb0122480df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 11/59] fix: validate with If-Modified-Since if Last-Modified
 is missing

---
 pkg/server/middleware/httpcache.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index f773658..c78b021 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -227,11 +227,10 @@ func (t *Transport) injectValidationHeaders(ireq *http.Request, header http.Head
 	if lastModified := header.Get(cache.HeaderLastModified); lastModified != "" {
 		forkReq()
 		req.Header.Set(cache.HeaderIfModifiedSince, lastModified)
-	} else {
+	} else if date := header.Get(cache.HeaderDate); date != "" {
 		// Fallback to Date header if Last-Modified is missing.
 		forkReq()
-		date := header.Get(cache.HeaderDate)
-		req.Header.Set(cache.HeaderLastModified, date)
+		req.Header.Set(cache.HeaderIfModifiedSince, date)
 	}
 
 	return req
-- 
2.43.0


From 273b853bd19f18ba159dc87e37b0a2f95e7aebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:58 +0000
Subject: [PATCH 12/59] fix: only mark cached responses if x_header is enabled

---
 pkg/server/middleware/httpcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index c78b021..3465e25 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -188,7 +188,9 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 // handleCacheHit handles a cache hit and sends the cached response downstream.
 func (t *Transport) handleCacheHit(key string, cached *cache.LookupResult) (*http.Response, error) {
 	log.Debug().Str("cache-key", key).Interface("header", cached.Header()).Str("x-cache", "HIT").Send()
-	cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
+	if t.Cache.MarkCachedResponses() {
+		cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
+	}
 	return cached.Response(), nil
 }
 
-- 
2.43.0


From 269ca6b43f773e253af6434596dc813571560627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 13/59] fix: expire in-memory items by TTL if no default TTL is
 configured

---
 pkg/provider/cached.go   | 1 +
 pkg/provider/inmemory.go | 5 ++---
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/provider/cached.go b/pkg/provider/cached.go
index e465220..a0b6a9d 100644
--- a/pkg/provider/cached.go
+++ b/pkg/provider/cached.go
@@ -61,6 +61,7 @@ func NewCached(cache Provider, name string, ttl time.Duration, config InMemoryCa
 	l, err := NewInMemoryCache(InMemoryCacheConfig{
 		MaxSize:     config.MaxSize,
 		MaxItemSize: config.MaxItemSize,
+		DefaultTTL:  config.DefaultTTL,
 	})
 	if err != nil {
 		return nil, err
diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 06a1ca4..6e94332 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -86,7 +86,7 @@ type InMemoryCacheConfig struct {
 	// DefaultTTL is the defautl ttl of a single item.
 	DefaultTTL string `yaml:"default_ttl"`
 	// TTLEviction specifies if evction of items by TTL is enabled.
-	// Set to true if`DefaultTTL` is -1.
+	// Set to true unless `DefaultTTL` is -1.
 	TTLEviction bool
 }
 
@@ -100,9 +100,8 @@ func (c *InMemoryCacheConfig) Sanitize() {
 	}
 	if len(c.DefaultTTL) == 0 {
 		c.DefaultTTL = DefaultInMemoryCacheConfig.DefaultTTL
-	} else {
-		c.TTLEviction = c.DefaultTTL != "-1"
 	}
+	c.TTLEviction = c.DefaultTTL != "-1"
 }
 
 // NewInMemoryCache creates a new thread-safe LRU in memory cache.
-- 
2.43.0


From 30972910dfdd9f7738d8015d290dc4ad10a82563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:10 +0000
Subject: [PATCH 14/59] fix: guard flushing the in-memory cache

---
 pkg/provider/inmemory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 6e94332..3ce7d01 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -266,6 +266,8 @@ func (c *inMemoryCache) Purge(ctx context.Context, pattern string) error {
 
 // Flush deletes all elements from the cache.
 func (c *inMemoryCache) Flush(ctx context.Context) error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.reset()
 	return nil
 }
-- 
2.43.0


From 78750070f89411f8dddd0ca6bbcf0b97e147bc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 15/59] fix: release the TTL of evicted in-memory items

---
 pkg/provider/inmemory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 3ce7d01..149cf37 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -143,6 +143,7 @@ func NewInMemoryCache(config InMemoryCacheConfig) (Provider, error) {
 // onEvict is the eviction callback.
 func (c *inMemoryCache) onEvict(key string, val []byte) {
 	c.curSize -= itemSize(val)
+	delete(c.ttl, key)
 }
 
 // Get retrieves an element based on the provided key.
-- 
2.43.0


From 4be01ef10cb4137b5eee505d8acf975882f033dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:21 +0000
Subject: [PATCH 16/59] fix: do not keep an outdated in-memory item if its new
 value is too big

---
 pkg/provider/inmemory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 149cf37..364e81a 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -174,6 +174,7 @@ func (c *inMemoryCache) Set(key string, value []byte, ttl time.Duration) {
 	size := itemSize(value)
 	if size > c.maxItemSizeBytes {
 		log.Debug().Msg("Item is bigger than maxItemSize")
+		c.inner.Remove(key) // do not keep the outdated value.
 		return
 	}
 
-- 
2.43.0


From 4d54fb8d6460e27f78d1c96baa7a1a0c194961f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 17/59] fix: match purge patterns literally except for
 wildcards

---
 pkg/provider/inmemory.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 364e81a..c20b7ef 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -284,10 +284,6 @@ func (c *inMemoryCache) Size() int {
 // TODO: check if we should use a module for this or implement it ourselves and not use regex.
 func wildcardToRegex(pattern string) string {
 	parts := strings.Split(pattern, "*")
-	if len(parts) == 1 {
-		// No *'s, return exact match pattern.
-		return "^" + pattern + "$"
-	}
 	var result strings.Builder
 	for i, p := range parts {
 		// Replace * with .*
@@ -297,5 +293,5 @@ func wildcardToRegex(pattern string) string {
 		// Quote any regular expression meta character.
 		_, _ = result.WriteString(regexp.QuoteMeta(p))
 	}
-	return "^" + result.String() + "$"
+	return "(?s)^" + result.String() + "$"
 }
-- 
2.43.0


From 879146ec7859e2189f6e0188c463318f1365d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:53 +0000
Subject: [PATCH 18/59] fix: do not restore deleted items in the local cache
 tier

---
 pkg/provider/cached.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/provider/cached.go b/pkg/provider/cached.go
index a0b6a9d..c5f891a 100644
--- a/pkg/provider/cached.go
+++ b/pkg/provider/cached.go
@@ -106,10 +106,13 @@ func (c *Cached) Set(key string, value []byte, ttl time.Duration) {
 
 // Delete deletes an element in the cache.
 func (c *Cached) Delete(ctx context.Context, key string) bool {
+	// Delete from the inner cache first, otherwise a concurrent fetch
+	// could restore the deleted element in the outer cache.
+	ok := c.inner.Delete(ctx, key)
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.outer.Delete(ctx, key)
-	c.mu.Unlock()
-	return c.inner.Delete(ctx, key)
+	return ok
 }
 
 // Keys returns a slice of cache keys.
@@ -119,18 +122,20 @@ func (c *Cached) Keys(ctx context.Context, prefix string) []string {
 
 // Purge purges all keys matching the spedified pattern from the cache.
 func (c *Cached) Purge(ctx context.Context, pattern string) error {
+	err := c.inner.Purge(ctx, pattern)
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_ = c.outer.Purge(ctx, pattern)
-	c.mu.Unlock()
-	return c.inner.Purge(ctx, pattern)
+	return err
 }
 
 // Flush deletes all elements from the cache.
 func (c *Cached) Flush(ctx context.Context) error {
+	err := c.inner.Flush(ctx)
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_ = c.outer.Flush(ctx)
-	c.mu.Unlock()
-	return c.inner.Flush(ctx)
+	return err
 }
 
 // Size returns the number of entries currently stored in the Cache.
-- 
2.43.0


From 63cbdfd4b932b4c260748476130ebc542bef8162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 19/59] fix: match purge patterns literally in redis except for
 wildcards

---
 pkg/provider/redis_client.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index ea37fbb..9e7f5e2 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -158,7 +158,7 @@ func (c *redisClient) Delete(ctx context.Context, key string) error {
 // Keys returns a slice of cache keys.
 func (c *redisClient) Keys(ctx context.Context, prefix string) []string {
 	var keys []string
-	iter := c.Scan(ctx, 0, prefix+"*", 0).Iterator()
+	iter := c.Scan(ctx, 0, escapePattern(prefix)+"*", 0).Iterator()
 	for iter.Next(ctx) {
 		keys = append(keys, iter.Val())
 	}
@@ -179,7 +179,7 @@ func (c *redisClient) Stop() {
 // Purge purges keys matching the specified pattern from the cache. If the pattern is
 // empty, all keys will be removed from the cache, similar to a `Flush`.
 func (c *redisClient) Purge(ctx context.Context, pattern string) error {
-	iter := c.Scan(ctx, 0, pattern, 0).Iterator()
+	iter := c.Scan(ctx, 0, escapePattern(pattern), 0).Iterator()
 
 	for iter.Next(ctx) {
 		key := iter.Val()
@@ -198,3 +198,12 @@ func (c *redisClient) Purge(ctx context.Context, pattern string) error {
 func (c *redisClient) Flush(ctx context.Context) error {
 	return c.FlushDB(ctx).Err()
 }
+
+// patternEscaper escapes the special characters of a Redis glob-style pattern, except '*'.
+var patternEscaper = strings.NewReplacer(`\`, `\\`, "?", `\?`, "[", `\[`, "]", `\]`)
+
+// escapePattern returns a pattern matching everything but wildcards literally, as keys
+// (URLs) commonly contain special characters.
+func escapePattern(pattern string) string {
+	return patternEscaper.Replace(pattern)
+}
-- 
2.43.0


From 8400cdb903dba47d58dd4125b56608f4fbae2040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 20/59] fix: enforce access control lists consisting of
 networks only

---
 pkg/api/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index 9361c4b..bcae033 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -86,7 +86,7 @@ func NewIPFilter(whitelist string) (*IPFilter, error) {
 // request bypasses the filter.
 func (f *IPFilter) Wrap(next http.HandlerFunc) http.HandlerFunc {
 	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
-		if len(f.allowedIPs) == 0 {
+		if len(f.allowedIPs) == 0 && len(f.allowedCIDRs) == 0 {
 			next(w, r)
 			return
 		}
-- 
2.43.0


From a74f671f5e45b8091b02dac65b88677aa1427087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:35 +0000
Subject: [PATCH 21/59] fix: determine the client address of IPv6 API requests

---
 pkg/api/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index bcae033..5e0c79c 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -129,8 +129,8 @@ func originalIP(req *http.Request) (netip.Addr, error) {
 	// The default is the originating IP. But, we try to find better
 	// options as this is almost never the right IP we're looking for.
 	addr := ""
-	if parts := strings.Split(req.RemoteAddr, ":"); len(parts) == 2 {
-		addr = parts[0]
+	if host, _, err := net.SplitHostPort(req.RemoteAddr); err == nil {
+		addr = host
 	}
 
 	// If we have a forwarded-for header, take the address from there.
-- 
2.43.0


From a1ff2b0012dfc8eb1b113212548f167cbf6f74a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:40 +0000
Subject: [PATCH 22/59] fix: use the last X-Forwarded-For line to determine the
 client address

---
 pkg/api/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index 5e0c79c..4915ed2 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -134,7 +134,7 @@ func originalIP(req *http.Request) (netip.Addr, error) {
 	}
 
 	// If we have a forwarded-for header, take the address from there.
-	if xff := strings.Trim(req.Header.Get("X-Forwarded-For"), ","); len(xff) > 0 {
+	if xff := strings.Trim(strings.Join(req.Header.Values("X-Forwarded-For"), ","), ","); len(xff) > 0 {
 		addrs := strings.Split(xff, ",")
 		last := strings.TrimSpace(addrs[len(addrs)-1])
 		return netip.ParseAddr(last)
-- 
2.43.0


From 5dd8d98856dea9b8645a3970aea7328a9c3abbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 23/59] fix: do not report an invalid config as unchanged when
 reloaded again

---
 pkg/config/loader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 718f540..28c01b3 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -77,7 +77,6 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	if bytes.Equal(l.configHash, hash) {
 		return false, nil
 	}
-	l.configHash = hash
 
 	dec := yaml.NewDecoder(bytes.NewReader(buf))
 	dec.KnownFields(true)
@@ -88,6 +87,7 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	}
 
 	l.config.Store(config)
+	l.configHash = hash
 
 	return true, nil
 }
-- 
2.43.0


From 70b4ebbb1a7e338308c64855421a604761f777d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:51 +0000
Subject: [PATCH 24/59] fix: enable strict mode by default if a cache config
 does not specify it

---
 pkg/config/loader.go   | 5 ++++-
 pkg/server/handlers.go | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 28c01b3..95fca9f 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -32,6 +32,7 @@ import (
 	"sync/atomic"
 	"time"
 
+	"github.com/kacheio/kache/pkg/cache"
 	"github.com/rs/zerolog/log"
 	"gopkg.in/yaml.v3"
 )
@@ -81,7 +82,9 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	dec := yaml.NewDecoder(bytes.NewReader(buf))
 	dec.KnownFields(true)
 
-	config := &Configuration{}
+	config := &Configuration{
+		HttpCache: &cache.HttpCacheConfig{Strict: true}, // strict by default.
+	}
 	if err := dec.Decode(config); err != nil {
 		return false, err
 	}
diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 66d955f..f638af8 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -113,7 +113,7 @@ func (s *Server) CacheConfigUpdateHandler(w http.ResponseWriter, r *http.Request
 		return
 	}
 
-	var c cache.HttpCacheConfig
+	c := cache.HttpCacheConfig{Strict: true} // strict by default.
 	dec := yaml.NewDecoder(bytes.NewReader(body))
 	if err := dec.Decode(&c); err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
-- 
2.43.0


From 6d07b6ade546da7bcad8079e12307221e16367c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:32 +0000
Subject: [PATCH 25/59] fix: guard concurrent config reloads

---
 pkg/config/loader.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 95fca9f..e34e6b4 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -29,6 +29,7 @@ import (
 	"encoding/hex"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -44,7 +45,9 @@ type Loader struct {
 	watch         bool
 	watchInterval time.Duration
 
-	config     atomic.Pointer[Configuration]
+	config atomic.Pointer[Configuration]
+
+	mu         sync.Mutex // guards configHash and loading.
 	configHash []byte
 
 	Events chan bool
@@ -68,6 +71,9 @@ func NewLoader(path string, watch bool, interval time.Duration) (*Loader, error)
 
 // Load reads the YAML-formatted config.
 func (l *Loader) Load(ctx context.Context) (bool, error) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	buf, err := os.ReadFile(l.path)
 	if err != nil {
 		return false, err
@@ -107,6 +113,8 @@ func (l *Loader) Path() string {
 
 // Checksum returns the calculated checksum of the config.
 func (l *Loader) Checksum() string {
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	return hex.EncodeToString(l.configHash)
 }
 
-- 
2.43.0


From b506dd1ddc475aa12196d5de6e0e98f6e55e01bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 26/59] fix: do not crash if a cluster endpoint is unreachable

---
 pkg/cluster/rqueue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index 5099c0f..ee5404b 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -100,6 +100,7 @@ func (q *RequestQueue) process() {
 					Str("url", msg.Request.URL.String()).
 					Msg("Error request")
 				q.retry(msg)
+				continue
 			}
 			if resp.StatusCode >= 400 && resp.StatusCode <= 599 {
 				log.Error().Err(err).
-- 
2.43.0


From 6cabbd73a4e600a738e7d300ae7d89027e527ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 27/59] fix: resend the request body when retrying a cluster
 broadcast

---
 pkg/cluster/kubernetes.go | 2 +-
 pkg/cluster/rqueue.go     | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index d89c8cd..08d9736 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -144,7 +144,7 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 	for _, ep := range endpoints {
 		// Prepare endpoint request.
 		url := fmt.Sprintf("%s://%s:%v%s", "http", ep.Host, ep.Port, path)
-		out, err := http.NewRequest(method, url, io.NopCloser(bytes.NewBuffer(body)))
+		out, err := http.NewRequest(method, url, bytes.NewReader(body))
 		if err != nil {
 			log.Error().Err(err).Send()
 			continue
diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index ee5404b..f6c90de 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -130,6 +130,15 @@ func (q *RequestQueue) retry(msg Message) {
 			log.Debug().Str("url", msg.Request.RequestURI).Int("attempt", msg.Attempt).
 				Msgf("Message retry in %v", q.Options.Backoff)
 			time.Sleep(q.Options.Backoff)
+			if msg.Request.GetBody != nil {
+				// The body has been consumed by the failed attempt.
+				body, err := msg.Request.GetBody()
+				if err != nil {
+					log.Error().Err(err).Msg("Error restoring request body")
+					return
+				}
+				msg.Request.Body = body
+			}
 			q.Queue <- msg
 		}()
 	}
-- 
2.43.0


From b2ba74c1c26371329892fc806056100a3294cd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:48 +0000
Subject: [PATCH 28/59] fix: broadcast the client address without port

---
 pkg/cluster/kubernetes.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 08d9736..794406e 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -27,6 +27,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"net"
 	"net/http"
 	"os"
 	"path/filepath"
@@ -150,7 +151,12 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 			continue
 		}
 		out.Header = req.Header.Clone()
-		out.Header.Set("X-Forwarded-For", req.RemoteAddr)
+		if out.Header.Get("X-Forwarded-For") == "" && out.Header.Get("X-Real-Ip") == "" {
+			// Pass the original client address to the access control of the endpoint.
+			if host, _, err := net.SplitHostPort(req.RemoteAddr); err == nil {
+				out.Header.Set("X-Forwarded-For", host)
+			}
+		}
 		out.Header.Set("X-Kache-Cluster", "Broadcast")
 		out.Host = req.Host
 
-- 
2.43.0


From cedb31886f505a16158da2228f883e6b867d5589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:53 +0000
Subject: [PATCH 29/59] fix: only use the port of the endpoint's own subset

---
 pkg/cluster/kubernetes.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 794406e..a08548e 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -103,12 +103,10 @@ func (c *client) Endpoints(portname string) []Endpoint {
 		return nil
 	}
 
-	var (
-		port      int32
-		endpoints []Endpoint
-	)
+	var endpoints []Endpoint
 
 	for _, e := range eps.Subsets {
+		var port int32
 		for _, p := range e.Ports {
 			if p.Name != portname {
 				continue
@@ -120,8 +118,12 @@ func (c *client) Endpoints(portname string) []Endpoint {
 		}
 		for _, addr := range e.Addresses {
 			// TODO: check endpoint/pod is healthy.
+			name := addr.Hostname
+			if addr.TargetRef != nil {
+				name = addr.TargetRef.Name
+			}
 			endpoints = append(endpoints, Endpoint{
-				Name: addr.TargetRef.Name,
+				Name: name,
 				Host: addr.IP,
 				Port: int(port),
 			})
-- 
2.43.0


From bb7f150bd74c3f87ca8d364f9d4fc82144c9dfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:10 +0000
Subject: [PATCH 30/59] fix: respond with 503 if no target matches a request

---
 pkg/server/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index af6aa14..4818bf3 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -139,6 +139,8 @@ func errorHandler(w http.ResponseWriter, req *http.Request, err error) {
 	status := http.StatusInternalServerError
 
 	switch {
+	case errors.Is(err, ErrMatchingTarget):
+		status = http.StatusServiceUnavailable
 	case errors.Is(err, context.Canceled):
 		ctx := req.Context()
 		cErr := context.Cause(ctx)
-- 
2.43.0


From 49c0de09b62cf46ab038739833d3a73929a5bc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 31/59] fix: do not serve canceled requests from the cache

---
 pkg/server/middleware/httpcache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 3465e25..b0ce179 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -94,6 +94,11 @@ func NewCachedTransport(c *cache.HttpCache, reg prometheus.Registerer) *Transpor
 func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error) {
 	ctx := req.Context()
 
+	// Do not process canceled requests, e.g. requests without matching target.
+	if ctx.Err() != nil {
+		return nil, context.Cause(ctx)
+	}
+
 	if t.Cache.IsExcludedPath(req.URL.Path) {
 		log.Debug().Interface("path", req.URL.Path).Str("x-cache", "PASS").Msg("Ignoring excluded path")
 		return t.send(req)
-- 
2.43.0


From d0a7326a282d104c0e6bfb8f2d4c2838814b4743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 32/59] fix: do not coalesce requests with credentials or
 conditions

---
 pkg/server/middleware/coalesce.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 8f6cac4..ef459ed 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -29,6 +29,7 @@ import (
 	"net/http/httputil"
 	"sync"
 
+	"github.com/kacheio/kache/pkg/cache"
 	"github.com/rs/zerolog/log"
 )
 
@@ -67,14 +68,25 @@ func NewCoalesced(next http.RoundTripper) http.RoundTripper {
 	}
 }
 
+// isShareable reports whether the response to the request depends on its URL only, i.e. whether
+// the request neither contains credentials nor selects a part or a state of the resource.
+func isShareable(req *http.Request) bool {
+	for _, h := range [...]string{"Cookie", cache.HeaderCacheControl, cache.HeaderPragma} {
+		if _, ok := req.Header[h]; ok {
+			return false
+		}
+	}
+	return cache.IsCacheableRequest(req)
+}
+
 // RoundTrip executes and returns the given request and coalesces
 // concurrent GET requests. It ensures that only one execution call is
 // in-flight for a given key at a time. Following duplicate or similar (same URL)
 // requests are blocked until the original request completes. The resulting
 // response is shared with all waiting requests.
 func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response, error) {
-	// Only coalesce GET requests.
-	if req.Method != http.MethodGet {
+	// Only coalesce GET requests that can be answered with a shared response.
+	if req.Method != http.MethodGet || !isShareable(req) {
 		return coalescer.next.RoundTrip(req)
 	}
 
-- 
2.43.0


From b8446dec9a648f98744710f166286140c8906f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:25 +0000
Subject: [PATCH 33/59] fix: do not share private or canceled responses with
 coalesced requests

---
 pkg/server/middleware/coalesce.go | 74 ++++++++++++++++++++++++-------
 1 file changed, 58 insertions(+), 16 deletions(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index ef459ed..5f0af6c 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -25,8 +25,11 @@ package middleware
 import (
 	"bufio"
 	"bytes"
+	"context"
+	"errors"
 	"net/http"
 	"net/http/httputil"
+	"strings"
 	"sync"
 
 	"github.com/kacheio/kache/pkg/cache"
@@ -56,8 +59,13 @@ type call struct {
 	// coalesced indicates if there are any calls waiting
 	// for the initial in-flight request's response.
 	coalesced bool
-	resp      []byte
-	err       error
+
+	// private indicates that the result must not be shared, waiting
+	// calls have to execute their own request.
+	private bool
+
+	resp []byte
+	err  error
 }
 
 // NewCoalesced returns a coalesced http roundtripper.
@@ -96,12 +104,6 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	if ok {
 		// At this point a similar request is already in-flight. Wait for response.
 
-		// Close the request body, as this request is put on hold here waiting for
-		// the initial request's response.
-		if req.Body != nil {
-			defer req.Body.Close()
-		}
-
 		// Lock the inflight request to prevent it from being removed before
 		// any waiting call routines are done processing.
 		inflight.L.Lock()
@@ -120,6 +122,16 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 		// Resume execution of waiting thread (woken up by initial thread broadcast).
 		inflight.L.Unlock()
 
+		// The result is of no use for other requests.
+		if inflight.private {
+			return coalescer.next.RoundTrip(req)
+		}
+
+		// Close the request body, as this request gets the initial request's response.
+		if req.Body != nil {
+			defer req.Body.Close()
+		}
+
 		// Initial request completed.
 		if inflight.err != nil {
 			return nil, inflight.err
@@ -141,8 +153,31 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	coalescer.Unlock()
 
 	// Execute e2e request.
-	resp, err := coalescer.next.RoundTrip(req)
+	var (
+		resp *http.Response
+		err  error
+		done bool
+	)
+	defer func() {
+		if !done { // Do not block other requests if the execution panics.
+			coalescer.release(key, inflight, nil, context.Canceled)
+		}
+	}()
+	resp, err = coalescer.next.RoundTrip(req)
+	done = true
+
+	coalescer.release(key, inflight, resp, err)
 
+	if err != nil {
+		log.Error().Err(err).Str("key", key).Send()
+		return nil, err
+	}
+
+	return resp, nil
+}
+
+// release completes an inflight call and passes its result to the waiting calls.
+func (coalescer *requestCoalescer) release(key string, inflight *call, resp *http.Response, err error) {
 	// Upstream response received. Remove inflight request from the map.
 	// Important: Removing the inflight request before waking up waiting
 	// calls is crucial, otherwise race conditions and memory leaks occur.
@@ -153,9 +188,14 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	// Wake up any suspended callers waiting for this response.
 	inflight.L.Lock()
 	if inflight.coalesced {
-		if err != nil {
+		switch {
+		case errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded):
+			inflight.private = true // only the initial request is canceled.
+		case err != nil:
 			inflight.resp, inflight.err = nil, err
-		} else {
+		case isPrivate(resp):
+			inflight.private = true
+		default:
 			// Copy the response before releasing it to waiter(s).
 			inflight.resp, inflight.err = httputil.DumpResponse(resp, true)
 		}
@@ -163,11 +203,13 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 		inflight.Broadcast()
 	}
 	inflight.L.Unlock()
+}
 
-	if err != nil {
-		log.Error().Err(err).Str("key", key).Send()
-		return nil, err
+// isPrivate reports whether the response is intended for a single client.
+func isPrivate(resp *http.Response) bool {
+	if _, ok := resp.Header["Set-Cookie"]; ok {
+		return true
 	}
-
-	return resp, nil
+	cc := strings.Join(resp.Header.Values(cache.HeaderCacheControl), ", ")
+	return cache.ParseResponseCacheControl(cc).NoStore
 }
-- 
2.43.0


From 056798a6d7691a6c14de9291ab08fdcf29498db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:42 +0000
Subject: [PATCH 34/59] fix: forward percent-encoded paths as-is

---
 pkg/server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 4818bf3..5fdd804 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -192,6 +192,9 @@ func (s *Server) Director() func(req *http.Request) {
 		req.URL.Host = upstream.Host
 
 		// Path is forwarded as-is.
+		if req.URL.RawPath != "" {
+			req.URL.RawPath = singleJoiningSlash(upstream.EscapedPath(), req.URL.RawPath)
+		}
 		req.URL.Path = singleJoiningSlash(upstream.Path, req.URL.Path)
 
 		// Pass host header
-- 
2.43.0


From a2ab3e85470f6dde61fb777ddb3e2a9fee2223cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:16 +0000
Subject: [PATCH 35/59] fix: do not store expired items in redis forever

---
 pkg/provider/redis_client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index 9e7f5e2..c543bd2 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -129,6 +129,10 @@ func (c *redisClient) Store(key string, value []byte, ttl time.Duration) error {
 	if c.config.MaxItemSize > 0 && len(value) > c.config.MaxItemSize {
 		return ErrRedisMaxItemSize
 	}
+	if ttl <= 0 {
+		// Already expired. In Redis, such an item would never expire.
+		return c.Del(context.Background(), key).Err()
+	}
 	_, err := c.Set(context.Background(), key, value, ttl).Result()
 	return err
 
-- 
2.43.0


From 9c680fc79f196a6070b0abe63c179421beaf5d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:21 +0000
Subject: [PATCH 36/59] fix: consider all matching content types excluded from
 caching

---
 pkg/cache/httpcache.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 36d68ba..9d7884f 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -231,11 +231,10 @@ func (c *HttpCache) IsExcludedContent(content string, length int64) bool {
 	}
 	for _, t := range config.Exclude.Content {
 		if t.TypeMatcher != nil && t.TypeMatcher.MatchString(content) {
-			if t.Size > 0 {
-				// if content exceeds the allowed size, do not cache.
-				return t.Size < int(length)
+			// if content exceeds the allowed size, do not cache.
+			if t.Size <= 0 || t.Size < int(length) {
+				return true
 			}
-			return true
 		}
 	}
 	return false
-- 
2.43.0


From 7a0a212be2add778b3151b919b916332511c3a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 37/59] fix: match key prefixes literally in redis

---
 pkg/provider/redis_client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index c543bd2..c496e80 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -162,7 +162,8 @@ func (c *redisClient) Delete(ctx context.Context, key string) error {
 // Keys returns a slice of cache keys.
 func (c *redisClient) Keys(ctx context.Context, prefix string) []string {
 	var keys []string
-	iter := c.Scan(ctx, 0, escapePattern(prefix)+"*", 0).Iterator()
+	pattern := strings.ReplaceAll(escapePattern(prefix), "*", `\*`) + "*"
+	iter := c.Scan(ctx, 0, pattern, 0).Iterator()
 	for iter.Next(ctx) {
 		keys = append(keys, iter.Val())
 	}
-- 
2.43.0


From 03bd306c3ce29d178338ee0c0f68595e5ff90eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:27 +0000
Subject: [PATCH 38/59] fix: do not panic if redis keys cannot be listed

---
 pkg/provider/redis_client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index c496e80..eb19825 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -168,7 +168,8 @@ func (c *redisClient) Keys(ctx context.Context, prefix string) []string {
 		keys = append(keys, iter.Val())
 	}
 	if err := iter.Err(); err != nil {
-		panic(err)
+		log.Error().Err(err).Msg("Error listing keys in redis")
+		return nil
 	}
 	return keys
 }
-- 
2.43.0


From 3a96440a31403008cc597e62a46629cf8965bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:43 +0000
Subject: [PATCH 39/59] fix: do not add an empty cache-control header

---
 pkg/server/middleware/httpcache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index b0ce179..8501ad2 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -245,6 +245,9 @@ func (t *Transport) injectValidationHeaders(ireq *http.Request, header http.Head
 
 // updateCacheControl sets or updates the cache-control header.
 func updateCacheControl(header http.Header, val string, force bool) {
+	if val == "" {
+		return // no custom header configured
+	}
 	overwrite := force
 	if _, presentcc := header["Cache-Control"]; !presentcc || overwrite {
 		header["Cache-Control"] = []string{val}
-- 
2.43.0


From 54284f1d55d14f3191be623e492d2fc796dd9495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:08 +0000
Subject: [PATCH 40/59] fix: apply reloaded configs in order and only once

---
 pkg/kache/kache.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/kache/kache.go b/pkg/kache/kache.go
index 2eced2c..636a882 100644
--- a/pkg/kache/kache.go
+++ b/pkg/kache/kache.go
@@ -27,6 +27,7 @@ import (
 	"net/http"
 	"os"
 	"os/signal"
+	"sync"
 	"syscall"
 	"time"
 
@@ -44,6 +45,7 @@ import (
 type Kache struct {
 	Config *config.Configuration
 	loader *config.Loader
+	mu     sync.Mutex // guards Config while reloading.
 
 	Registerer prometheus.Registerer
 
@@ -145,9 +147,17 @@ func (t *Kache) reloadConfig(ctx context.Context) error {
 	return nil
 }
 
-// applyConfig applies the config to modules.
+// applyConfig applies the config to modules. It is called by all reload triggers and must
+// neither apply an outdated config last, nor apply a config again that is already in use.
 func (t *Kache) applyConfig() {
-	t.Config = t.loader.Config()
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
+	config := t.loader.Config()
+	if config == t.Config {
+		return
+	}
+	t.Config = config
 	t.Cache.UpdateConfig(t.Config.HttpCache)
 }
 
-- 
2.43.0


From ff7151725ff7935bc409527ca20094f5f7288da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:14 +0000
Subject: [PATCH 41/59] fix: notify about a config changed before watching

---
 pkg/config/loader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index e34e6b4..dc65ab1 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -125,10 +125,14 @@ func (l *Loader) AutoReload() bool {
 
 // Watch watches and reloads the config file if changed.
 func (l *Loader) Watch(ctx context.Context) error {
-	if _, err := l.Load(ctx); err != nil {
+	changed, err := l.Load(ctx)
+	if err != nil {
 		return err
 	}
 	go func() {
+		if changed { // changed since the loader was created.
+			l.notifyChange()
+		}
 		tick := time.NewTicker(l.watchInterval)
 		defer tick.Stop()
 		for {
-- 
2.43.0


From 323cd219b513f18159069c5f866b4ecd7b176e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:21 +0000
Subject: [PATCH 42/59] fix: broadcast purges with an API prefix without
 leading slash

---
 pkg/server/handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index f638af8..6ed29b3 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -137,5 +137,5 @@ func (s *Server) broadcastPurge(req *http.Request) {
 	}
 
 	s.cluster.Broadcast(req, "api", http.MethodDelete,
-		path.Join(s.cfg.API.GetPrefix(), "/cache/invalidate"))
+		path.Join("/", s.cfg.API.GetPrefix(), "/cache/invalidate"))
 }
-- 
2.43.0


From fe2f89019b3249e61ad2638c2c53497e6aae224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 43/59] fix: keep the encoding of upstream paths

---
 pkg/server/server.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 5fdd804..2221c9d 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -30,6 +30,7 @@ import (
 	"net"
 	"net/http"
 	"net/http/httputil"
+	"net/url"
 	"strings"
 	"time"
 
@@ -192,10 +193,7 @@ func (s *Server) Director() func(req *http.Request) {
 		req.URL.Host = upstream.Host
 
 		// Path is forwarded as-is.
-		if req.URL.RawPath != "" {
-			req.URL.RawPath = singleJoiningSlash(upstream.EscapedPath(), req.URL.RawPath)
-		}
-		req.URL.Path = singleJoiningSlash(upstream.Path, req.URL.Path)
+		req.URL.Path, req.URL.RawPath = joinURLPath(upstream, req.URL)
 
 		// Pass host header
 		req.Host = req.URL.Host
@@ -271,3 +269,21 @@ func singleJoiningSlash(a, b string) string {
 	}
 	return a + b
 }
+
+// joinURLPath joins the paths of both URLs by a single slash, keeping their encoding.
+func joinURLPath(a, b *url.URL) (path, rawpath string) {
+	if a.RawPath == "" && b.RawPath == "" {
+		return singleJoiningSlash(a.Path, b.Path), ""
+	}
+	// Slashes are those of the encoded paths, an encoded slash (%2F) is none.
+	apath, bpath := a.EscapedPath(), b.EscapedPath()
+	aslash := strings.HasSuffix(apath, "/")
+	bslash := strings.HasPrefix(bpath, "/")
+	switch {
+	case aslash && bslash:
+		return a.Path + b.Path[1:], apath + bpath[1:]
+	case !aslash && !bslash:
+		return a.Path + "/" + b.Path, apath + "/" + bpath
+	}
+	return a.Path + b.Path, apath + bpath
+}
-- 
2.43.0


From 2ac3ff5a759b82fbd5742cfb175f7376fdc84afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 44/59] fix: attach the x-cache header of bypassing requests to
 the response

---
 pkg/server/middleware/httpcache.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 8501ad2..5cb413b 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -111,10 +111,11 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 
 	if !cache.IsCacheableRequest(req) {
 		log.Debug().Interface("header", req.Header).Str("x-cache", "PASS").Msg("Ignoring uncachable request")
-		if t.Cache.MarkCachedResponses() {
-			req.Header.Set(t.Cache.XCacheHeader(), cache.MISS)
+		resp, err = t.send(req)
+		if err == nil && t.Cache.MarkCachedResponses() {
+			resp.Header.Set(t.Cache.XCacheHeader(), cache.MISS)
 		}
-		return t.send(req)
+		return resp, err
 	}
 
 	lookup := cache.NewLookupRequest(req, t.currentTime(), t.Cache.Strict())
-- 
2.43.0


From 570a5ba2bae03088aa34a602e0a54186a0922ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 45/59] fix: do not store the x-cache header with validated
 responses

---
 pkg/server/middleware/httpcache.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 5cb413b..f39a355 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -130,9 +130,6 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		return t.handleCacheHit(cacheKey, cached)
 
 	case cache.EntryRequiresValidation:
-		if t.Cache.MarkCachedResponses() {
-			cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
-		}
 		log.Debug().Str("cache-key", cacheKey).Interface("header", cached.Header()).
 			Msg("Cache HIT with validation")
 		req = t.injectValidationHeaders(lookup.Request, cached.Header())
@@ -152,6 +149,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		return resp, err
 	}
 
+	validated := false
 	shouldUpdateCachedEntry := true
 	if resp.StatusCode == http.StatusNotModified && cached.Status == cache.EntryRequiresValidation {
 		// If the 304 response contains a strong validator (etag) that does not match
@@ -169,6 +167,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 
 		_ = resp.Body.Close()
 		resp = cached.Response()
+		validated = true
 	}
 
 	// Set or update custom cache control header.
@@ -188,6 +187,11 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		t.Cache.Delete(ctx, lookup)
 	}
 
+	// Mark the response only after storing it, as the mark is not part of the entry.
+	if validated && t.Cache.MarkCachedResponses() {
+		resp.Header.Set(t.Cache.XCacheHeader(), cache.HIT)
+	}
+
 	return resp, nil
 }
 
-- 
2.43.0


From 50d046b9d64eda94375535525cfc17355d3b396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 46/59] fix: reject a Redis configuration without endpoint or
 queue workers

---
 pkg/provider/provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/provider/provider.go b/pkg/provider/provider.go
index ccaa6ec..917c383 100644
--- a/pkg/provider/provider.go
+++ b/pkg/provider/provider.go
@@ -167,6 +167,9 @@ func _createCacheProvider(name string, config ProviderBackendConfig) (Provider,
 	case BackendInMemory:
 		return NewInMemoryCache(config.InMemory)
 	case BackendRedis:
+		if err := config.Redis.Validate(); err != nil {
+			return nil, errors.Join(err, errors.New("invalid redis config"))
+		}
 		client, err := NewRedisClient(name, config.Redis)
 		if err != nil {
 			return nil, errors.Join(err, errors.New("failed to create redis client"))
-- 
2.43.0


From 8e81a28e165feec3de4800afa0843dd4e323ee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 47/59] fix: list, count and purge in-memory items atomically

---
 pkg/provider/inmemory.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index c20b7ef..410bd0e 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -236,6 +236,9 @@ func (c *inMemoryCache) _delete(_ context.Context, key string) bool {
 // Keys returns a slice of the keys in the cache, from oldest to newest. It doesn't check TTL
 // of the returned keys (TODO).
 func (c *inMemoryCache) Keys(_ context.Context, prefix string) []string {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+
 	if prefix == "" {
 		return c.inner.Keys()
 	}
@@ -258,9 +261,11 @@ func (c *inMemoryCache) Purge(ctx context.Context, pattern string) error {
 	if err != nil {
 		return err
 	}
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	for _, k := range c.inner.Keys() {
 		if r.MatchString(k) {
-			c.Delete(ctx, k)
+			c._delete(ctx, k)
 		}
 	}
 	return nil
@@ -276,6 +281,8 @@ func (c *inMemoryCache) Flush(ctx context.Context) error {
 
 // Size returns the number of entries currently stored in the Cache.
 func (c *inMemoryCache) Size() int {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	return c.inner.Len()
 }
 
-- 
2.43.0


From ce592b4e7c5377b6c7f4bb4813fb5217f883facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 48/59] fix: do not coalesce requests excluded from caching

---
 pkg/server/middleware/coalesce.go  | 9 ++++++++-
 pkg/server/middleware/httpcache.go | 5 +++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 5f0af6c..cc51a66 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -87,6 +87,13 @@ func isShareable(req *http.Request) bool {
 	return cache.IsCacheableRequest(req)
 }
 
+// isExcluded reports whether the request is excluded from caching and has to be answered by
+// the origin itself.
+func (coalescer *requestCoalescer) isExcluded(req *http.Request) bool {
+	t, ok := coalescer.next.(*Transport)
+	return ok && t.isExcluded(req)
+}
+
 // RoundTrip executes and returns the given request and coalesces
 // concurrent GET requests. It ensures that only one execution call is
 // in-flight for a given key at a time. Following duplicate or similar (same URL)
@@ -94,7 +101,7 @@ func isShareable(req *http.Request) bool {
 // response is shared with all waiting requests.
 func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response, error) {
 	// Only coalesce GET requests that can be answered with a shared response.
-	if req.Method != http.MethodGet || !isShareable(req) {
+	if req.Method != http.MethodGet || !isShareable(req) || coalescer.isExcluded(req) {
 		return coalescer.next.RoundTrip(req)
 	}
 
diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index f39a355..01129b9 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -195,6 +195,11 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 	return resp, nil
 }
 
+// isExcluded reports whether the request is excluded from caching.
+func (t *Transport) isExcluded(req *http.Request) bool {
+	return t.Cache.IsExcludedPath(req.URL.Path) || t.Cache.IsExcludedHeader(req.Header)
+}
+
 // handleCacheHit handles a cache hit and sends the cached response downstream.
 func (t *Transport) handleCacheHit(key string, cached *cache.LookupResult) (*http.Response, error) {
 	log.Debug().Str("cache-key", key).Interface("header", cached.Header()).Str("x-cache", "HIT").Send()
-- 
2.43.0


From 57a1aa98528d006ca59034aaa9ee83d3203fafc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 49/59] fix: do not pass on the x-cache header of the upstream
 if enabled

---
 pkg/server/middleware/httpcache.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 01129b9..c572eed 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -215,7 +215,12 @@ func (t *Transport) send(req *http.Request) (*http.Response, error) {
 	if transport == nil {
 		transport = http.DefaultTransport
 	}
-	return transport.RoundTrip(req)
+	resp, err := transport.RoundTrip(req)
+	if err == nil && t.Cache.MarkCachedResponses() {
+		// The upstream might be a cache as well, but its mark would be taken for ours.
+		resp.Header.Del(t.Cache.XCacheHeader())
+	}
+	return resp, err
 }
 
 // injectValidationHeaders injects validation headers.
-- 
2.43.0


From fe89da60cd83207bdc0d8ab45ffc4406f0bb5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 50/59] fix: do not cut off responses that take longer than a
 second

---
 pkg/server/server_listener.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/server/server_listener.go b/pkg/server/server_listener.go
index 69e555f..8cff619 100644
--- a/pkg/server/server_listener.go
+++ b/pkg/server/server_listener.go
@@ -98,8 +98,10 @@ func NewListener(ctx context.Context, cfg *config.Listener, handler http.Handler
 		Handler: handler,
 		// TODO: set ErrorLog
 		// TODO: make timeouts configurable
-		ReadTimeout:  1 * time.Second,
-		WriteTimeout: 1 * time.Second,
+		ReadHeaderTimeout: 1 * time.Second,
+		// Reading a request and writing its response take as long as the upstream may take.
+		ReadTimeout:  DefaultTimeout,
+		WriteTimeout: DefaultTimeout + 5*time.Second,
 		IdleTimeout:  30 * time.Second,
 	}
 
-- 
2.43.0


From 033b8248e693ad034a255bfdf3ff86f4b6c80d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 51/59] fix: reject missing sections and empty listeners or
 upstreams

---
 pkg/config/config.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 9af8c2d..c3d28fb 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -33,6 +33,8 @@ import (
 var (
 	errInvalidListenersConfig = errors.New("invalid listeners config")
 	errInvalidUpstreamsConfig = errors.New("invalid upstreams config")
+	errInvalidProviderConfig  = errors.New("invalid provider config")
+	errInvalidAPIConfig       = errors.New("invalid api config")
 )
 
 // TODO: set defaults
@@ -53,10 +55,17 @@ type Configuration struct {
 
 // Validate validates the configuration.
 func (c *Configuration) Validate() error {
-	return errors.Join(
+	err := errors.Join(
 		c.Listeners.Validate(),
 		c.Upstreams.Validate(),
 	)
+	if c.Provider == nil {
+		err = errors.Join(err, errInvalidProviderConfig)
+	}
+	if c.API == nil {
+		err = errors.Join(err, errInvalidAPIConfig)
+	}
+	return err
 }
 
 // Global holds the global configuration.
@@ -78,6 +87,11 @@ func (l Listeners) Validate() error {
 	if len(l) < 1 {
 		return errInvalidListenersConfig
 	}
+	for _, listener := range l {
+		if listener == nil {
+			return errInvalidListenersConfig
+		}
+	}
 	return nil
 }
 
@@ -96,6 +110,11 @@ func (u Upstreams) Validate() error {
 	if len(u) < 1 {
 		return errInvalidUpstreamsConfig
 	}
+	for _, upstream := range u {
+		if upstream == nil {
+			return errInvalidUpstreamsConfig
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 9afe78e5dc3be53fb55b7f51a715e37c436331e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 52/59] fix: reject upstream paths that can never match

---
 pkg/server/server_target.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/server/server_target.go b/pkg/server/server_target.go
index 71217a8..0116bdc 100644
--- a/pkg/server/server_target.go
+++ b/pkg/server/server_target.go
@@ -73,7 +73,9 @@ func NewTarget(cfg *config.Upstream) (*Target, error) {
 	}
 
 	r := mux.NewRouter()
-	r.PathPrefix(cfg.Path) // TODO: add host?
+	if err := r.PathPrefix(cfg.Path).GetError(); err != nil { // TODO: add host?
+		return nil, err
+	}
 
 	t := &Target{
 		name:     cfg.Name,
-- 
2.43.0


From c6d5f47018fed2d4a786adfd0b5e8ed322c9d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 53/59] fix: remove stored responses outdated by a successful
 unsafe request

---
 pkg/cache/cacheable.go             | 10 ++++++++++
 pkg/server/middleware/httpcache.go |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index 440f989..b3277e6 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -152,3 +152,13 @@ func Contains[K comparable, V any](m map[K]V, k K) bool {
 	}
 	return false
 }
+
+// IsUnsafeRequest checks if a request may change the resource it is sent to.
+// https://httpwg.org/specs/rfc9110.html#safe.methods
+func IsUnsafeRequest(req *http.Request) bool {
+	switch req.Method {
+	case http.MethodGet, http.MethodHead, http.MethodOptions, http.MethodTrace:
+		return false
+	}
+	return true
+}
diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index c572eed..916a3e0 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -220,6 +220,11 @@ func (t *Transport) send(req *http.Request) (*http.Response, error) {
 		// The upstream might be a cache as well, but its mark would be taken for ours.
 		resp.Header.Del(t.Cache.XCacheHeader())
 	}
+	if err == nil && cache.IsUnsafeRequest(req) && resp.StatusCode < http.StatusBadRequest {
+		// The request has changed the resource, the stored response is outdated.
+		// https://httpwg.org/specs/rfc9111.html#invalidation
+		t.Cache.Delete(context.Background(), cache.NewLookupRequest(req, t.currentTime(), t.Cache.Strict()))
+	}
 	return resp, err
 }
 
-- 
2.43.0


From 16e4fed610311595f8b20e9f58e8d5448af5f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 54/59] fix: reuse responses only for requests that agree in
 the headers named by Vary

---
 pkg/cache/cacheable.go            |  1 +
 pkg/cache/entry.go                |  4 +++
 pkg/cache/httpcache.go            |  4 +++
 pkg/cache/vary.go                 | 60 +++++++++++++++++++++++++++++++
 pkg/server/middleware/coalesce.go | 14 +++++---
 5 files changed, 79 insertions(+), 4 deletions(-)
 create mode 100644 pkg/cache/vary.go

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index b3277e6..d90f340 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -54,6 +54,7 @@ const (
 	HeaderEtag         = "Etag"
 	HeaderExpires      = "Expires"
 	HeaderLastModified = "Last-Modified"
+	HeaderVary         = "Vary"
 )
 
 var (
diff --git a/pkg/cache/entry.go b/pkg/cache/entry.go
index 24a4580..c3ab329 100644
--- a/pkg/cache/entry.go
+++ b/pkg/cache/entry.go
@@ -26,6 +26,7 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
+	"net/http"
 )
 
 // EntryStatus is the state of a cached response.
@@ -68,6 +69,9 @@ type Entry struct {
 
 	// Timestamp is the time the body was last modified.
 	Timestamp int64
+
+	// Vary holds the request headers the response has been selected by.
+	Vary http.Header
 }
 
 // TODO: Benchmark, encoding/decoding might slow down the hot path.
diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 9d7884f..f9d55b3 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -303,6 +303,9 @@ func (c *HttpCache) FetchResponse(ctx context.Context, lookup LookupRequest) *Lo
 	if err != nil {
 		return &LookupResult{}
 	}
+	if !MatchVary(lookup.Request.Header, entry.Vary) {
+		return &LookupResult{}
+	}
 	res, err := http.ReadResponse(bufio.NewReader(bytes.NewBuffer(entry.Body)), lookup.Request)
 	if err != nil {
 		log.Error().Err(err).Send()
@@ -322,6 +325,7 @@ func (c *HttpCache) StoreResponse(_ context.Context, lookup *LookupRequest,
 	entry := &Entry{
 		Body:      resp,
 		Timestamp: responseTime.Unix(),
+		Vary:      SelectVary(lookup.Request.Header, response.Header),
 	}
 	enc, err := entry.Encode()
 	if err != nil {
diff --git a/pkg/cache/vary.go b/pkg/cache/vary.go
new file mode 100644
index 0000000..42348e8
--- /dev/null
+++ b/pkg/cache/vary.go
@@ -0,0 +1,60 @@
+// MIT License
+//
+// Copyright (c) 2023 kache.io
+//
+// Permission is hereby granted, free of charge, to any person obtaining a copy
+// of this software and associated documentation files (the "Software"), to deal
+// in the Software without restriction, including without limitation the rights
+// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the Software is
+// furnished to do so, subject to the following conditions:
+//
+// The above copyright notice and this permission notice shall be included in all
+// copies or substantial portions of the Software.
+//
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+// SOFTWARE.
+
+package cache
+
+import (
+	"net/http"
+	"strings"
+)
+
+// SelectVary returns the request headers that the response depends on
+// according to its Vary header.
+func SelectVary(request, response http.Header) http.Header {
+	var selected http.Header
+	for _, name := range strings.Split(headerList(response, HeaderVary), ",") {
+		name = http.CanonicalHeaderKey(strings.TrimSpace(name))
+		if name == "" {
+			continue
+		}
+		if selected == nil {
+			selected = make(http.Header)
+		}
+		selected[name] = request[name]
+	}
+	return selected
+}
+
+// MatchVary checks if a response selected by the given headers can be used for a request.
+// https://httpwg.org/specs/rfc9111.html#caching.negotiated.responses
+func MatchVary(request, selected http.Header) bool {
+	for name, values := range selected {
+		if name == "*" {
+			return false
+		}
+		if (len(request[name]) == 0) != (len(values) == 0) ||
+			headerList(request, name) != headerList(selected, name) {
+			return false
+		}
+	}
+	return true
+}
diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index cc51a66..b54d3eb 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -64,6 +64,10 @@ type call struct {
 	// calls have to execute their own request.
 	private bool
 
+	// vary holds the request headers the result depends on, waiting calls
+	// with other values have to execute their own request.
+	vary http.Header
+
 	resp []byte
 	err  error
 }
@@ -130,7 +134,7 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 		inflight.L.Unlock()
 
 		// The result is of no use for other requests.
-		if inflight.private {
+		if inflight.private || !cache.MatchVary(req.Header, inflight.vary) {
 			return coalescer.next.RoundTrip(req)
 		}
 
@@ -167,13 +171,13 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	)
 	defer func() {
 		if !done { // Do not block other requests if the execution panics.
-			coalescer.release(key, inflight, nil, context.Canceled)
+			coalescer.release(key, inflight, req, nil, context.Canceled)
 		}
 	}()
 	resp, err = coalescer.next.RoundTrip(req)
 	done = true
 
-	coalescer.release(key, inflight, resp, err)
+	coalescer.release(key, inflight, req, resp, err)
 
 	if err != nil {
 		log.Error().Err(err).Str("key", key).Send()
@@ -184,7 +188,8 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 }
 
 // release completes an inflight call and passes its result to the waiting calls.
-func (coalescer *requestCoalescer) release(key string, inflight *call, resp *http.Response, err error) {
+func (coalescer *requestCoalescer) release(key string, inflight *call, req *http.Request,
+	resp *http.Response, err error) {
 	// Upstream response received. Remove inflight request from the map.
 	// Important: Removing the inflight request before waking up waiting
 	// calls is crucial, otherwise race conditions and memory leaks occur.
@@ -203,6 +208,7 @@ func (coalescer *requestCoalescer) release(key string, inflight *call, resp *htt
 		case isPrivate(resp):
 			inflight.private = true
 		default:
+			inflight.vary = cache.SelectVary(req.Header, resp.Header)
 			// Copy the response before releasing it to waiter(s).
 			inflight.resp, inflight.err = httputil.DumpResponse(resp, true)
 		}
-- 
2.43.0


From 5ee08acb7ac5439e19f00366db8f9d24c501722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 55/59] fix: do not wait for unresponsive nodes of the cluster

---
 pkg/cluster/kubernetes.go |  2 +-
 pkg/cluster/rqueue.go     | 30 ++++++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index a08548e..690bf95 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -163,6 +163,6 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 		out.Host = req.Host
 
 		// Dispatch message.
-		c.broadcast.Queue <- Message{out, 0}
+		c.broadcast.dispatch(Message{out, 0})
 	}
 }
diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index f6c90de..641b3c4 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -31,6 +31,9 @@ import (
 	"github.com/rs/zerolog/log"
 )
 
+// requestTimeout is the time limit for the delivery of a message, including the answer.
+const requestTimeout = 10 * time.Second
+
 // Message wraps a HTTP request that gets processed by the queue.
 type Message struct {
 	Request *http.Request
@@ -88,10 +91,16 @@ func (q *RequestQueue) Stop() {
 func (q *RequestQueue) process() {
 	defer q.wg.Done()
 
-	client := &http.Client{}
+	client := &http.Client{Timeout: requestTimeout}
 	client.Transport = http.DefaultTransport
 
 	for {
+		select {
+		case <-q.done: // takes precedence over queued messages.
+			return
+		default:
+		}
+
 		select {
 		case msg := <-q.Queue:
 			resp, err := client.Do(msg.Request)
@@ -139,7 +148,24 @@ func (q *RequestQueue) retry(msg Message) {
 				}
 				msg.Request.Body = body
 			}
-			q.Queue <- msg
+			q.enqueue(msg)
 		}()
 	}
 }
+
+// dispatch adds a message to the queue without waiting for free capacity.
+func (q *RequestQueue) dispatch(msg Message) {
+	select {
+	case q.Queue <- msg:
+	default:
+		go q.enqueue(msg)
+	}
+}
+
+// enqueue waits until the message is added to the queue or the queue is stopped.
+func (q *RequestQueue) enqueue(msg Message) {
+	select {
+	case q.Queue <- msg:
+	case <-q.done:
+	}
+}
-- 
2.43.0


From d05d74e3f2860d0e149dd117266a798b10420feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 56/59] fix: take the TTL of a path from one configuration

---
 pkg/cache/httpcache.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index f9d55b3..faf7bc3 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -270,7 +270,11 @@ func (c *HttpCache) ForceCacheControl() bool {
 // DefaultTTL returns the TTL as specified in the configuration as a valid duration
 // in seconds. If not specified, the default value is returned.
 func (c *HttpCache) DefaultTTL() time.Duration {
-	config := c.loadConfig()
+	return defaultTTL(c.loadConfig())
+}
+
+// defaultTTL returns the default TTL of the given configuration.
+func defaultTTL(config *HttpCacheConfig) time.Duration {
 	if len(config.DefaultTTL) == 0 {
 		return DefaultTTL
 	}
@@ -290,7 +294,7 @@ func (c *HttpCache) PathTTL(p string) time.Duration {
 			return t.TTL
 		}
 	}
-	return c.DefaultTTL()
+	return defaultTTL(config)
 }
 
 // FetchResponse fetches a response matching the given request.
-- 
2.43.0


From d6f01bdfd179439757b67f47dacef70efffe6eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 57/59] fix: reject a negative size of the Redis job queue

---
 pkg/provider/redis_client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index eb19825..3ae8850 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -35,6 +35,7 @@ import (
 var (
 	ErrRedisConfigNoEndpoint    = errors.New("no redis endpoint configured")
 	ErrRedisMaxQueueConcurrency = errors.New("max job queue concurrency must be positive")
+	ErrRedisMaxQueueBufferSize  = errors.New("max job queue buffer size must not be negative")
 	ErrRedisMaxItemSize         = errors.New("max item size exceeded")
 	ErrRedisJobQueueFull        = errors.New("job queue is full")
 )
@@ -79,6 +80,9 @@ func (c *RedisClientConfig) Validate() error {
 	if c.MaxQueueConcurrency < 1 {
 		return ErrRedisMaxQueueConcurrency
 	}
+	if c.MaxQueueBufferSize < 0 {
+		return ErrRedisMaxQueueBufferSize
+	}
 	return nil
 }
 
-- 
2.43.0


From 1e6b26b652d28058bfee0c5f4100044bf6ee7be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 58/59] fix: reject a watch interval that is not positive
 instead of crashing

---
 pkg/config/loader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index dc65ab1..f39407b 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -125,6 +125,9 @@ func (l *Loader) AutoReload() bool {
 
 // Watch watches and reloads the config file if changed.
 func (l *Loader) Watch(ctx context.Context) error {
+	if l.watchInterval <= 0 {
+		return fmt.Errorf("invalid config watch interval: %v", l.watchInterval)
+	}
 	changed, err := l.Load(ctx)
 	if err != nil {
 		return err
-- 
2.43.0


From 99b1631963457a46ab27a9919e1e00a15da38e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:13 +0000
Subject: [PATCH 59/59] fix: leave the content coding to client and origin

The transport asked origins for gzip on behalf of clients that did not, and decoded the
answers, so that neither request nor answer were passed on as they were, and a decoded
body was sent with the entity tag of the coded one.
---
 pkg/server/middleware/httpcache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 916a3e0..40b7578 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -87,6 +87,10 @@ func NewCachedTransport(c *cache.HttpCache, reg prometheus.Registerer) *Transpor
 
 	transport.TLSClientConfig = &tls.Config{InsecureSkipVerify: true}
 
+	// The content coding is negotiated by client and origin. Decoding an answer on the way
+	// would not fit its entity tag, and the stored response would lack the origin's headers.
+	transport.DisableCompression = true
+
 	return &Transport{Transport: transport, Cache: c, currentTime: time.Now, metrics: m}
 }
 
-- 
2.43.0

