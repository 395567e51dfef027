CACHE = "pkg/cache/"
MW = "pkg/server/middleware/httpcache.go"
COAL = "pkg/server/middleware/coalesce.go"
PR = "pkg/provider/"

prop("C01", "Cache keys identify exactly one resource",
  "Two GET or HEAD requests share a stored response exactly if they agree on scheme, host, normalised path and query parameters. "
  "Path normalisation only removes empty and dot segments and trailing slashes and never decodes percent-encoded characters; the order of query parameters with different names does not matter while the order of the values of one name does, and a malformed query is only equal to itself. "
  "The request method does not contribute to the identity.",
  ["inputs"], "all pairs of requests: scheme, host, raw path incl. percent-encoding, raw query",
  "Tests compare a few fixed URLs; collisions need particular combinations of escapes, separators and dot segments.",
  [CACHE+"key.go", CACHE+"httpcache.go", MW], [("canonical key construction", CACHE+"key.go"), ("lookup by key", CACHE+"httpcache.go")],
  ["key string of two requests", "which response the second request gets through the caching transport"])

prop("C02", "Only plain GET and HEAD requests take part in caching",
  "A request with another method than GET or HEAD, or with an Authorization, Range, If-Range, If-Match, If-None-Match, If-Modified-Since or If-Unmodified-Since header (with any value), always reaches the origin unchanged and gets the origin's response. "
  "Such a request neither adds nor replaces stored responses, and removes the one of its URL, and no other, exactly if its method is unsafe (not GET, HEAD, OPTIONS or TRACE) and it is answered with 2xx or 3xx, whether excluded from caching or not. "
  "Every other GET or HEAD request is answered from a fresh stored response if there is one, whatever further headers such as Cookie or Accept it has.",
  ["inputs"], "all methods, every subset of the gating headers and their values, stored response present or not, any origin status",
  "Tests try single methods and headers; a leak needs a particular header, method and store state together.",
  [CACHE+"cacheable.go", CACHE+"httpcache.go", MW], [("request gate", CACHE+"cacheable.go"), ("bypass in the transport", MW)],
  ["origin contacts", "request seen by the origin", "later answers for the same and for other URLs"])

prop("C03", "Strict mode stores exactly the responses that may be stored",
  "In strict mode the response to a cacheable request is stored exactly if its status is one of 200, 203, 204, 206, 300, 301, 308, 404, 405, 410, 414, 451, 501, its Cache-Control has neither no-store nor private (bare or with an argument), the request's Cache-Control has no no-store, and it has max-age, s-maxage, no-cache or both Date and Expires. "
  "Directive names count in any letter case, on any of several Cache-Control lines, in any position and with surrounding white space; no other directive forbids storing. "
  "Whether it is stored or not, the client gets the origin's response.",
  ["inputs"], "any status, any combination, spelling and layout of directives on both sides",
  "Tests use one directive per header in one spelling; violations need unusual spellings, several lines or combinations.",
  [CACHE+"cacheable.go", CACHE+"cache_control.go", MW], [("storability decision", CACHE+"cacheable.go"), ("directive parser", CACHE+"cache_control.go")],
  ["number of stored responses after one exchange"])

prop("C04", "A stored response is reused exactly while HTTP freshness rules allow",
  "In strict mode a stored response answers a request without contacting the origin exactly if its age (the larger of receipt time minus Date and the received Age, plus the time since receipt) is at most its lifetime (s-maxage, else max-age, else Expires minus Date), neither side says no-cache (or Pragma: no-cache in a request without Cache-Control), and the request's max-age and min-fresh hold; once stale it is only reused if the request's max-stale has no value or one larger than the excess and the response has neither must-revalidate nor proxy-revalidate. "
  "Numbers too large to represent count as very large, an invalid Expires counts as expired, and a missing or invalid Date counts as the time of receipt, so that nothing stays fresh forever.",
  ["inputs", "histories"], "all lifetimes, ages, dates, delays and request directives",
  "Tests check single hand-picked points of a decision over eight numbers; boundary, overflow and precedence errors lie elsewhere.",
  [CACHE+"httpcache.go", CACHE+"cacheable.go", CACHE+"cache_control.go"], [("freshness decision", CACHE+"httpcache.go"), ("age calculation", CACHE+"cacheable.go"), ("lifetime and directive parsing", CACHE+"cache_control.go")],
  ["whether the origin is contacted", "body served"])

prop("C05", "The Age header is exact on stored responses and untouched on others",
  "Every response answered from the store carries exactly one Age header with its current age in seconds (the larger of the age at receipt by Date and the received Age, plus the time since receipt), in strict and in cache-all mode. "
  "A response from the origin keeps the origin's Age header and gets none of its own; a validated response carries the Age of the validating response or none. "
  "The age is never negative, never decreases as time passes and saturates instead of overflowing.",
  ["inputs", "histories"], "all Date and Age values, delays and repeated hits",
  "Tests check one age calculation; duplicates, skew, missing dates and overflow need other inputs.",
  [CACHE+"cacheable.go", CACHE+"httpcache.go", MW], [("age calculation", CACHE+"cacheable.go"), ("Age header on hits", MW)],
  ["Age header of the client's response"])

prop("C06", "Validation asks with the stored validators and obeys the answer",
  "A stored response that may not be reused is validated with its Etag as If-None-Match and its Last-Modified, else its Date, as If-Modified-Since, without changing the client's own request. "
  "After a 304 the client gets the stored status and body with the header fields of the 304 replacing or adding to the stored ones, except Content-Length and Etag (a Vary of the 304 may be ignored), and the response is fresh again from then on; a 304 with a different Etag does not leave the stored response in the store, any other answer is passed on and replaces the stored response or removes it, and an origin error leaves it stored. "
  "A 304 that does not answer such a validation is passed on and never stored.",
  ["inputs", "histories", "fault_sequences"], "all validator combinations, origin answers and later delays",
  "Tests validate one entry once; wrong merges show with other validators, answers or a third request.",
  [MW, CACHE+"httpcache.go"], [("conditional request and 304 merge", MW), ("stored entry update", CACHE+"httpcache.go")],
  ["request seen by the origin", "client's response", "later requests"])

prop("C07", "Configured Cache-Control defaults and cache-all mode are honoured",
  "With a configured default Cache-Control, a response to a cacheable request that has no Cache-Control header gets the configured one, and with force every such response does; the resulting header decides about storing and reuse and is what the client gets. "
  "Without a configured value, and for requests that bypass the cache, Cache-Control headers stay untouched. "
  "With strict mode off every response to a cacheable GET request is stored and reused until its time to live passes, whatever status or Cache-Control directives either side sends.",
  ["inputs", "configurations"], "all configured values, force flag, origin headers, statuses and delays",
  "Tests check one default; conflicts between configured and received headers need combinations.",
  [CACHE+"httpcache.go", CACHE+"cacheable.go", MW], [("header default", MW), ("cache-all decision", CACHE+"httpcache.go")],
  ["client's Cache-Control header", "whether later requests reach the origin"])

prop("C08", "Excluded paths, headers and content types are never cached",
  "A request whose path matches a configured path pattern or that has a header (named with dashes or underscores) whose first value equals a configured one is always answered by the origin and leaves the store alone (unless its method is unsafe), even if a response was stored before or other requests come at the same time. "
  "A response whose Content-Type matches a configured pattern and whose declared length exceeds the size configured with it (any length if none is configured) is passed on but not stored; every matching rule counts. "
  "Invalid patterns are ignored and nothing else is excluded.",
  ["inputs", "configurations"], "all paths, header values, content types and lengths against combinations of rules",
  "Tests use one rule and one request; missed or excessive exclusion depends on combinations and order.",
  [CACHE+"httpcache.go", CACHE+"cacheable.go", MW], [("exclusion rules", CACHE+"httpcache.go"), ("application in the transport", MW)],
  ["origin contacts", "number of stored responses"])

prop("C09", "No response is served from the store after its time to live",
  "A stored response gets the time to live of the first configured timeout whose pattern matches its path, else the default, else 120 s, and is served from the store until then and not afterwards. "
  "No cache provider (in memory, Redis) returns an item after the time to live it was stored with or loses it before; a later store of the same key starts anew. "
  "In a two-tier setup a node that fetched an item from Redis keeps it for at most the layered time to live after that fetch, and the storing node never beyond the item's own.",
  ["inputs", "histories", "configurations"], "all times to live, delays, paths and timeout lists",
  "Tests sleep for one expiry; order of rules, units, zero and refreshes need other values.",
  [CACHE+"httpcache.go", PR+"inmemory.go", PR+"remote.go", PR+"redis_client.go", PR+"cached.go"],
  [("time to live choice", CACHE+"httpcache.go"), ("expiry in memory", PR+"inmemory.go"), ("expiry in Redis", PR+"redis_client.go"), ("local tier", PR+"cached.go")],
  ["lookups after delays"])

prop("C10", "The in-memory cache stays within its configured sizes",
  "The items kept in memory, each counted as its value plus 24 bytes, never exceed the configured maximum size, and no item larger than the configured maximum item size is kept. "
  "Items are only dropped if the space is needed, least recently used (stored or looked up) first. "
  "Storing a value that is too large never leaves an older value of the same key behind.",
  ["histories", "inputs", "configurations"], "all operation sequences over three keys, value sizes and limits",
  "Tests fill one cache in one order; accounting drift needs overwrites, lookups and limits to interact.",
  [PR+"inmemory.go", PR+"simple.go"], [("LRU cache", PR+"inmemory.go")],
  ["keys listed", "lookups"])

prop("C11", "The in-memory cache behaves like a map with expiry",
  "After any sequence of set, get, delete, purge, flush and waiting, a lookup in the in-memory cache finds exactly the latest value of a key that was neither removed, expired nor evicted. "
  "Delete tells whether the item existed, and listing and counting report exactly the kept items. "
  "Nothing an operation leaves behind (expired times to live, order of use, sizes) influences later items of the same key.",
  ["histories", "inputs"], "all operation sequences over symbolic keys, times to live and delays",
  "Tests run one operation of each kind; stale bookkeeping needs sequences.",
  [PR+"inmemory.go"], [("LRU cache with expiry", PR+"inmemory.go")],
  ["lookups, listings, counts and results of deletions after every operation"])

prop("C12", "Purging removes exactly the matching items",
  "Purging with a pattern removes exactly the items whose whole key matches it, where * matches any sequence of bytes and every other character only itself, and keeps all others; the empty pattern and flushing remove everything. "
  "Listing with a prefix returns exactly the keys that start with it literally. "
  "This holds for the in-memory, the Redis and the two-tier provider and regardless of how many pages Redis returns its keys in.",
  ["inputs", "configurations"], "all patterns, prefixes and (non-empty) keys incl. special characters, page sizes",
  "Tests purge one prefix; characters special to regular expressions or to Redis globs need other keys and patterns.",
  [PR+"inmemory.go", PR+"remote.go", PR+"redis_client.go", PR+"cached.go"],
  [("pattern translation in memory", PR+"inmemory.go"), ("pattern translation for Redis", PR+"remote.go"), ("scan and delete", PR+"redis_client.go")],
  ["lookups after purging", "listed keys"])

prop("C13", "Removed items stay removed, and the two tiers agree",
  "Once a delete, purge or flush of the two-tier provider has finished, no lookup at that node or at a node without a local copy finds an item that had reached Redis before, whatever lookups ran concurrently. "
  "The latest stored value is found at the storing node at once and elsewhere once it reached Redis, and concurrent lookups never bring back an older one. "
  "If Redis fails, lookups find local copies only, a removal is reported as failed, and the local copy is removed in any case.",
  ["schedules", "histories", "fault_sequences"], "all interleavings (bounded preemptions) of removals or stores with lookups, and Redis failures",
  "Tests run operations one after the other; a lookup refilling the local tier during a removal needs an interleaving.",
  [PR+"cached.go", PR+"remote.go", PR+"redis_client.go"], [("two-tier lookup and removal", PR+"cached.go")],
  ["lookups after removals"], note="Known finding: a store still waiting in the background queue may restore an item removed meanwhile (known_findings.json).")

prop("C15", "Background Redis writes run exactly once, bounded and without blocking",
  "Every background job that was accepted is executed exactly once unless the queue is stopped first, and none is executed twice. "
  "Offering a job never blocks and is rejected with an error only if the buffer is full; no more jobs than configured workers run at once. "
  "Stopping waits for running jobs, and nothing runs afterwards.",
  ["schedules", "configurations"], "all interleavings (bounded preemptions), buffer sizes and worker counts",
  "Tests dispatch a few jobs in one schedule.",
  [PR+"queue.go"], [("job queue", PR+"queue.go")],
  ["executions per job", "results of offers"])

prop("C14", "Concurrent identical requests share one origin contact, safely",
  "Plain GET requests (not excluded from caching) for one URL that overlap share one origin contact: a request that arrives while another is under way gets that one's complete response (or its error), a request that starts later never does, with a cache behind it a storable response is fetched once, and no request ever hangs. "
  "Requests with another method or URL or with an Authorization, Cookie, Cache-Control, Pragma, Range or conditional header always have their own origin contact. "
  "Results that belong to one client only (private, no-store or Set-Cookie responses, cancelled or panicking requests) or that vary by a header in which the requests differ are not shared with waiting requests, which then contact the origin themselves.",
  ["schedules", "inputs", "fault_sequences"], "all interleavings (bounded preemptions) of two or three requests, all distinguishing headers, all ways to fail",
  "Tests start a burst of goroutines in one schedule and never fail or mix requests.",
  [COAL], [("coalescing transport", COAL)],
  ["origin contacts and the response of each request"])

prop("C18", "The access control list guards every API route",
  "With a non-empty access control list an API request is allowed exactly if its client address equals a listed address or lies in a listed network (prefix length included), and with an empty list every request is; a malformed list is rejected at start. "
  "The client address is the last address on the last X-Forwarded-For line, else X-Real-Ip, else the address of the IPv4 or IPv6 connection, and a client without a valid one is denied. "
  "A denied request to any route, debugging and later registered routes included, is answered with 401 and has no effect.",
  ["inputs", "configurations"], "all client addresses and header combinations against lists of addresses and networks, all routes",
  "Tests try a few addresses; prefix arithmetic, header precedence and unguarded routes need other ones.",
  ["pkg/api/filter.go", "pkg/api/api.go"], [("address filter", "pkg/api/filter.go"), ("route registration", "pkg/api/api.go")],
  ["status of the answer", "effects on the cache"])

prop("C21", "A reload puts the newest valid configuration into use, exactly",
  "After the configuration file changed to a valid one, a reload (by SIGHUP, by POST to cache/config/reload below the API prefix, or by the file watcher within its interval, a change before its start included) puts exactly the file's cache section into use, with strict mode and the other defaults where it says nothing; an unchanged file is not applied again, so settings made through the API stay. "
  "A missing or malformed file, one with unknown fields and a watch interval that is not positive are rejected at start, and at a reload such a file is reported (400 through the API) and leaves the settings in use. "
  "However file changes and reloads interleave, in the end the newest file is in use, and each decision about a request follows the settings of one file only.",
  ["histories", "schedules", "fault_sequences"], "valid and invalid versions of the file, all reload triggers, all interleavings (bounded preemptions) of two changes with their reloads",
  "Tests never reload; lost, stale or partial reloads need a sequence or an interleaving.",
  ["pkg/config/loader.go", "pkg/config/config.go", "pkg/kache/kache.go", CACHE+"httpcache.go"],
  [("loading and watching", "pkg/config/loader.go"), ("reload triggers", "pkg/kache/kache.go"), ("configuration swap", CACHE+"httpcache.go")],
  ["settings in use after each reload", "results of reloads"])

prop("C19", "API routes exist exactly below the configured prefix",
  "Every API operation (GET cache/keys, GET cache/config, PUT cache/config/update, DELETE cache/invalidate, DELETE cache/flush and later registered routes) is reachable with its own method below the configured prefix, with or without leading and trailing slash, and below /api if none is configured; PURGE / , GET /version and GET /metrics do not depend on the prefix. "
  "Each of them performs its own operation and no other. "
  "A request with any other method or path is answered with an error (404 or 405) and has no effect.",
  ["inputs", "configurations"], "all methods, prefixes and all paths that differ from a route's in one byte, a missing byte, or additional bytes",
  "Tests call each route once below one prefix.",
  ["pkg/api/api.go", "pkg/server/handlers.go"], [("route registration", "pkg/api/api.go"), ("operations", "pkg/server/handlers.go")],
  ["status and body of the answer", "items and settings afterwards"])

prop("C20", "API operations act completely, on all nodes they concern, or not at all",
  "PURGE and DELETE cache/invalidate remove exactly the items matching X-Purge-Key, flushing removes all items, the key list is a JSON array of all keys, and a configuration update puts exactly the given settings (strict mode and other defaults where it says nothing) into use, as shown by GET cache/config; each answers 200. "
  "If the provider fails to remove (404) or an update is invalid or truncated (400), nothing changes and nothing is sent to other nodes. "
  "In a cluster a PURGE (in a layered setup) and an update (unless it comes from another node) are sent to the other nodes exactly once, to a route of their API that has the same effect there, and are not sent on by them; nothing else is sent.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all patterns, items, updates valid and invalid, cluster and layering configurations, provider failures",
  "Tests exercise no handler with a cluster, a failing provider or an invalid update.",
  ["pkg/server/handlers.go", "pkg/api/api.go", CACHE+"httpcache.go"], [("API handlers", "pkg/server/handlers.go"), ("configuration swap", CACHE+"httpcache.go")],
  ["status and body of the answer", "items and settings of this and another node", "messages sent"])

PROXY = "pkg/server/server_target.go"
SRV = "pkg/server/server.go"

prop("C22", "Requests go unchanged to the first matching upstream and answers come back",
  "The first configured upstream whose path is a prefix of the request's path gets the request (without one the client gets 503 and no origin is contacted): its own scheme, host and Host header, its address's path joined by exactly one slash with the client's, nothing encoded or decoded on the way, and the client's query as it was. "
  "Method, body and end-to-end headers are passed on; headers that concern one connection are removed, the client's address is appended to X-Forwarded-For, and a missing User-Agent becomes kache. "
  "Status, end-to-end headers and body of the answer reach the client as the origin sent them.",
  ["inputs", "configurations"], "all paths and queries of a bounded number of symbolic pieces, lists of upstreams, header values, bodies and statuses",
  "Tests use one or two plain paths and look at the body only.",
  [PROXY, SRV, "pkg/config/config.go"], [("routing and rewriting", PROXY), ("request handling", SRV)],
  ["request seen by the origin", "answer seen by the client"])

prop("C23", "A failing or slow origin or client harms only its own request",
  "A request whose origin fails is answered by the kind of failure, however it is wrapped: 502 if the connection was closed (EOF), 504 for a network timeout, 503 for other network operation errors (refused, unknown host), else 500; stored responses are neither served in its place nor removed, and the next request succeeds as soon as the origin does. "
  "A request still unanswered after 30 s is then answered with 503 and its context cancelled, earlier answers are passed on, and nothing is stored for a request given up. "
  "A client that goes away spoils neither the store nor the request of another client.",
  ["fault_sequences", "schedules", "histories"], "all transport errors and wrappings, all delays of the origin, all moments a client goes away, with or without stored responses",
  "Tests never make the origin fail, hang or lose its client.",
  [PROXY, SRV, CACHE+"httpcache.go", COAL, "pkg/server/middleware/httpcache.go"], [("error handler and time limit", PROXY+", "+SRV), ("cached transport", "pkg/server/middleware/httpcache.go")],
  ["status of the answer", "contacts of the origin", "later answers"])

prop("C26", "The cache debugging header tells the truth",
  "With the debugging header enabled, exactly the responses whose content comes from the store, validated with the origin or not, carry it with the value HIT; every other response carries it with MISS or not at all, even if the origin sends such a header itself. "
  "It has the configured name (X-Kache by default), changes of the setting apply to the next request, and while it is disabled none is added. "
  "The origin never sees it.",
  ["histories", "configurations"], "all sequences of requests (GET, HEAD, with credentials) and setting changes of a bounded length at all times",
  "Tests check one miss and one hit with the setting constant.",
  ["pkg/server/middleware/httpcache.go", CACHE+"httpcache.go"], [("marking", "pkg/server/middleware/httpcache.go")],
  ["debugging header of each response", "origin contacts"])

prop("C27", "A configuration file is put into use as a whole or rejected at start",
  "At start, a missing file, one without any listener, any upstream, api section or provider section, with an empty listener or upstream, an unknown field or a value of the wrong type, an unparsable upstream address, an upstream path not starting with a slash or malformed, a malformed access control list, an item limit above the total, an unknown backend or cluster discovery, Redis without endpoint, or an address of a listener or the API that cannot be opened ends the program with an error and nonzero status, never with a crash; so does an unknown flag or one with an invalid value. "
  "Any other is accepted from the path given by -config.file (kache.yml by default) and watched if and as often as the flags say, and the service then uses exactly the listeners, upstreams, API prefix, access control list, debug routes, in-memory limits and cache settings of the file (defaults where it says nothing). "
  "The running service serves every listener until SIGTERM or SIGINT, and then closes them all and ends.",
  ["configurations"], "all combinations of two or more ways to write each section and one (thorough: two) wrong ones; characters and numbers in them",
  "No test starts the service from a file.",
  ["cmd/kache/main.go", "pkg/config/config.go", "pkg/config/loader.go", "pkg/kache/kache.go", "pkg/server/server.go", "pkg/server/server_target.go", "pkg/server/server_listener.go", "pkg/api/api.go", PR+"provider.go"],
  [("flags and exit status", "cmd/kache/main.go"), ("validation", "pkg/config/config.go"), ("construction of the modules", "pkg/kache/kache.go"), ("targets and listeners", "pkg/server/server_target.go, pkg/server/server_listener.go")],
  ["error at start", "open listeners", "origin asked for a request", "answers of the API", "items kept"])

prop("C34", "The request counter tells how the cache is used",
  "The counter kache_http_cache_requests_total, from the start on present with the results hit and miss and value 0, counts every request that is looked up in the cache at most once: as hit exactly if it is answered from the store without asking the origin, as miss exactly if nothing usable is stored for it, whether or not the origin then fails, and as neither if a stored response has to be validated. "
  "Requests that are excluded or take no part in caching are not counted.",
  ["inputs", "histories"], "histories of three (thorough: four) requests of seven kinds with any delays, answers of three kinds, strict or not",
  "Tests never look at the counter.",
  ["pkg/server/middleware/httpcache.go", "pkg/server/server.go"],
  [("counter", "pkg/server/middleware/httpcache.go: newMetrics, RoundTrip")],
  ["value of the counter", "origin contacts"])

prop("C28", "Every request on a connection gets one complete, correctly framed answer",
  "Requests on a client connection are answered in order, one response each, complete and framed so that its end can be told, as soon as the origin answers (503 once 30 s have passed), whatever pieces a request arrives in if its header takes less than a second; the connection stays open, and a response that breaks off at the origin never looks complete to the client. "
  "When a client closes its connection its origin contact is cancelled at once, and other clients are answered. "
  "Every configured listener is opened or the start fails; when the service stops no more connections are accepted, idle ones are closed, requests under way are answered if that takes less than five seconds, and then it ends.",
  ["inputs", "schedules", "fault_sequences"], "all answer times up to 40 s, methods, framings of requests and answers, short bodies, cut points of a request and a response, moments of leaving and stopping",
  "Tests run one prompt request at a time, without a real connection and never stop the service.",
  ["pkg/server/server_listener.go", "pkg/server/server.go", COAL, "pkg/server/middleware/httpcache.go"],
  [("listeners and their time limits", "pkg/server/server_listener.go"), ("start and stop", "pkg/server/server.go")],
  ["bytes on the client's connection and their time", "cancellation of origin contacts", "time the service ends"])

prop("C29", "Stored responses are complete and come back unaltered",
  "A client served from the store gets the status, the end-to-end headers (repeated and empty ones included) and every byte of the body the origin once gave, and no other header than Age in addition. "
  "A response that breaks off is never stored, nor given to this or a waiting client as a complete one. "
  "A stored entry that was cut off or overwritten with garbage counts as none: the origin is asked and its answer stored in its place.",
  ["inputs", "fault_sequences"], "all statuses, framings, header values and body bytes of bounded length; origin failure after any byte; damage at any byte",
  "Tests store short texts and never break them off.",
  ["pkg/server/middleware/httpcache.go", CACHE+"httpcache.go", COAL], [("storing and fetching", CACHE+"httpcache.go"), ("coalescing transport", COAL)],
  ["status, headers and body of each answer"])

prop("C30", "HEAD requests are answered like GET requests without the body",
  "A HEAD request gets the status and headers (a declared Content-Length included) a GET request for the same URL gets, and no body. "
  "A GET request never gets the empty body of a HEAD request's answer, in whatever order they come, whether answers are stored, expired or validated meanwhile.",
  ["histories"], "all sequences of four GET and HEAD requests at all times, strict or not, all short bodies",
  "Tests send HEAD requests only to an empty store.",
  ["pkg/server/middleware/httpcache.go", CACHE+"httpcache.go"], [("cached transport", "pkg/server/middleware/httpcache.go")],
  ["status, headers and body of each answer"])

prop("C32", "Origins are asked in one complete message each and heard out",
  "A request that needs the origin is written as one complete well-formed message, framed as its body requires and asking for no content coding the client did not ask for, to a connection to the upstream's host and port (80 by default), and the connection is used again if origin and framing allow; connecting and answering may take 30 s in all, and no request waits for another one's answer. "
  "The answer reaches the client whole and in the coding the origin gave it, however it is framed (declared, chunked, until close, HTTP/1.0, after an informational one, without body) and in whatever pieces it comes; headers of 60 kB and long bodies pass in both directions. "
  "A refused connection is answered with 503, one that breaks during an answer with an error or a cut connection, an idle one that was closed does no harm, a POST is never sent twice, and the connection of a client that left is closed at once.",
  ["inputs", "schedules", "fault_sequences"], "ten framings with symbolic bodies cut at any byte for any time, symbolic requests, all breaking points of a connection, all times of connecting, answering and leaving",
  "Tests answer from a local server at once in one piece.",
  ["pkg/server/middleware/httpcache.go", PROXY, COAL],
  [("transport to the origins", "pkg/server/middleware/httpcache.go"), ("rewriting of the request", PROXY)],
  ["bytes on the connections to the origin and their number", "answer seen by the client and its time"])

prop("C33", "Responses that vary are only reused for matching requests",
  "A stored response, or one shared between overlapping requests, is only used for a request that has the same values as the request it answered in all headers named by the response's Vary header (names in any letter case, on one or several lines; the values of several lines joined; an absent header differs from an empty one), and for no request if Vary has a *. "
  "For matching requests it is used like any other, and a request that does not match is answered by the origin, whose response then takes the stored one's place. "
  "This holds in strict mode and without it, and after a validation by 304 too.",
  ["inputs", "histories", "schedules"], "layouts of Vary with symbolic names, absent, empty, multiple and symbolic values in each of two requests, histories of three requests, overlapping requests",
  "No test has a Vary header.",
  [CACHE+"httpcache.go", CACHE+"entry.go", MW, COAL], [("stored responses", CACHE+"httpcache.go"), ("shared responses", COAL)],
  ["origin contacts", "body served"])

CL = "pkg/cluster/"

prop("C16", "Cluster messages are retried, complete, until delivered",
  "A message to another node that fails by a transport error, no answer within 10 s or an answer of 400 or above is sent again after the backoff (7 s) with the same method, URL, headers and body, until it succeeds or was tried as often as configured (five times); one that succeeded is never sent again. "
  "Sending never waits, however many nodes there are, failing or silent nodes do not stop messages to others, which wait for a free worker only, no more messages are under way at once than there are workers, and every answer is closed. "
  "Closing the connection waits for deliveries under way, at most 10 s, and nothing is delivered afterwards.",
  ["fault_sequences", "schedules"], "all sequences of failures (errors, statuses 400-599) of several nodes, all durations, worker counts and moments of closing",
  "No test exercises the message queue.",
  [CL+"rqueue.go", CL+"kubernetes.go"], [("message queue", CL+"rqueue.go"), ("broadcast", CL+"kubernetes.go")],
  ["deliveries as seen by the nodes and their times"])

prop("C17", "A cluster message reaches every other endpoint exactly once",
  "A broadcast sends one message to each ready address (IPv4 or IPv6) of the configured service in each subset that has a port of the given name, on that port's number, and to nothing else; if the lookup of the endpoints fails nothing is sent. "
  "The message has the given method and path, the request's complete body and headers, is marked by an X-Kache-Cluster header, and names the client by the request's X-Forwarded-For or X-Real-Ip header, else by an X-Forwarded-For header with the address of its connection. "
  "The original request's headers are not changed.",
  ["inputs", "configurations"], "all endpoint lists with up to two subsets, port lists and numbers, addresses, bodies and header values",
  "No test exercises broadcasts; it needs a Kubernetes API.",
  [CL+"kubernetes.go"], [("endpoint lookup and broadcast", CL+"kubernetes.go")],
  ["messages as seen by the nodes"])

prop("C24", "The configured provider is built as configured or rejected",
  "The backend inmemory or redis (optionally layered over a local tier) is built with the configured Redis servers, credentials and database, and stores in Redis exactly if it is the backend; an unknown backend, a local item limit above the total limit, and Redis without an endpoint, without a queue worker, with a negative queue size or unreachable at start are rejected without a provider. "
  "The local limits (256 MiB in total and 128 MiB per item by default) apply: an item above max_item_size is not kept locally, one at least 24 bytes below it is. "
  "Copies fetched from Redis into the local tier live for layered_ttl, or 120 s if it is not set.",
  ["configurations"], "all backends, layering, endpoints, worker counts, lifetimes, limits and item sizes up to a bound, and reachability of the server",
  "Tests build one or two configurations.",
  [PR+"provider.go", PR+"cached.go", PR+"inmemory.go", PR+"redis_client.go"], [("provider construction", PR+"provider.go"), ("Redis client", PR+"redis_client.go")],
  ["errors at construction", "items found locally and in Redis"])

prop("C25", "Redis failures degrade to misses and reported errors",
  "If a command fails at the Redis server no operation crashes or returns wrong data: a lookup is a miss, a store is dropped, a listing is empty, a removal is reported as failed, other items are untouched, and everything works again once the server does. "
  "A server that hangs on a store delays neither further stores nor lookups: stores that fit the queue are made in the end, further ones may be dropped. "
  "Items above the Redis max_item_size are not stored in Redis.",
  ["fault_sequences", "histories"], "all histories of three operations with every command failing or not, all delays, queue sizes and worker counts of a bounded range",
  "Tests run against a server that never fails.",
  [PR+"redis_client.go", PR+"remote.go", PR+"queue.go"], [("Redis provider", PR+"remote.go"), ("Redis client", PR+"redis_client.go")],
  ["results of operations", "items in Redis"])

prop("C31", "Concurrent requests, invalidations and configuration changes are safe",
  "Client requests, invalidations, listings and configuration changes through the API may run at the same time: nothing crashes, blocks or races on memory, every client gets one complete response of the origin, and later requests are served and follow the new settings. "
  "Concurrent operations on the in-memory provider (set, get, delete, purge, flush, list, count, with evictions) have the results they have in some order one after the other, and leave the same items.",
  ["schedules"], "all interleavings (bounded preemptions) of two requests and an operation of the API, or of three provider operations; data races on all memory accesses",
  "Tests run one client at a time, or without checking the outcome of each interleaving.",
  [PR+"inmemory.go", CACHE+"httpcache.go", "pkg/server/middleware/httpcache.go", COAL, "pkg/server/server.go"],
  [("in-memory provider", PR+"inmemory.go"), ("configuration of the cache", CACHE+"httpcache.go"), ("coalescing transport", COAL)],
  ["responses, listings and counts of concurrent operations"])
