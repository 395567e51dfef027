package provider

import (
	"github.com/redis/go-redis/v9"
)

// VFSwap replaces the connection of a redis client (native runs only).
func VFSwap(c RemoteCacheClient, u redis.UniversalClient) redis.UniversalClient {
	rc := c.(*redisClient)
	old := rc.UniversalClient
	rc.UniversalClient = u
	return old
}

// VFQueue gives access to the job queue.
type VFQueue struct{ q *jobQueue }

func VFNewQueue(size, workers int) VFQueue { return VFQueue{newJobQueue(size, workers)} }

func (q VFQueue) Dispatch(job func()) error { return q.q.dispatch(job) }

func (q VFQueue) Stop() { q.q.stop() }

var VFErrFull = errJobQueueFull
