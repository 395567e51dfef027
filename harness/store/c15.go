package store

import (
	"sync/atomic"

	"github.com/kacheio/kache/pkg/provider"
	vf "github.com/kacheio/kache/zzvf/vf"
)

// Every accepted background job is executed exactly once, jobs are rejected
// only if the buffer is full, offering a job never blocks, no more than the
// configured number runs at once, and nothing runs after the queue stopped.
//
// Bounds: buffers of 0-2, 1-2 workers, 3 jobs, stopping before or after they
// ran; every interleaving with up to 2 (thorough: 3) preemptions.
//
//vf:time=80 ttime=400
func C15_Queue() {
	size, workers := vf.Choose("size", 3), 1+vf.Choose("workers", 2)
	k := 2
	if vf.Thorough() {
		k = 3
	}
	var ran [3]atomic.Int32
	var running, maxRunning, total atomic.Int32
	var stopped atomic.Bool
	var accepted [3]bool
	vf.Explore(k)
	q := provider.VFNewQueue(size, workers)
	if vf.Bool("idle") {
		vf.StopExplore()
		vf.Wait() // the workers listen
		vf.Explore(k)
	}
	full := 0
	for i := range accepted {
		i := i
		err := q.Dispatch(func() {
			n := running.Add(1)
			if n > maxRunning.Load() {
				maxRunning.Store(n)
			}
			vf.Assert(!stopped.Load(), "no job runs after the queue stopped")
			vf.Yield()
			ran[i].Add(1)
			total.Add(1)
			running.Add(-1)
		})
		accepted[i] = err == nil
		if err != nil {
			vf.Assert(err == provider.VFErrFull, "a rejected job is reported as such")
			full++
			vf.Assert(i >= size, "a job is only rejected if the buffer is full")
			vf.Reach("rejected")
		}
	}
	early := vf.Bool("early")
	if !early {
		vf.StopExplore()
		vf.Wait()
		for i := range accepted {
			want := int32(0)
			if accepted[i] {
				want = 1
				vf.Reach("executed")
			}
			vf.Assert(ran[i].Load() == want, "exactly the accepted jobs are executed, once each")
		}
	}
	q.Stop()
	stopped.Store(true)
	vf.StopExplore()
	vf.Assert(running.Load() == 0, "stopping waits for running jobs")
	n := total.Load()
	vf.Wait()
	vf.Assert(total.Load() == n, "nothing runs after the queue stopped")
	vf.Assert(int(maxRunning.Load()) <= workers, "no more jobs than workers run at once")
	for i := range accepted {
		vf.Assert(ran[i].Load() <= 1, "no job runs twice")
	}
}

// Offering a job never blocks, whoever else offers one at the same time.
//
// Bounds: buffers of 0-2, one worker that is busy until the end, three offers
// at the same time; every interleaving with up to 2 (thorough: 3) preemptions.
//
//vf:time=60 ttime=300
func C15_Offer() {
	k := 2
	if vf.Thorough() {
		k = 3
	}
	size := vf.Choose("size", 3)
	q := provider.VFNewQueue(size, 1)
	release := make(chan struct{})
	vf.Wait()
	vf.Assert(q.Dispatch(func() { <-release }) == nil, "a job is accepted")
	vf.Wait()
	var accepted, returned, ran atomic.Int32
	vf.Explore(k)
	for i := 0; i < 3; i++ {
		go func() {
			if q.Dispatch(func() { ran.Add(1) }) == nil {
				accepted.Add(1)
			}
			returned.Add(1)
		}()
	}
	vf.Wait()
	vf.StopExplore()
	vf.Wait()
	vf.Assert(returned.Load() == 3, "no offer blocks")
	vf.Assert(int(accepted.Load()) == size, "as many jobs are accepted as there are free places")
	close(release)
	vf.Wait()
	vf.Assert(ran.Load() == accepted.Load(), "exactly the accepted jobs are executed")
	q.Stop()
	vf.Reach("done")
}
