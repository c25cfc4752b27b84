package hx

import (
	"context"
	"fmt"
	"sync/atomic"
	"time"
)

// grace is how long the scheduler waits for an operation that neither calls storage nor ends (one
// that waits for another's lock) before it lets another operation run. It affects only which
// schedule is explored, never a verdict.
var grace atomic.Int64

func init() { grace.Store(int64(200 * time.Millisecond)) }

// Step is one scheduling decision.
type Step struct {
	Op   int
	What string
}

// Schedule runs the operations with one storage call at a time, letting choose pick which waiting
// operation goes on. It returns the schedule taken. An operation that panics reports it through the
// returned error.
func (g *Gate) Schedule(ops []func(ctx context.Context), maxSteps int, choose func(waiting []Step) int) (trace []Step, err error) {
	done := make(chan error, len(ops))
	running := len(ops)
	for n, f := range ops {
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- fmt.Errorf("operation %d panics: %v", n, r)
					return
				}
				done <- nil
			}()
			base := g.Base
			if base == nil {
				base = context.Background()
			}
			f(WithOp(base, n))
		}()
	}
	waiting := map[int][]*parked{}
	for running > 0 {
		// wait until every operation is parked or done
		for len(waiting) < running {
			timer := time.NewTimer(time.Duration(grace.Load()))
			select {
			case p := <-g.park:
				waiting[p.op] = append(waiting[p.op], p)
				timer.Stop()
				continue
			case e := <-done:
				if e != nil && err == nil {
					err = e
				}
				running--
				timer.Stop()
				continue
			case <-timer.C:
			}
			if len(waiting) > 0 {
				grace.Store(int64(2 * time.Millisecond))
				break
			}
		}
		if running == 0 {
			break
		}
		if len(waiting) == 0 {
			continue
		}
		var list []Step
		var ps []*parked
		for op := range ops {
			for _, p := range waiting[op] {
				list = append(list, Step{op, p.what})
				ps = append(ps, p)
			}
		}
		if len(trace) >= maxSteps {
			if err == nil {
				err = fmt.Errorf("operations do not end: more than %d storage calls", maxSteps)
			}
			// let everything run to its end unscheduled would not end; give up on these goroutines
			return trace, err
		}
		n := choose(list)
		s, p := list[n], ps[n]
		trace = append(trace, s)
		var rest []*parked
		for _, q := range waiting[s.Op] {
			if q != p {
				rest = append(rest, q)
			}
		}
		if rest == nil {
			delete(waiting, s.Op)
		} else {
			waiting[s.Op] = rest
		}
		close(p.go_)
	}
	return trace, err
}
