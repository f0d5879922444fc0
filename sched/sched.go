// Package sched is a cooperative scheduler for instrumented code: it runs a few
// threads, exactly one at a time, and switches between them at chosen points.
package sched

import (
	"fmt"
	"time"
)

// A Segment runs a thread for a number of steps, or until it ends if Steps is 0.
type Segment struct {
	Thread, Steps int
}

type thread struct {
	wake  chan struct{}
	done  bool
	steps int
}

var (
	left    = never // Steps until slow is called.
	given   int     // What left was at first.
	planned bool    // Whether that is a planned switch.
	active  bool
	cur     int
	threads []*thread
	plan    []Segment
	end     chan struct{}
)

const never = 1 << 62

// maxSpin is how long a thread may run in one go before others get a chance,
// in case that it waits for one of them.
const maxSpin = 20000000

// Y is called by instrumented code before each statement.
func Y() {
	left--
	if left == 0 {
		slow()
	}
}

func slow() {
	if !active {
		left = never
		return
	}
	next(!planned)
}

// give lets the current thread run for n steps, or as long as it wants to.
func give(n int) {
	planned = n > 0
	if !planned {
		n = maxSpin
	}
	left, given = n, n
}

// account adds the current thread's steps to its own count.
func account() {
	threads[cur].steps += given - left
	given = left
}

// Active reports whether a schedule is being run.
func Active() bool { return active }

// Block is called by a thread that cannot go on until another has run.
func Block() {
	if !active {
		panic("sched: blocked without any other thread")
	}
	me := cur
	others := false
	for i, t := range threads {
		if i != me && !t.done {
			others = true
		}
	}
	if !others {
		panic("sched: deadlock")
	}
	next(true)
}

// next passes control on as planned, or to any other thread.
func next(other bool) {
	account()
	me := cur
	t := threads[me]
	to, steps := -1, 0
	for !other && len(plan) > 0 && to < 0 {
		s := plan[0]
		plan = plan[1:]
		if !threads[s.Thread].done {
			to, steps = s.Thread, s.Steps
		}
	}
	for k := 1; k <= len(threads) && to < 0; k++ {
		if i := (me + k) % len(threads); !threads[i].done {
			to = i
		}
	}
	give(steps)
	if to == me {
		return
	}
	cur = to
	threads[to].wake <- struct{}{}
	if !t.done {
		<-t.wake
	}
}

// ErrStuck means that a thread waits for something the scheduler does not see.
var ErrStuck = fmt.Errorf("sched: a thread waits for something unknown")

// Run runs the bodies by the plan. When the plan is used up, the threads run to
// their ends one after another. It returns the number of steps of each thread.
func Run(bodies []func(), p []Segment) ([]int, error) {
	threads = threads[:0]
	end = make(chan struct{}, 1)
	for range bodies {
		threads = append(threads, &thread{wake: make(chan struct{}, 1)})
	}
	plan = p
	for i, f := range bodies {
		t := threads[i]
		go func() {
			<-t.wake
			f()
			t.done = true
			all := true
			for _, u := range threads {
				all = all && u.done
			}
			if all {
				account()
				active, left = false, never
				end <- struct{}{}
				return
			}
			next(false)
		}()
	}
	cur = 0
	give(0)
	if len(plan) > 0 {
		cur = plan[0].Thread
		give(plan[0].Steps)
		plan = plan[1:]
	}
	active = true
	threads[cur].wake <- struct{}{}
	var err error
	tm := time.NewTimer(20 * time.Second)
	select {
	case <-end:
	case <-tm.C:
		err = ErrStuck
	}
	tm.Stop()
	var n []int
	for _, t := range threads {
		n = append(n, t.steps)
	}
	return n, err
}
