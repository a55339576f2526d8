package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"verif/gid"
	"verif/h"
)

// Goroutines that run one at a time: before every statement of the code they
// stop and wait to be told to go on.  That needs a build with the overlay that
// cmd/instrument writes; in others they only stop in decoders of our own.

// hooked is set in builds with the overlay and makes the code call the function.
var hooked func(func())

type schedProc struct {
	n      int
	s      *sched
	resume chan struct{}
	parked bool
	done   bool
	steps  int
	phase  int
	err    error
}

type sched struct {
	procs  []*schedProc
	events chan *schedProc
	mu     sync.Mutex // of the events of a trace
}

var (
	schedProcs sync.Map // by goroutine
	schedOnce  sync.Once
)

// schedYield stops the goroutine if it is one of those that are told when to go on.
func schedYield() {
	v, ok := schedProcs.Load(gid.ID())
	if !ok {
		return
	}

	p := v.(*schedProc) //nolint:forcetypeassert
	p.steps++
	p.s.events <- p
	<-p.resume
}

// schedSelf is the goroutine's number.
func schedSelf() *schedProc {
	v, ok := schedProcs.Load(gid.ID())
	if !ok {
		return nil
	}

	return v.(*schedProc) //nolint:forcetypeassert
}

// A policy chooses which of those that wait goes on; last may be among them.
type policy func(waiting []*schedProc, last *schedProc) *schedProc

// schedRun runs the functions under the policy and returns what went wrong.
func schedRun(fs []func(p *schedProc) error, choose policy) error {
	schedOnce.Do(func() {
		if hooked != nil {
			hooked(schedYield)
		}
	})

	s := &sched{events: make(chan *schedProc)}

	for n := range fs {
		p := &schedProc{n: n, s: s, resume: make(chan struct{})}
		s.procs = append(s.procs, p)

		go func() {
			id := gid.ID()

			schedProcs.Store(id, p)
			defer schedProcs.Delete(id)

			s.events <- p
			<-p.resume

			if err := h.Guard(func() { p.err = fs[n](p) }); err != nil {
				p.err = err
			}

			p.done = true
			s.events <- p
		}()
	}

	// A goroutine that does not stop again waits for another one: for a lock
	// that one holds for example.  To take a slow one for such a one does no
	// harm, it only runs at the same time as the next.
	var (
		running *schedProc
		last    *schedProc
	)

	left := len(fs)
	started := 0
	timer := time.NewTimer(time.Hour)

	for left > 0 {
		var waiting []*schedProc

		for _, p := range s.procs {
			if p.parked {
				waiting = append(waiting, p)
			}
		}

		var ev *schedProc

		switch {
		case started < len(fs):
			ev = <-s.events
			started++
			ev.parked = true

			continue
		case running == nil && len(waiting) > 0:
			running = choose(waiting, last)
			last = running
			running.parked = false
			running.resume <- struct{}{}

			continue
		case running != nil && len(waiting) > 0:
			timer.Reset(200 * time.Microsecond)
			select {
			case ev = <-s.events:
			case <-timer.C:
				running = nil // blocked

				continue
			}
		default:
			timer.Reset(h.Deadline)
			select {
			case ev = <-s.events:
			case <-timer.C:
				if !h.Steady() {
					h.Die("the machine is too slow to tell a hang")
				}

				select {
				case ev = <-s.events:
				default:
					return &h.ErrHang{Stack: h.Stacks()}
				}
			}
		}

		if ev == running {
			running = nil
		}

		if ev.done {
			left--
		} else {
			ev.parked = true
		}
	}

	for _, p := range s.procs {
		if p.err != nil {
			return fmt.Errorf("goroutine %d: %w", p.n, p.err)
		}
	}

	return nil
}

func firstOf(waiting []*schedProc, better func(a, b *schedProc) bool) *schedProc {
	o := waiting[0]
	for _, p := range waiting[1:] {
		if better(p, o) {
			o = p
		}
	}

	return o
}

// preempting runs goroutines in the order of their ranks, each to its end, but
// changes over to the next one at some steps.
func preempting(rank []int, at map[int]bool) policy {
	rank = append([]int(nil), rank...)
	step, low := 0, len(rank)

	return func(waiting []*schedProc, _ *schedProc) *schedProc {
		less := func(a, b *schedProc) bool { return rank[a.n] < rank[b.n] }
		p := firstOf(waiting, less)
		step++

		if at[step] && len(waiting) > 1 {
			low++
			rank[p.n] = low
			p = firstOf(waiting, less)
		}

		return p
	}
}

// wandering changes over with a probability of one in n.
func wandering(rng *rand.Rand, n int) policy {
	return func(waiting []*schedProc, last *schedProc) *schedProc {
		if last != nil && last.parked && rng.Intn(n) != 0 {
			return last
		}

		return waiting[rng.Intn(len(waiting))]
	}
}

// first runs goroutines one after the other to the end of their first phase.
func firstPhase(then policy) policy {
	return func(waiting []*schedProc, last *schedProc) *schedProc {
		var early []*schedProc

		for _, p := range waiting {
			if p.phase == 0 {
				early = append(early, p)
			}
		}

		if len(early) > 0 {
			return early[0]
		}

		return then(waiting, last)
	}
}
