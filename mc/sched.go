package main

import (
	"fmt"
	"runtime/debug"

	"verif.local/mc/hook"
)

// sched runs threads one at a time. At every statement of the instrumented code the explorer chooses whether another
// thread goes on instead (a preemption, up to a bound); when a thread ends or blocks, it chooses which goes on.
type sched struct {
	x           *X
	perPoint    int
	threads     []*thread
	cur         int
	preemptions int
	aborted     bool
	failure     any
	steps       int64
	finished    chan struct{}
}

type thread struct {
	wake  chan struct{}
	done  bool
	ready func() bool
	count map[int]int
}

type abortThread struct{}

const maxSteps = 200000

// runThreads explores the schedules of fns with up to preemptions preemptions, each of them before one of the first
// perPoint executions of a statement by its thread
func runThreads(x *X, preemptions, perPoint int, fns ...func()) {
	s := &sched{x: x, perPoint: perPoint, preemptions: preemptions, finished: make(chan struct{})}
	for range fns {
		s.threads = append(s.threads, &thread{wake: make(chan struct{}, 1), count: map[int]int{}})
	}
	hook.Point = s.point
	hook.Block = s.block
	defer func() {
		hook.Point, hook.Block = nil, nil
	}()
	for i, fn := range fns {
		go s.thread(i, fn)
	}
	s.cur = x.Choose(len(fns))
	s.threads[s.cur].wake <- struct{}{}
	<-s.finished
	x.Count("statements", s.steps)
	if s.failure != nil {
		panic(s.failure)
	}
}

func (s *sched) thread(i int, fn func()) {
	t := s.threads[i]
	<-t.wake
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case abortThread:
			case failRun, skipRun, divergence:
				s.fail(v)
			default:
				s.fail(failRun{fmt.Sprintf("thread %d panics: %v\n%s", i, r, trimStack(string(debug.Stack())))})
			}
		}
		t.done = true
		s.next()
	}()
	if !s.aborted {
		fn()
	}
}

func (s *sched) fail(v any) {
	s.aborted = true
	if s.failure == nil {
		s.failure = v
	}
}

// others are the threads that could go on instead of the current one
func (s *sched) others() []int {
	var result []int
	for i, t := range s.threads {
		if i != s.cur && !t.done && (s.aborted || t.ready == nil || t.ready()) {
			result = append(result, i)
		}
	}
	return result
}

// next is called by a thread that ended
func (s *sched) next() {
	o := s.others()
	if len(o) == 0 {
		for _, t := range s.threads {
			if !t.done {
				s.fail(failRun{"deadlock: threads wait for each other"})
			}
		}
		if o = s.others(); len(o) == 0 {
			close(s.finished)
			return
		}
	}
	c := 0
	if !s.aborted {
		func() {
			defer func() {
				if r := recover(); r != nil {
					s.fail(r)
				}
			}()
			c = s.x.Choose(len(o))
		}()
	}
	s.cur = o[c]
	s.threads[s.cur].wake <- struct{}{}
}

func (s *sched) switchTo(i int) {
	t := s.threads[s.cur]
	s.cur = i
	s.threads[i].wake <- struct{}{}
	<-t.wake
	if s.aborted {
		panic(abortThread{})
	}
}

// choose stops all threads when the run is not to go on (what the code does with a panic does not matter)
func (s *sched) choose(n int, preempt bool) int {
	defer func() {
		if r := recover(); r != nil {
			s.fail(r)
			panic(abortThread{})
		}
	}()
	c := s.x.Choose(n)
	if preempt && c > 0 {
		// the schedules are shared out by their first preemption
		s.x.Ready()
	}
	return c
}

func (s *sched) point(id int) {
	if s.aborted {
		return
	}
	s.steps++
	if s.steps > maxSteps {
		s.fail(failRun{"does not terminate"})
		panic(abortThread{})
	}
	if s.preemptions == 0 {
		return
	}
	count := s.threads[s.cur].count
	if count[id] >= s.perPoint {
		return
	}
	count[id]++
	o := s.others()
	if len(o) == 0 {
		return
	}
	if c := s.choose(1+len(o), true); c > 0 {
		s.preemptions--
		s.switchTo(o[c-1])
	}
}

func (s *sched) block(ready func() bool) {
	if s.aborted {
		panic(abortThread{})
	}
	t := s.threads[s.cur]
	t.ready = ready
	o := s.others()
	if len(o) == 0 {
		s.fail(failRun{"deadlock: threads wait for each other"})
		panic(abortThread{})
	}
	s.switchTo(o[s.choose(len(o), false)])
	t.ready = nil
	if s.aborted {
		panic(abortThread{})
	}
}
