// Package vsched is a cooperative scheduler: of the goroutines it manages exactly one runs, and
// control passes from one to the next only at the scheduling points the plan names.
package vsched

import (
	"sync"
	"sync/atomic"
	"time"
)

var active atomic.Pointer[Sched]
var delays atomic.Pointer[Delays]

// Point is a scheduling point. It does nothing outside a managed goroutine.
func Point(id int) {
	if s := active.Load(); s != nil {
		s.point(id)
	}
	if d := delays.Load(); d != nil {
		d.point(id)
	}
}

// Delays holds back whichever goroutine passes the point with number ID for the time of its
// Visit-th visit, while all other goroutines go on.
type Delays struct {
	ID, Visit int
	Time      time.Duration

	mu     sync.Mutex
	visits map[int]int
}

// Start makes d effective in all goroutines of the process.
func (d *Delays) Start() {
	d.visits = map[int]int{}
	delays.Store(d)
}

// Stop ends the effect and tells how often each point was passed.
func (d *Delays) Stop() map[int]int {
	delays.Store(nil)
	d.mu.Lock()
	defer d.mu.Unlock()
	v := map[int]int{}
	for id, n := range d.visits {
		v[id] = n
	}
	return v
}

func (d *Delays) point(id int) {
	d.mu.Lock()
	d.visits[id]++
	hit := id == d.ID && d.visits[id] == d.Visit
	d.mu.Unlock()
	if hit {
		time.Sleep(d.Time)
	}
}

type thread struct {
	goid   uint64
	resume chan struct{}
	done   bool
	trace  []int
}

// Sched runs a set of functions.
type Sched struct {
	th    []*thread
	cur   int
	plan  []int
	slice int // points passed in the current time slice
	pos   int // slices used up

	Record  bool
	Blocked bool // a goroutine waited for a preempted one; the rest ran freely
	Stuck   bool // the functions did not end

	free     atomic.Bool
	progress atomic.Int64
	left     atomic.Int32
	finished chan struct{}
}

func (s *Sched) point(id int) {
	if s.free.Load() {
		return
	}
	g := goid()
	var t *thread
	for _, x := range s.th {
		if x.goid == g && !x.done {
			t = x
		}
	}
	if t == nil || s.th[s.cur] != t {
		return // a goroutine the code under test started
	}
	s.progress.Add(1)
	if s.Record {
		t.trace = append(t.trace, id)
	}
	if s.pos < len(s.plan) && s.slice == s.plan[s.pos] {
		s.pos++
		s.slice = 1 // this point belongs to the next slice of t
		if n := s.next(); n >= 0 {
			s.cur = n
			s.slice = 0
			s.th[n].resume <- struct{}{}
			<-t.resume
			s.slice++
		}
		return
	}
	s.slice++
}

func (s *Sched) next() int {
	for i := 1; i < len(s.th); i++ {
		if n := (s.cur + i) % len(s.th); !s.th[n].done {
			return n
		}
	}
	return -1
}

// Run executes the functions: the first one runs until it has passed plan[0] points, then the
// next one until it has passed plan[1], and so on round robin; after the plan, and whenever a
// function ends, the next unfinished function runs to its end.
func (s *Sched) Run(plan []int, fs ...func()) {
	s.plan = plan
	s.finished = make(chan struct{})
	s.left.Store(int32(len(fs)))
	ready := make(chan struct{})
	for i := range fs {
		t := &thread{resume: make(chan struct{}, 4)}
		s.th = append(s.th, t)
		f := fs[i]
		go func() {
			t.goid = goid()
			ready <- struct{}{}
			<-t.resume
			defer func() {
				t.done = true
				s.progress.Add(1)
				if s.left.Add(-1) == 0 {
					close(s.finished)
					return
				}
				if s.free.Load() {
					return
				}
				if s.pos < len(s.plan) {
					s.pos++
				}
				if n := s.next(); n >= 0 {
					s.cur, s.slice = n, 0
					s.th[n].resume <- struct{}{}
				}
			}()
			f()
		}()
	}
	for range fs {
		<-ready
	}
	active.Store(s)
	s.th[0].resume <- struct{}{}
	last, idle := int64(-1), 0
	for {
		select {
		case <-s.finished:
			active.Store(nil)
			return
		case <-time.After(25 * time.Millisecond):
		}
		if p := s.progress.Load(); p != last {
			last, idle = p, 0
			continue
		}
		idle++
		if idle == 12 && !s.free.Load() { // nothing moved for 300 ms: the running goroutine waits for a preempted one
			s.Blocked = true
			s.free.Store(true)
			for _, t := range s.th {
				t.resume <- struct{}{}
			}
		}
		if idle > 12+40*20 {
			s.Stuck = true
			return
		}
	}
}

// Trace lists the points function i passed.
func (s *Sched) Trace(i int) []int { return s.th[i].trace }
