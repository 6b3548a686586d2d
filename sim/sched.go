package main

import (
	"fmt"
	"runtime/debug"

	"github.com/lubgr/deflect/verifrt"
)

// Switch is one scheduling decision: the task was at its given step when the other one took over.
// Step -1 stands for the end of the task, -2 for a task that could not go on.
type Switch struct {
	Task, Step, To int
}

// SchedPlan says how tasks are interleaved.
type SchedPlan struct {
	Mode   string  `json:"mode"` // seed or trace
	Seed   uint64  `json:"seed,omitempty"`
	Style  string  `json:"style,omitempty"` // random, burst, pct, alternate, window, meet, serial
	Rate   float64 `json:"rate,omitempty"`
	Points int     `json:"points,omitempty"`
	// Places in the code around which callers take turns, and how far around.
	At    []int    `json:"at,omitempty"`
	Wide  int      `json:"wide,omitempty"`
	Trace []Switch `json:"trace,omitempty"`
}

// PermPlan says in which order maps are visited.
type PermPlan struct {
	Mode   string         `json:"mode"` // sorted, reversed, seed
	Seed   uint64         `json:"seed,omitempty"`
	Only   map[int]bool   `json:"only,omitempty"` // if given, every other visit is in sorted order
	Events map[int]uint64 `json:"-"`
}

const stepCap = 30_000_000

type task struct {
	id        int
	resume    chan struct{}
	done      bool
	blocked   bool // waits for something another task must do
	blockedAt int
	stalled   bool // only continues after all others are through
	steps     int
	prio      int
	panicV    any
	stack     string
	perms     int
	child     bool
	owner     int
}

type hang struct{ why string }

// Sched runs tasks one at a time.
type Sched struct {
	plan       SchedPlan
	perm       PermPlan
	rng        *Rng
	tasks      []*task
	cur        *task
	total      int
	limit      int
	back       chan struct{}
	trace      []Switch
	want       map[[2]int]int
	dead       string
	burst      int
	changeAt   map[int]bool
	sites      map[int]int
	hash       uint64
	switches   int
	permCnt    int
	permBase   int
	permHash   uint64
	permEvents []int
	noEvents   bool
	abort      bool
	waited     bool // somebody had to wait for a stalled caller
	// Who is held where, how far others have yet to go, and how long they may take (style meet).
	held            *task
	heldAt          int
	ahead, patience int
	holds           map[int]int
	// Off when the code under test has synchronisation the scheduler can't see.
	uncontrolled bool
}

var active *Sched

func newSched(plan SchedPlan, perm PermPlan) *Sched {
	s := &Sched{plan: plan, perm: perm, rng: NewRng(plan.Seed, 77), back: make(chan struct{}),
		sites: map[int]int{}}
	s.want = map[[2]int]int{}
	for _, t := range plan.Trace {
		s.want[[2]int{t.Task, t.Step}] = t.To
	}
	s.changeAt = map[int]bool{}
	return s
}

// Run executes the functions as tasks, under the plan. It returns the panics of tasks.
func (s *Sched) Run(fns []func()) {
	active = s
	for i := range fns {
		s.spawn(fns[i], false)
	}
	if s.plan.Style == "pct" {
		p := s.rng.Perm(len(s.tasks))
		for i, t := range s.tasks {
			t.prio = 1000 + p[i]
		}
		est := 40000
		for i := 0; i < s.plan.Points; i++ {
			s.changeAt[s.rng.N(est)] = true
		}
	}
	if s.plan.Style == "burst" {
		s.burst = s.nextBurst()
	}

	verifrt.Reset()
	verifrt.OnYield = s.yield
	verifrt.OnPerm = s.onPerm
	verifrt.OnBlock = s.block
	verifrt.OnGo = func(f func()) bool {
		if s.uncontrolled {
			return false
		}
		s.spawn(f, true)
		s.point(-1)
		return true
	}
	if s.uncontrolled {
		verifrt.OnYield = nil
		verifrt.OnBlock = nil
	}

	first := s.choose(nil, -1)
	s.cur = first
	if first != nil {
		first.resume <- struct{}{}
		<-s.back
	}

	verifrt.OnYield, verifrt.OnPerm, verifrt.OnBlock, verifrt.OnGo = nil, nil, nil, nil
	active = nil
}

func (s *Sched) spawn(f func(), child bool) {
	t := &task{id: len(s.tasks), resume: make(chan struct{}), child: child}
	t.owner = t.id
	if child && s.cur != nil {
		t.owner = s.cur.owner
	}
	if s.plan.Style == "pct" && child {
		t.prio = 500 + s.rng.N(1000)
	}
	s.tasks = append(s.tasks, t)
	go func() {
		<-t.resume
		defer func() {
			if v := recover(); v != nil {
				t.panicV = v
				t.stack = string(debug.Stack())
				if h, ok := v.(hang); ok && s.dead == "" {
					s.dead = h.why
				}
			}
			t.done = true
			s.leave(t)
		}()
		if !s.abort {
			f()
		}
	}()
}

// leave hands over control after the end of t.
func (s *Sched) leave(t *task) {
	s.total++
	next := s.choose(t, -1)
	if next == nil {
		s.cur = nil
		s.back <- struct{}{}
		return
	}
	s.cur = next
	next.resume <- struct{}{}
}

func (s *Sched) runnable(except *task) []*task {
	var l []*task
	for _, t := range s.tasks {
		if !t.done && !t.stalled && t != except && (!t.blocked || s.total > t.blockedAt) {
			l = append(l, t)
		}
	}
	return l
}

// wake lets a stalled task go on once nobody else can.
func (s *Sched) wake() *task {
	for _, t := range s.tasks {
		if !t.done && t.stalled {
			t.stalled = false
			// Whoever waits for a part of its own work is not held up by anyone else.
			own := map[int]bool{t.owner: true}
			for _, o := range s.tasks {
				if !o.done && o.stalled {
					own[o.owner] = true
				}
			}
			for _, o := range s.tasks {
				if !o.child && !own[o.owner] && !o.done && o.blocked {
					s.waited = true
				}
			}
			return t
		}
	}
	return nil
}

func (s *Sched) choose(from *task, step int) *task {
	l := s.runnable(nil)
	if len(l) == 0 {
		if t := s.wake(); t != nil {
			l = append(l, t)
		}
	}
	if len(l) == 0 && s.callersDone() {
		// What is left are goroutines nobody waits for.
		return nil
	}
	if len(l) == 0 {
		for _, t := range s.tasks {
			if !t.done {
				// Everybody waits for somebody: let them find out one by one.
				if s.dead == "" {
					s.dead = "deadlock: no caller can go on"
				}
				s.abort = true
				t.blocked = false
				return t
			}
		}
		return nil
	}
	var next *task
	fromID := -1
	if from != nil {
		fromID = from.id
	}
	if s.plan.Mode == "trace" {
		next = l[0]
		if to, ok := s.want[[2]int{fromID, step}]; ok {
			for _, t := range l {
				if t.id == to {
					next = t
				}
			}
		}
	} else if s.plan.Style == "pct" {
		next = l[0]
		for _, t := range l {
			if t.prio > next.prio {
				next = t
			}
		}
	} else if s.plan.Style == "serial" {
		next = l[0]
	} else {
		next = l[s.rng.N(len(l))]
	}
	if len(s.tasks) > 1 {
		s.trace = append(s.trace, Switch{fromID, step, next.id})
	}
	return next
}

func (s *Sched) callersDone() bool {
	for _, t := range s.tasks {
		if !t.done && !t.child {
			return false
		}
	}
	return true
}

func (s *Sched) nextBurst() int {
	mean := []int{3, 30, 300, 3000}[s.rng.N(4)]
	return 1 + s.rng.N(2*mean)
}

func (s *Sched) yield(site int) {
	t := s.cur
	if t == nil {
		return
	}
	t.steps++
	s.total++
	if s.abort {
		panic(hang{s.dead})
	}
	if s.total > s.limit {
		s.dead = fmt.Sprintf("no progress: more than %v steps", s.limit)
		s.abort = true
		panic(hang{s.dead})
	}
	if len(s.tasks) == 1 {
		return
	}
	s.sites[site]++
	s.point(site)
}

// point is a scheduling point of the current task.
func (s *Sched) point(site int) {
	t := s.cur
	var to *task
	switch {
	case s.plan.Mode == "trace":
		id, ok := s.want[[2]int{t.id, t.steps}]
		if !ok || id == t.id || id >= len(s.tasks) {
			return
		}
		to = s.tasks[id]
		if to.done || to.stalled || to.blocked && s.total <= to.blockedAt {
			return
		}
	case s.plan.Style == "serial":
		return
	case s.plan.Style == "burst":
		s.burst--
		if s.burst > 0 {
			return
		}
		s.burst = s.nextBurst()
		l := s.runnable(t)
		if len(l) == 0 {
			return
		}
		to = l[s.rng.N(len(l))]
	case s.plan.Style == "window":
		rate := 0.002
		for _, x := range s.plan.At {
			if d := site - x; d >= 0 && d < s.plan.Wide {
				rate = s.plan.Rate
			}
		}
		if s.rng.F() >= rate {
			return
		}
		l := s.runnable(t)
		if len(l) == 0 {
			return
		}
		to = l[s.rng.N(len(l))]
	case s.plan.Style == "meet":
		if to = s.meet(t, site); to == nil {
			return
		}
	case s.plan.Style == "pct":
		if s.changeAt[s.total] {
			t.prio = 999 - s.switches
		}
		to = t
		for _, o := range s.runnable(t) {
			if o.prio > to.prio {
				to = o
			}
		}
		if to == t {
			return
		}
	case s.plan.Style == "alternate":
		if s.rng.F() >= s.plan.Rate {
			return
		}
		l := s.runnable(t)
		if len(l) == 0 {
			return
		}
		to = l[0]
		for _, o := range l {
			if o.id > t.id {
				to = o
				break
			}
		}
	default:
		if s.rng.F() >= s.plan.Rate {
			return
		}
		l := s.runnable(t)
		if len(l) == 0 {
			return
		}
		to = l[s.rng.N(len(l))]
	}
	s.switchTo(t, to, t.steps)
}

// meet holds a caller at some places until another one has come to the same place, and perhaps a bit further. It
// returns who is to go on, or nil for the current task.
func (s *Sched) meet(t *task, site int) *task {
	if s.holds == nil {
		s.holds = map[int]int{}
	}
	if _, ok := s.holds[site]; !ok {
		s.holds[site] = 0
		if s.rng.F() < s.plan.Rate {
			s.holds[site] = 1 + s.rng.N(4)
		}
	}
	if s.held == t {
		s.held = nil
	}
	if s.held != nil {
		s.patience--
		if site == s.heldAt && s.ahead < 0 {
			s.ahead = s.rng.N(1 + s.plan.Wide)
		}
		if s.ahead == 0 || s.patience <= 0 {
			to := s.held
			s.held = nil
			if !to.done && !to.blocked && !to.stalled {
				return to
			}
			return nil
		}
		if s.ahead > 0 {
			s.ahead--
		}
	}
	if l := s.runnable(t); len(l) > 0 {
		switch {
		case s.held == nil && s.holds[site] > 0:
			s.holds[site]--
			s.held, s.heldAt, s.ahead, s.patience = t, site, -1, 200<<s.rng.N(7)
			return l[s.rng.N(len(l))]
		case s.rng.F() < 0.001:
			return l[s.rng.N(len(l))]
		}
	}
	return nil
}

func (s *Sched) switchTo(t, to *task, step int) {
	s.trace = append(s.trace, Switch{t.id, step, to.id})
	s.hand(t, to)
}

func (s *Sched) hand(t, to *task) {
	step := t.steps
	s.switches++
	s.hash = mix(s.hash ^ uint64(t.id)<<48 ^ uint64(step)<<8 ^ uint64(to.id))
	s.cur = to
	to.resume <- struct{}{}
	<-t.resume
	if s.abort {
		panic(hang{s.dead})
	}
}

// block is called when the current task can't go on before another one has done something. It is
// tried again after any step of another task.
func (s *Sched) block() bool {
	t := s.cur
	if t == nil || s.uncontrolled {
		return false
	}
	if s.abort {
		panic(hang{s.dead})
	}
	t.steps++
	t.blocked, t.blockedAt = true, s.total
	to := s.choose(t, t.steps)
	if to == nil {
		// A goroutine nobody waits for, after the end of all callers: it stays where it is.
		s.cur = nil
		s.back <- struct{}{}
		select {}
	}
	if to == t {
		// Only happens when nobody can go on any more.
		t.blocked = false
		panic(hang{s.dead})
	}
	s.hand(t, to)
	t.blocked = false
	return true
}

// stall makes the current task wait until all others are through.
func (s *Sched) stall() {
	t := s.cur
	if t == nil || s.uncontrolled {
		return
	}
	t.steps++
	l := s.runnable(t)
	if len(l) == 0 {
		return
	}
	t.stalled = true
	to := l[0]
	if s.plan.Mode == "seed" && s.plan.Style != "serial" {
		to = l[s.rng.N(len(l))]
	} else if id, ok := s.want[[2]int{t.id, t.steps}]; ok {
		for _, o := range l {
			if o.id == id {
				to = o
			}
		}
	}
	s.switchTo(t, to, t.steps)
	t.stalled = false
}

func (s *Sched) onPerm(n int, swap func(i, j int)) {
	ev := s.permCnt
	if s.cur != nil {
		ev = s.permBase + s.cur.id*1_000_000 + s.cur.perms
		s.cur.perms++
	}
	s.permCnt++
	if n < 2 {
		return
	}
	if !s.noEvents {
		s.permEvents = append(s.permEvents, ev)
	}
	switch s.perm.Mode {
	case "reversed":
		if s.perm.Only != nil && !s.perm.Only[ev] {
			return
		}
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			swap(i, j)
		}
	case "seed":
		if s.perm.Only != nil && !s.perm.Only[ev] {
			return
		}
		r := NewRng(s.perm.Seed, uint64(ev))
		for i := n - 1; i > 0; i-- {
			j := r.N(i + 1)
			swap(i, j)
			s.permHash = mix(s.permHash ^ uint64(j))
		}
	}
}
