package main

import (
	"sync"
	"time"
)

// minimiser makes a failing run smaller while the same class of violation remains.
type minimiser struct {
	d       *driver
	class   string
	plan    *Plan
	prelude []*Plan
	until   time.Time
}

func (m *minimiser) fails(p *Plan) bool {
	if time.Now().After(m.until) {
		return false
	}
	o, err := m.d.one(append(append([]*Plan{}, m.prelude...), p), false)
	return err == nil && has(o, m.class)
}

// first returns the first candidate that still fails; candidates are tried in parallel.
func (m *minimiser) first(c []*Plan) *Plan {
	const width = 8
	for len(c) > 0 {
		n := min(width, len(c))
		res := make([]bool, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); res[i] = m.fails(c[i]) }()
		}
		wg.Wait()
		for i := range res {
			if res[i] {
				return c[i]
			}
		}
		c = c[n:]
		if time.Now().After(m.until) {
			return nil
		}
	}
	return nil
}

// list makes a list smaller: with(keep) builds the plan with only these entries.
func (m *minimiser) list(n int, with func(keep []int) *Plan) {
	keep := make([]int, n)
	for i := range keep {
		keep[i] = i
	}
	for size := (n + 1) / 2; size >= 1; {
		var cands []*Plan
		var keeps [][]int
		for a := 0; a < len(keep); a += size {
			k := append(append([]int{}, keep[:a]...), keep[min(len(keep), a+size):]...)
			if p := with(k); p != nil {
				cands = append(cands, p)
				keeps = append(keeps, k)
			}
		}
		got := m.first(cands)
		if got != nil {
			for i := range cands {
				if cands[i] == got {
					keep = keeps[i]
				}
			}
			m.plan = got
			if size > len(keep) {
				size = max(1, len(keep)/2)
			}
			continue
		}
		if size == 1 {
			break
		}
		size /= 2
	}
}

func sub[T any](l []T, keep []int) []T {
	var r []T
	for _, i := range keep {
		r = append(r, l[i])
	}
	return r
}

func (m *minimiser) run() {
	// Less before, in the same process.
	if len(m.prelude) > 0 {
		all := m.prelude
		keep := make([]int, len(all))
		for i := range keep {
			keep[i] = i
		}
		for size := (len(keep) + 1) / 2; size >= 1; {
			done := false
			for a := 0; a < len(keep); a += size {
				k := append(append([]int{}, keep[:a]...), keep[min(len(keep), a+size):]...)
				m.prelude = sub(all, k)
				if m.fails(m.plan) {
					keep, done = k, true
					break
				}
			}
			m.prelude = sub(all, keep)
			if !done {
				if size == 1 {
					break
				}
				size /= 2
			}
		}
	}

	for round := 0; round < 2; round++ {
		before := m.plan
		p := m.plan
		if len(p.Tasks) > 1 {
			m.list(len(p.Tasks), func(k []int) *Plan {
				if len(k) == 0 {
					return nil
				}
				c := p.clone()
				c.Tasks = sub(c.Tasks, k)
				return c
			})
		}
		for t := range m.plan.Tasks {
			p := m.plan
			m.list(len(p.Tasks[t].Ops), func(k []int) *Plan {
				c := p.clone()
				c.Tasks[t].Ops = sub(c.Tasks[t].Ops, k)
				return c
			})
		}
		if p := m.plan; len(p.Damage) > 1 {
			m.list(len(p.Damage), func(k []int) *Plan { c := p.clone(); c.Damage = sub(c.Damage, k); return c })
		}
		if p := m.plan; len(p.Variants) > 2 {
			m.list(len(p.Variants), func(k []int) *Plan {
				if len(k) < 2 {
					return nil
				}
				c := p.clone()
				c.Variants = sub(c.Variants, k)
				return c
			})
		}
		for i := range m.plan.Specs {
			m.spec(func(p *Plan) *Spec { return p.Specs[i] })
		}
		for i := range m.plan.Cases {
			m.spec(func(p *Plan) *Spec { return p.Cases[i] })
		}
		m.simple()
		if m.plan == before {
			break
		}
	}
	m.orders()
	m.schedule()
}

// spec leaves out loads, supports, hinges and members.
func (m *minimiser) spec(get func(*Plan) *Spec) {
	ok := func(c *Plan) *Plan {
		if s := get(c); solveRef(s.clone()).OK {
			return c
		}
		return nil
	}
	p := m.plan
	m.list(len(get(p).Elems), func(k []int) *Plan {
		if len(k) == 0 {
			return nil
		}
		c := p.clone()
		s := get(c)
		s.Elems = sub(s.Elems, k)
		used := s.used()
		nodes := map[string]bool{}
		for i := range used {
			nodes[i.NodalID] = true
		}
		s.Nodes = filter(s.Nodes, func(n NodeSpec) bool { return nodes[n.ID] })
		s.Dir = filter(s.Dir, func(n NVal) bool { return used[n.index()] })
		s.Nodal = filter(s.Nodal, func(n NVal) bool { return used[n.index()] })
		s.Links = filter(s.Links, func(l LinkSpec) bool { return nodes[l.Node] })
		return ok(c)
	})
	p = m.plan
	m.list(len(get(p).Nodal), func(k []int) *Plan { c := p.clone(); get(c).Nodal = sub(get(c).Nodal, k); return ok(c) })
	for e := range get(m.plan).Elems {
		p := m.plan
		m.list(len(get(p).Elems[e].Loads), func(k []int) *Plan {
			c := p.clone()
			get(c).Elems[e].Loads = sub(get(c).Elems[e].Loads, k)
			return ok(c)
		})
		p = m.plan
		m.list(len(get(p).Elems[e].Hinges), func(k []int) *Plan {
			c := p.clone()
			get(c).Elems[e].Hinges = sub(get(c).Elems[e].Hinges, k)
			return ok(c)
		})
	}
	p = m.plan
	m.list(len(get(p).Links), func(k []int) *Plan { c := p.clone(); get(c).Links = sub(get(c).Links, k); return ok(c) })
	p = m.plan
	m.list(len(get(p).Dir), func(k []int) *Plan { c := p.clone(); get(c).Dir = sub(get(c).Dir, k); return ok(c) })
}

func filter[T any](l []T, f func(T) bool) []T {
	var r []T
	for _, x := range l {
		if f(x) {
			r = append(r, x)
		}
	}
	return r
}

// simple replaces things by simpler ones.
func (m *minimiser) simple() {
	try := func(f func(p *Plan) bool) {
		c := m.plan.clone()
		if f(c) {
			if got := m.first([]*Plan{c}); got != nil {
				m.plan = got
			}
		}
	}
	for t := range m.plan.Tasks {
		for k := range m.plan.Tasks[t].Probs {
			try(func(p *Plan) bool { x := &p.Tasks[t].Probs[k]; y := x.Seams; x.Seams = false; return y })
			try(func(p *Plan) bool { x := &p.Tasks[t].Probs[k]; y := x.Wipe; x.Wipe = false; return y })
		}
	}
	for i := range m.plan.Specs {
		for k := range m.plan.Specs[i].Dir {
			try(func(p *Plan) bool { x := &p.Specs[i].Dir[k]; y := x.V; x.V = 0; return y != 0 })
		}
	}
}

// orders finds the map visits that matter.
func (m *minimiser) orders() {
	c := m.plan.clone()
	c.Perm = PermPlan{Mode: "sorted"}
	if m.plan.Perm.Mode != "sorted" {
		if m.fails(c) {
			m.plan = c
			return
		}
		o, err := m.d.one(append(append([]*Plan{}, m.prelude...), m.plan), true)
		if err == nil && len(o.PermEvents) < 4000 && len(m.plan.Variants) == 0 {
			p, ev := m.plan, o.PermEvents
			m.list(len(ev), func(k []int) *Plan {
				c := p.clone()
				c.Perm.Only = map[int]bool{-1: true}
				for _, i := range k {
					c.Perm.Only[ev[i]] = true
				}
				return c
			})
		}
	}
	for i := range m.plan.Variants {
		c := m.plan.clone()
		if c.Variants[i].Perm.Mode != "sorted" {
			c.Variants[i].Perm = PermPlan{Mode: "sorted"}
			if m.fails(c) {
				m.plan = c
			}
		}
		c = m.plan.clone()
		if c.Variants[i].Seed != 0 {
			c.Variants[i].Seed = 0
			if m.fails(c) {
				m.plan = c
			}
		}
	}
}

// schedule finds the switches between callers that matter.
func (m *minimiser) schedule() {
	if len(m.plan.Tasks) < 2 {
		return
	}
	c := m.plan.clone()
	c.Sched = SchedPlan{Mode: "seed", Style: "serial"}
	if m.fails(c) {
		m.plan = c
		return
	}
	o, err := m.d.one(append(append([]*Plan{}, m.prelude...), m.plan), true)
	if err != nil || !has(o, m.class) {
		return
	}
	c = m.plan.clone()
	c.Sched = SchedPlan{Mode: "trace", Trace: o.Trace}
	if !m.fails(c) {
		return
	}
	m.plan = c
	p := m.plan
	m.list(len(p.Sched.Trace), func(k []int) *Plan {
		c := p.clone()
		c.Sched.Trace = sub(c.Sched.Trace, k)
		return c
	})
}
