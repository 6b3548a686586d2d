package main

import (
	"fmt"
	"maps"
	"runtime"
)

// Long use: a cycle of steps that leaves everything as it was is carried out over and over. Neither the work of a
// step nor the memory in use may grow.

const (
	warmSteps = 4        // cycles after which the work of a step counts as normal
	warmHeap  = 60       // cycles after which whatever is kept for good should be in place
	heapDoubt = 4 << 10  // growth that calls for many more cycles
	heapSlack = 40 << 10 // growth that is none of the simulator's
	moreSteps = 5
)

// shape is what has to be the same at the end of every cycle.
func (s *Spec) shape() string {
	n := 0
	for i := range s.Elems {
		n += len(s.Elems[i].Loads)
	}
	return fmt.Sprint(len(s.Nodes), len(s.Elems), len(s.Dir), len(s.Nodal), len(s.Links), n)
}

func heapInUse() uint64 {
	var m runtime.MemStats
	for range 3 {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func (r *Run) runCycles(out *Outcome) {
	plan := r.plan
	w := newWorld(r, 0)
	r.worlds = append(r.worlds, w)
	r.main = true
	r.phase(1, SchedPlan{Mode: "seed", Style: "serial"}, out, func() { w.cycles(&plan.Tasks[0]) })
	r.main = false
}

func (w *World) cycles(t *TaskPlan) {
	r := w.run
	r.sched.noEvents = true
	for _, p := range t.Probs {
		if !w.create(p) {
			return
		}
	}
	long := len(w.probs)
	shape := func() (l string) {
		for _, p := range w.probs {
			l += p.spec.shape() + ";"
		}
		return l
	}
	start := shape()
	normal := make([]int, len(t.Ops))
	var heap uint64
	end := r.plan.Repeat
	// Whether there are more cycles depends on the memory in use. They are left out of everything that tells how the
	// run went, for it to be repeatable.
	more := func() {}
	defer func() { more() }()
	for c := 0; c < end; c++ {
		w.n = 0
		r.sched.limit = r.sched.total + stepCap
		for k := range t.Ops {
			op := &t.Ops[k]
			before := r.sched.total
			if op.K == "fresh" {
				// A problem of its own, used once.
				ref := t.Probs[op.P%long]
				if op.Slot < len(r.plan.Specs) {
					ref.Spec = op.Slot
				}
				if op.Kind == "doc" {
					ref.How, ref.Seams, ref.Seed = "doc", false, op.Seed|1
				}
				if w.create(ref) {
					w.exec(&Op{K: "solve", P: len(w.probs) - 1, Slot: 1, Res: op.Res, Strat: op.Strat, Mask: 31, Seed: op.Seed})
					w.probs = w.probs[:long]
				}
			} else {
				w.exec(op)
				if op.K == "rmload" && op.P < long {
					delete(w.probs[op.P].b.Loads, op.Load.Handle)
				}
			}
			used := r.sched.total - before
			switch {
			case c <= warmSteps:
				normal[k] = max(normal[k], used)
			case used > normal[k]+normal[k]/4+60:
				r.viol("more-work", "%v: takes more and more work: first %v steps, in cycle %v already %v", w.at(op), normal[k], c, used)
				return
			}
		}
		clear(w.results)
		w.results = w.results[:0]
		clear(w.probs[long:cap(w.probs)])
		if shape() != start {
			r.count("cycle not closed")
			return
		}
		if len(r.v) > 0 || len(r.intern) > 0 {
			return
		}
		if c == r.plan.Repeat-1 {
			r.count("cycles closed")
		}
		if end <= warmHeap || len(r.sched.tasks) > 1 {
			continue
		}
		switch {
		case c == warmHeap:
			heap = heapInUse()
		case c == end-1:
			is := heapInUse()
			if *heapDebug {
				fmt.Println("heap", int64(is)-int64(heap), c)
			}
			if is > heap+heapSlack {
				r.viol("more-memory", "memory in use grows from cycle to cycle and does not stop")
				return
			}
			if is > heap+heapDoubt && end == r.plan.Repeat {
				end *= moreSteps
				dig, stats, fault, total, hash, perms, count := r.dig, maps.Clone(r.stats), maps.Clone(r.fault), r.sched.total, r.sched.hash, r.sched.permHash, r.sched.permCnt
				more = func() {
					r.dig, r.stats, r.fault = dig, stats, fault
					r.sched.total, r.sched.hash, r.sched.permHash, r.sched.permCnt = total, hash, perms, count
				}
			}
		}
	}
}

// genCycles is C19.
func genCycles(r *Rng) *Plan {
	plan := &Plan{Scenario: "long use", Repeat: pick(r, 260, 260, 400)}
	h := newHgen(r, "C19")
	n := pick(r, 1, 1, 2)
	for i := 0; i < n; i++ {
		ref := ProbRef{Spec: i, How: "api", Seams: r.P(0.6)}
		s := genSpec(r, GenOpts{JSON: true, MaxElems: pick(r, 1, 1, 2, 3), WantLink: r.P(0.4), WantHinge: r.P(0.4), WantSettle: r.P(0.4)})
		plan.Specs = append(plan.Specs, s)
		h.addProblem(s, ref)
	}
	plan.Perm = PermPlan{Mode: pick(r, "sorted", "reversed")}

	var undo [][]Op
	back := func() {
		for k := len(undo) - 1; k >= 0; k-- {
			h.ops = append(h.ops, undo[k]...)
			for i := range undo[k] {
				apply(h.specs[undo[k][i].P], &undo[k][i])
			}
		}
		undo = nil
	}
	for i := r.In(3, 9); i > 0; i-- {
		p := r.N(n)
		s := h.spec(p)
		switch r.N(14) {
		case 0, 1, 2:
			lay := 0
			if len(h.layouts) > 0 && r.P(0.4) {
				lay = 1
			}
			h.solve(p, lay, nil)
		case 3:
			h.solve(p, 0, h.fault(p))
		case 4:
			h.ops = append(h.ops, Op{K: "layout", P: p, Lay: 1})
			h.layouts[1] = s
		case 5:
			h.query()
		case 6, 7:
			e := s.Elems[r.N(len(s.Elems))].ID
			if h.addLoad(p, e) {
				l := h.ops[len(h.ops)-1].Load
				twice := r.N(3)
				for ; twice > 0; twice-- {
					h.try(Op{K: "addload", P: p, A: e, Load: l, Kind: "existing"})
				}
				undo = append(undo, []Op{{K: "rmload", P: p, A: e, Load: l}})
			}
		case 8:
			h.try(Op{K: "badload", P: p, A: s.Elems[0].ID, Kind: pick(r, "nil", "foreign", "string", "beyond", "far")})
		case 9:
			k := len(h.ops)
			was := s.clone()
			if u, _ := h.spoil(p); u != nil {
				nodes := false
				for _, o := range h.ops[k:] {
					nodes = nodes || o.Node != nil || o.K == "elem-"
				}
				if nodes {
					h.ops, h.specs[p] = h.ops[:k], was
					break
				}
				h.solve(p, 0, nil).Bad = true
				h.ops = append(h.ops, u...)
			}
		case 10:
			nv := genNodal(r, s, h.factor)
			if h.try(Op{K: "nodal+", P: p, NV: &nv}) {
				undo = append(undo, []Op{{K: "nodal-", P: p, NV: &nv}})
			}
		case 11:
			h.ops = append(h.ops, Op{K: "fresh", P: p, Slot: r.N(n), Kind: pick(r, "api", "doc"), Seed: r.U64(), Strat: pick(r, "plain", "lib")})
		case 12:
			h.parse(plan, refDamages)
		case 13:
			if len(s.Dir) > 0 {
				d := s.Dir[r.N(len(s.Dir))]
				v := genSettle(r, s, d.Dof)
				if h.try(Op{K: "dir=", P: p, NV: &d, V: v}) {
					c := d
					c.V = v
					undo = append(undo, []Op{{K: "dir=", P: p, NV: &c, V: d.V}})
				}
			}
		}
		if r.P(0.3) {
			back()
		}
	}
	back()
	h.solve(0, 0, nil)
	if r.P(0.5) {
		h.query()
	}
	plan.Tasks = []TaskPlan{{Probs: h.refs, Ops: h.ops}}
	return plan
}
