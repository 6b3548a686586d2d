package main

import (
	"bytes"
	"slices"

	df "github.com/lubgr/deflect/deflect"
)

// text is a document callers share; it is the same bytes for all of them.
func (r *Run) text(spec int, seed uint64) []byte {
	k := [2]uint64{uint64(spec), seed}
	if t, ok := r.live[k]; ok {
		return t
	}
	g := NewRng(seed, 5)
	j := document(r.plan.Specs[spec], g)
	if g.P(0.5) {
		j.shuffle(g)
	}
	t := j.bytes(g.P(0.5))
	r.live[k] = t
	r.texts[k] = bytes.Clone(t)
	return t
}

// phase runs functions as concurrent tasks and collects what the scheduler saw.
func (r *Run) phase(n int, plan SchedPlan, out *Outcome, fns ...func()) {
	s := newSched(plan, r.plan.Perm)
	s.permBase = n * 100_000_000
	s.uncontrolled = uncontrolled
	s.limit = stepCap
	for _, t := range r.plan.Tasks {
		s.limit += stepCap / 150 * len(t.Ops) // for histories of thousands of operations
	}
	if slices.ContainsFunc(r.plan.Specs, func(x *Spec) bool { return len(x.Nodes) > 20 }) {
		s.limit = 40 * stepCap // work per solve grows with the third power of the size
	}
	r.sched = s
	s.Run(fns)
	out.Steps += s.total
	out.Switches += s.switches
	out.Perms += s.permCnt
	if len(fns) > 1 {
		out.Trace = s.trace
		out.Sites = len(s.sites)
	}
	out.PermEvents = append(out.PermEvents, s.permEvents...)
	out.Hash = mix(out.Hash ^ s.hash ^ s.permHash)
	r.note(uint64(s.total))
	r.note(s.hash)
	if s.dead != "" {
		r.viol("hang", "%v", s.dead)
	}
	if s.waited {
		r.stalled = true
	}
	for _, t := range s.tasks {
		if t.panicV == nil {
			continue
		}
		if _, ok := t.panicV.(hang); ok {
			continue
		}
		if t.child {
			// A goroutine the library started itself: this ends the program.
			r.viol("panic", "a goroutine started by the library panics in %v: %v", where(t.stack), t.panicV)
			continue
		}
		r.panicked(t.stack, "caller %v panics in %v: %v", t.id, where(t.stack), t.panicV)
	}
	r.sched = nil
}

// uncontrolled is set when the code under test uses synchronisation the simulator has no seam for:
// callers then run one after the other.
var uncontrolled bool

// runPlan carries out one run.
func runPlan(plan *Plan) *Outcome {
	out := &Outcome{}
	r := &Run{plan: plan, stats: map[string]int{}, fault: map[string]int{}, refs: map[string]*Ref{},
		shared: map[int]*Prob{}, parts: map[int]*Built{}, layouts: map[int]*LayoutSlot{},
		texts: map[[2]uint64][]byte{}, live: map[[2]uint64][]byte{}}
	one := SchedPlan{Mode: "seed", Style: "serial"}

	switch plan.Prop {
	case "C01", "C07", "C14":
		w := newWorld(r, 0)
		r.phase(0, one, out, func() { r.runDocs(w) })
	case "C19":
		r.runCycles(out)
	default:
		r.runTasks(out, one)
	}

	out.Viols = r.v
	out.Stats, out.Faults = r.stats, r.fault
	for i := range r.v {
		r.noteS(r.v[i].Class)
	}
	out.Digest = r.dig
	out.Internal = r.intern
	out.Nontrivial = nontrivial(plan.Prop, out)
	return out
}

func (r *Run) runTasks(out *Outcome, one SchedPlan) {
	plan := r.plan
	boss := newWorld(r, -1)

	// What the callers have in common.
	r.phase(0, one, out, func() {
		for _, t := range plan.Tasks {
			for _, p := range t.Probs {
				if p.Share == 0 {
					continue
				}
				spec := plan.Specs[p.Spec]
				op := &Op{K: "prepare"}
				if p.How == "shared" && r.shared[p.Share] == nil {
					pr := &Prob{spec: spec.clone()}
					o := BuildOpts{}
					if p.Seams {
						o.Ctl = r.ctl
					}
					if p.From == "doc" {
						var prob df.Problem
						var err error
						if !boss.try(op, "ProblemFromJSON", func() { prob, err = df.ProblemFromJSON(r.text(p.Spec, p.Seed)) }) {
							return
						}
						if err != nil {
							r.viol("refused", "shared document refused: %v", err)
							return
						}
						if pr.b = adopt(&prob, pr.spec); pr.b == nil {
							r.count("turned down")
							return
						}
					} else if !boss.try(op, "building the shared problem", func() { pr.b = build(pr.spec, o) }) {
						return
					}
					pr.note = prints(pr.b.P)
					r.shared[p.Share] = pr
				}
				if p.How == "api" && r.parts[p.Share] == nil {
					o := BuildOpts{}
					if p.Seams {
						o.Ctl = r.ctl
					}
					boss.try(op, "building shared parts", func() {
						b := build(spec, o)
						b.prepareHinges(spec)
						r.parts[p.Share] = b
					})
				}
			}
		}
		if pr := r.shared[1]; pr != nil && plan.Results > 0 {
			// Results made by somebody.
			g := NewRng(plan.Seed2, 13)
			boss.probs = []*Prob{pr}
			for i := 1; i <= plan.Results; i++ {
				boss.exec(&Op{K: "solve", Res: i, Slot: g.N(2), Mask: pick(g, 32, 32, 31, 12), Seed: g.U64(), Strat: pick(g, "plain", "lib", "lu")})
			}
		}
		if plan.Layout {
			// An index layout made by somebody from an equal problem.
			boss.try(&Op{K: "prepare"}, "the shared layout", func() {
				b := build(plan.Specs[0], BuildOpts{})
				lay, err := df.NewEqLayout(b.P)
				if err != nil {
					if r.checks("refused") {
						r.viol("refused", "layout of a well-posed problem refused: %v", err)
					}
					return
				}
				r.layouts[1] = &LayoutSlot{lay, plan.Specs[0].clone()}
			})
		}
	})

	var fns []func()
	for i := range plan.Tasks {
		w := newWorld(r, i)
		w.results = slices.Clone(boss.results)
		r.worlds = append(r.worlds, w)
		t := &plan.Tasks[i]
		fns = append(fns, func() {
			for _, p := range t.Probs {
				if p.Share > 0 && (p.How == "shared" && r.shared[p.Share] == nil || p.How == "api" && r.parts[p.Share] == nil) {
					return
				}
				if !w.create(p) {
					return
				}
			}
			for k := range t.Ops {
				if t.Ops[k].Off {
					w.n++
					continue
				}
				w.exec(&t.Ops[k])
			}
		})
	}
	r.main = true
	if len(fns) > 0 {
		r.phase(1, plan.Sched, out, fns...)
	}
	r.main = false
	if plan.Prop == "C02" && r.stalled {
		r.viol("blocked", "a caller could not go on while another one was stalled")
	}
	if plan.Prop == "C12" {
		for _, w := range r.worlds {
			w.superposition()
		}
	}

	// Afterwards.
	if len(r.shared) > 0 {
		r.phase(2, one, out, func() {
			for _, k := range sortedKeys(r.shared) {
				p := r.shared[k]
				if r.checks("intact") && p.note != prints(p.b.P) {
					r.viol("problem-changed", "the lists of the shared problem are not what they were")
				}
				boss.probs = []*Prob{p}
				boss.exec(&Op{K: "solve", Res: 1, Strat: "plain"})
			}
		})
	}
	if r.checks("immut") && !plan.NoMore {
		for _, w := range r.worlds {
			if len(w.results) > 0 && len(plan.Tasks) > 1 {
				r.phase(3, one, out, func() { w.exec(&Op{K: "look", Mask: 31, Seed: 5}) })
			}
		}
	}
}

// genPlan makes the run with the given number.
func genPlan(prop string, seed uint64, run int, thorough bool) *Plan {
	r := NewRng(seed, strHash(prop), uint64(run))
	var plan *Plan
	long := thorough && r.P(0.4) || r.P(0.15)
	switch prop {
	case "C01":
		plan = genOrder(r)
	case "C02":
		plan = genCallers(r, long)
	case "C03":
		plan = genSharing(r, long)
	case "C07":
		plan = genDamaged(r)
	case "C12":
		plan = genCases(r)
	case "C14":
		plan = genRecords(r)
	case "C19":
		plan = genCycles(r)
	case "C05":
		if r.P(0.15) {
			plan = genResultSharing(r, long)
		} else {
			plan = genHistory(r, prop, long)
		}
	case "C09":
		if r.P(0.25) {
			plan = genLayoutSharing(r)
		} else {
			plan = genHistory(r, prop, long)
		}
	default:
		plan = genHistory(r, prop, long)
	}
	plan.Prop, plan.Seed, plan.Run = prop, seed, run
	plan.Sched = genSched(r, len(plan.Tasks))
	if plan.Perm.Mode == "" {
		plan.Perm = PermPlan{Mode: pick(r, "sorted", "seed", "seed", "seed", "reversed"), Seed: r.U64()}
	}
	return plan
}

func genSched(r *Rng, tasks int) SchedPlan {
	if tasks < 2 {
		return SchedPlan{Mode: "seed", Style: "serial"}
	}
	s := SchedPlan{Mode: "seed", Seed: r.U64(), Style: pick(r, "random", "random", "burst", "burst", "pct", "pct", "alternate", "window", "meet", "meet", "meet", "meet")}
	s.Rate = pick(r, 0.5, 0.1, 0.02, 0.004)
	s.Points = pick(r, 1, 2, 3, 6, 20)
	if s.Style == "meet" {
		s.Rate = pick(r, 0.01, 0.05, 0.2)
		s.Wide = pick(r, 0, 2, 8, 40)
	}
	if s.Style == "window" {
		s.Rate = pick(r, 1, 0.5, 0.2)
		s.Wide = pick(r, 1, 3, 10, 30)
		for range pick(r, 1, 3, 6) {
			s.At = append(s.At, r.N(max(1, instrumented.Yields)))
		}
	}
	return s
}

// genMany makes a crowd of callers, or a few with very many rounds, once in a while. It returns the number of
// rounds at most (0: as usual) and the number of members at most.
func genMany(r *Rng, callers *int) (rounds, members int) {
	switch {
	case r.P(0.003):
		*callers = r.In(6, 20)
		return 3, 2
	case r.P(0.002):
		*callers = r.In(1, 3)
		return pick(r, 30, 100), 2
	}
	return 0, 8
}

// genCallers is C02: callers with problems of their own.
func genCallers(r *Rng, long bool) *Plan {
	if r.P(0.2) {
		return genReaders(r, long)
	}
	plan := &Plan{Scenario: "callers"}
	nt := pick(r, 2, 2, 2, 3, 4, 5)
	many, most := genMany(r, &nt)
	same := r.P(0.5) // all have the same structure
	readers := r.P(0.3)
	var base *Spec
	shareParts := r.P(0.4)
	for t := 0; t < nt; t++ {
		h := newHgen(r, "C02")
		h.handle = firstHandle * (t + 1)
		np := pick(r, 1, 1, 1, 2)
		for k := 0; k < np; k++ {
			ref := ProbRef{How: "api", Seams: r.P(0.5), Wipe: r.P(0.3)}
			o := GenOpts{MaxElems: min(most, pick(r, 1, 2, 3, 5)), WantLink: r.P(0.3), WantHinge: r.P(0.3)}
			if r.P(0.25) {
				ref.How, ref.Seams = "doc", false
				o.JSON = true
				ref.Seed = r.U64() | 1
			}
			var s *Spec
			if base != nil && same {
				s = base
				ref.Spec = 0
				if ref.How == "doc" {
					if plan.docOK(0) {
						ref.Seed = 7 // the very same text
					} else {
						ref.How = "api"
						ref.Seed = 0
					}
				}
				if shareParts && ref.How == "api" {
					ref.Share = 1
				}
			} else {
				o.JSON = o.JSON || base == nil && same && r.P(0.5)
				if base != nil && r.P(0.5) {
					s = sibling(r, base, o.JSON) // the same paths with different values
				}
				if s == nil {
					s = genSpec(r, o)
				}
				plan.Specs = append(plan.Specs, s)
				ref.Spec = len(plan.Specs) - 1
				if base == nil {
					base = s
					if same && shareParts && ref.How == "api" {
						ref.Share = 1
					}
				}
			}
			h.addProblem(s, ref)
		}
		rounds := r.In(1, 3)
		if long {
			rounds = r.In(2, 6)
		}
		if many > 0 {
			rounds = r.In(1, many)
		}
		for i := 0; i < rounds; i++ {
			p := r.N(np)
			if readers && r.P(0.7) {
				for k := r.In(1, 3); k > 0; k-- {
					h.parse(plan, refDamages)
				}
				if r.P(0.5) {
					continue
				}
			}
			if r.P(0.5) {
				for k := r.In(1, 3); k > 0; k-- {
					h.edit(p)
				}
			}
			if r.P(0.2) {
				h.solve(p, 0, h.callerFault(p))
			}
			if r.P(0.15) {
				h.solve(p, 0, h.stall(p))
			}
			op := h.solve(p, 0, nil)
			if r.P(0.2) {
				op.Mask = 0
			}
			if r.P(0.2) {
				h.query()
			}
		}
		plan.Tasks = append(plan.Tasks, TaskPlan{Probs: h.refs, Ops: h.ops})
	}
	return plan
}

// genReaders is C02 with callers that read documents and little else: some are in order, others are not.
func genReaders(r *Rng, long bool) *Plan {
	plan := &Plan{Scenario: "readers"}
	for k := pick(r, 1, 1, 2); k > 0; k-- {
		plan.Specs = append(plan.Specs, genSpec(r, GenOpts{JSON: true, MaxElems: pick(r, 1, 2, 3, 5), WantHinge: r.P(0.6), WantLink: r.P(0.5)}))
	}
	// A few kinds of mistakes only, made again and again.
	kinds := []string{"hinge-dof", refDamages[r.N(len(refDamages))]}
	if r.P(0.3) {
		kinds = refDamages
	}
	nt := pick(r, 2, 2, 3, 4)
	for t := 0; t < nt; t++ {
		h := newHgen(r, "C02")
		n := r.In(1, 4)
		if long {
			n = r.In(3, 8)
		}
		for ; n > 0; n-- {
			h.parse(plan, kinds)
		}
		plan.Tasks = append(plan.Tasks, TaskPlan{Ops: h.ops})
	}
	return plan
}

// parse reads a document, sometimes one that has to be refused.
func (h *hgen) parse(plan *Plan, kinds []string) {
	r := h.r
	k := r.N(len(plan.Specs))
	if !plan.docOK(k) {
		return
	}
	op := Op{K: "parse", Slot: k, Seed: r.U64()}
	if r.P(0.4) {
		for try := 0; try < 10; try++ {
			d := Damage{Kind: kinds[r.N(len(kinds))], At: r.F(), Seed: r.U64()}
			if _, ok := textOf(plan.Specs[k], op.Seed, []Damage{d}); ok {
				op.Dmg = &d
				break
			}
		}
	}
	h.ops = append(h.ops, op)
}

// docOK tells if the structure can be written as a document.
func (p *Plan) docOK(i int) bool {
	s := p.Specs[i]
	for k := range s.Elems {
		if s.Elems[k].Kind == "frame3d" {
			return false
		}
	}
	return true
}

// stall makes a solve wait in the middle.
func (h *hgen) stall(p int) *Fault {
	f := h.fault(p)
	f.Mode = pick(h.r, "stall", "stall", "stallpanic")
	return f
}

func (h *hgen) callerFault(p int) *Fault {
	f := h.fault(p)
	if h.r.P(0.3) {
		f.Mode = "stallpanic"
	}
	return f
}

// genSharing is C03: callers with one problem.
func genSharing(r *Rng, long bool) *Plan {
	plan := &Plan{Scenario: "one problem"}
	ref := ProbRef{Spec: 0, How: "shared", Share: 1, Seams: r.P(0.6)}
	nt := pick(r, 1, 2, 2, 2, 3, 4)
	many, most := genMany(r, &nt)
	o := GenOpts{MaxElems: min(most, pick(r, 1, 2, 3, 5, 8)), WantLink: r.P(0.6), WantHinge: r.P(0.4), WantSettle: r.P(0.4), Large: many == 0 && r.P(0.001)}
	if r.P(0.25) {
		ref.From, ref.Seams, ref.Seed = "doc", false, r.U64()|1
		o.JSON = true
	}
	s := genSpec(r, o)
	plan.Specs = []*Spec{s}
	for t := 0; t < nt; t++ {
		h := newHgen(r, "C03")
		h.addProblem(s, ref)
		rounds := r.In(1, 3)
		if nt == 1 || long {
			rounds = r.In(2, 5)
		}
		if many > 0 {
			rounds = r.In(1, many)
		}
		for i := 0; i < rounds; i++ {
			lay := 0
			if r.P(0.3) {
				lay = 1
				if i == 0 || r.P(0.3) {
					h.ops = append(h.ops, Op{K: "layout", Lay: 1})
				}
			}
			if r.P(0.12) {
				h.solve(0, 0, h.callerFault(0))
			}
			if r.P(0.1) {
				h.solve(0, 0, h.stall(0))
			}
			h.solve(0, lay, nil)
			if r.P(0.3) {
				h.query()
			}
		}
		plan.Tasks = append(plan.Tasks, TaskPlan{Probs: h.refs, Ops: h.ops})
	}
	return plan
}

// genResultSharing is C05 with several callers that look at the same results.
func genResultSharing(r *Rng, long bool) *Plan {
	plan := &Plan{Scenario: "one result", Results: pick(r, 1, 1, 2), Seed2: r.U64()}
	ref := ProbRef{Spec: 0, How: "shared", Share: 1, Seams: r.P(0.3)}
	nt := pick(r, 2, 2, 3, 4)
	many, most := genMany(r, &nt)
	o := GenOpts{MaxElems: min(most, pick(r, 1, 2, 3, 5)), WantLink: r.P(0.3), WantHinge: r.P(0.4), WantSettle: r.P(0.4)}
	if r.P(0.25) {
		ref.From, ref.Seams, ref.Seed = "doc", false, r.U64()|1
		o.JSON = true
	}
	s := genSpec(r, o)
	plan.Specs = []*Spec{s}
	for t := nt; t > 0; t-- {
		h := newHgen(r, "C05")
		h.addProblem(s, ref)
		for i := 1; i <= plan.Results; i++ {
			h.res = append(h.res, i)
		}
		h.nextRes = 1000 * (t + 1)
		n := r.In(1, 6)
		if long {
			n = r.In(4, 12)
		}
		if many > 0 {
			n = r.In(1, 2*many)
		}
		for ; n > 0; n-- {
			if r.P(0.15) {
				h.solve(0, 0, nil)
				continue
			}
			h.query()
		}
		plan.Tasks = append(plan.Tasks, TaskPlan{Probs: h.refs, Ops: h.ops})
	}
	return plan
}

// genLayoutSharing is C09 with several callers that use one index layout.
func genLayoutSharing(r *Rng) *Plan {
	plan := &Plan{Scenario: "one layout", Layout: true}
	nt := pick(r, 1, 2, 2, 3)
	many, most := genMany(r, &nt)
	s := genSpec(r, GenOpts{MaxElems: min(most, pick(r, 1, 2, 3, 5)), WantLink: r.P(0.6), Large: many == 0 && r.P(0.001)})
	plan.Specs = []*Spec{s}
	for t := 0; t < nt; t++ {
		h := newHgen(r, "C09")
		h.handle = firstHandle * (t + 1)
		h.addProblem(s, ProbRef{Spec: 0, How: "api", Seams: r.P(0.5), Wipe: r.P(0.3)})
		if r.P(0.15) {
			h.addProblem(genSpecInto(plan, r), ProbRef{Spec: len(plan.Specs) - 1, How: "api"})
		}
		for i := r.In(1, max(4, many)); i > 0; i-- {
			p := r.N(len(h.refs))
			var undo []Op
			if r.P(0.4) {
				if u, _ := h.spoil(p); u != nil {
					undo = u
				}
			} else if r.P(0.4) {
				h.edit(p)
			}
			if r.P(0.1) {
				h.solve(p, 1, h.fault(p)).Mask = 64
			}
			op := h.solve(p, 1, nil)
			op.Mask = 64
			h.ops = append(h.ops, undo...)
		}
		h.solve(0, 0, nil)
		plan.Tasks = append(plan.Tasks, TaskPlan{Probs: h.refs, Ops: h.ops})
	}
	return plan
}

func genSpecInto(plan *Plan, r *Rng) *Spec {
	s := genSpec(r, GenOpts{MaxElems: 3})
	plan.Specs = append(plan.Specs, s)
	return s
}

// nontrivial says if a run was about the property at all.
func nontrivial(prop string, o *Outcome) bool {
	n := func(k string) int { return o.Stats[k] }
	switch prop {
	case "C01":
		return n("variants") > 1
	case "C02":
		return o.Switches > 1 && n("result") > 1
	case "C03":
		return n("result") > 1
	case "C04":
		return n("edit") > 0 && n("result") > 0
	case "C05":
		return n("repeated answer") > 0
	case "C06":
		return n("solve:failed on purpose")+n("solve:error")+n("layout refused") > 0 && n("result") > 0
	case "C07":
		return n("documents") > 0 && n("damage without a place") == 0
	case "C08":
		return n("op:addload")+n("op:rmload")+n("op:badload") > 1 && n("result") > 0
	case "C09":
		return n("solve:kept layout") > 0
	case "C12":
		return n("combination")+n("zero case") > 0
	case "C14":
		return n("documents") > 0 && n("damage without a place") == 0
	case "C19":
		return n("cycles closed") > 0
	}
	return n("result") > 0
}
