package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"maps"
	"math"
	"reflect"
	"runtime"
	"slices"
	"sort"
	"strings"

	df "github.com/lubgr/deflect/deflect"
)

// Op is one step of a caller. Every step names what it acts on by a stable identity, so that steps
// can be left out when a failing history is made smaller: a step whose object is not there does
// nothing.
type Op struct {
	K     string    `json:"k"`
	P     int       `json:"p,omitempty"`
	A     string    `json:"a,omitempty"`
	Load  *LoadSpec `json:"load,omitempty"`
	NV    *NVal     `json:"nv,omitempty"`
	V     float64   `json:"v,omitempty"`
	Elem  *ElemSpec `json:"elem,omitempty"`
	Node  *NodeSpec `json:"node,omitempty"`
	Mat   *MatSpec  `json:"mat,omitempty"`
	Link  *LinkSpec `json:"link,omitempty"`
	Slot  int       `json:"slot,omitempty"`
	Lay   int       `json:"lay,omitempty"`
	Strat string    `json:"strat,omitempty"`
	Fault *Fault    `json:"fault,omitempty"`
	Res   int       `json:"res,omitempty"`
	Seed  uint64    `json:"seed,omitempty"`
	Mask  int       `json:"mask,omitempty"`
	Kind  string    `json:"kind,omitempty"`
	W     []float64 `json:"w,omitempty"`
	Off   bool      `json:"off,omitempty"`
	Dmg   *Damage   `json:"damage,omitempty"`
	Bad   bool      `json:"bad,omitempty"` // makes the problem ill-formed, or mends it again
}

// ProbRef says how a caller comes by a problem.
type ProbRef struct {
	Spec  int    `json:"spec"`
	How   string `json:"how"`             // api, doc, shared
	Seed  uint64 `json:"seed,omitempty"`  // for the way a document is written, or the order of lists
	Share int    `json:"share,omitempty"` // parts: 1 based index of the group whose parts are used
	Seams bool   `json:"seams,omitempty"`
	From  string `json:"from,omitempty"` // a shared problem can be read from a document
	Wipe  bool   `json:"wipe,omitempty"` // maps and bytes handed over are used for something else afterwards
}

// TaskPlan is one caller.
type TaskPlan struct {
	Probs []ProbRef `json:"probs"`
	Ops   []Op      `json:"ops"`
}

// Plan is one run: together with the code under test it determines everything that happens.
type Plan struct {
	Prop     string     `json:"property"`
	Scenario string     `json:"scenario"`
	Seed     uint64     `json:"seed"`
	Run      int        `json:"run"`
	Specs    []*Spec    `json:"specs,omitempty"`
	Cases    []*Spec    `json:"cases,omitempty"`
	Tasks    []TaskPlan `json:"tasks,omitempty"`
	Sched    SchedPlan  `json:"sched"`
	Perm     PermPlan   `json:"perm"`
	Seed2    uint64     `json:"seed2,omitempty"`   // the way a document is written
	Layout   bool       `json:"layout,omitempty"`  // callers share one index layout
	Results  int        `json:"results,omitempty"` // callers share that many results
	Repeat   int        `json:"repeat,omitempty"`  // how often the steps are carried out
	Damage   []Damage   `json:"damage,omitempty"`
	Variants []Variant  `json:"variants,omitempty"`
	NoMore   bool       `json:"no_more,omitempty"` // no final round of questions
}

// Outcome is what a run showed.
type Outcome struct {
	Viols      []Viol         `json:"viols,omitempty"`
	Stats      map[string]int `json:"stats"`
	Faults     map[string]int `json:"faults"`
	Hash       uint64         `json:"hash"`   // interleaving and map orders
	Digest     uint64         `json:"digest"` // everything observed
	Steps      int            `json:"steps"`
	Switches   int            `json:"switches"`
	Perms      int            `json:"perms"`
	Trace      []Switch       `json:"trace,omitempty"`
	Sites      int            `json:"sites"`
	Internal   []string       `json:"internal,omitempty"`
	PermEvents []int          `json:"perm_events,omitempty"`
	Nontrivial bool           `json:"nontrivial,omitempty"`
}

// Run is a run in progress.
type Run struct {
	plan  *Plan
	v     viols
	stats map[string]int
	fault map[string]int
	dig   uint64
	refs  map[string]*Ref
	// Problems shared by callers, and parts shared by problems.
	shared  map[int]*Prob
	parts   map[int]*Built
	layouts map[int]*LayoutSlot
	texts   map[[2]uint64][]byte
	live    map[[2]uint64][]byte
	stalled bool
	worlds  []*World
	main    bool // callers are running
	sched   *Sched
	intern  []string // trouble with the simulator itself
}

func (r *Run) count(k string) { r.stats[k]++ }
func (r *Run) note(x uint64)  { r.dig = mix(r.dig ^ x) }
func (r *Run) noteS(s string) { r.note(strHash(s)) }
func (r *Run) checks(c string) bool {
	return strings.Contains(propChecks[r.plan.Prop], " "+c+" ")
}

// Which checks make up a property.
var propChecks = map[string]string{
	"C01": " match refused ",
	"C02": " match refused fault ",
	"C03": " match refused intact ",
	"C04": " match refused ",
	"C05": " immut first ",
	"C06": " fault match refused immut intact ",
	"C08": " accept match refused ",
	"C09": " stale match refused ",
	"C10": " equilibrium ",
	"C11": " curves trimmed ",
	"C12": " linear ",
	"C13": " prescribed match refused ",
	"C19": " none ",
}

func (r *Run) viol(class, f string, a ...any) {
	r.v.add(class, f, a...)
	if n := len(r.v); n > 0 && r.sched != nil && r.sched.cur != nil && r.main && r.v[n-1].Task == 0 {
		r.v[n-1].Task = r.sched.cur.owner + 1
	}
}

// ctl is the fault control of whichever caller is running.
func (r *Run) ctl() *Ctl {
	if r.main && r.sched != nil && r.sched.cur != nil && r.sched.cur.owner < len(r.worlds) {
		return r.worlds[r.sched.cur.owner].ctl
	}
	return nil
}

// ref computes the reference solution, once per state of a problem.
func (r *Run) ref(s *Spec) *Ref {
	k := specKey(s)
	if x, ok := r.refs[k]; ok {
		return x
	}
	x := solveRef(s.clone())
	r.refs[k] = x
	return x
}

func specKey(s *Spec) string {
	var k []byte
	str := func(l ...string) {
		for _, x := range l {
			k = append(append(k, x...), 0)
		}
	}
	num := func(l ...int) {
		for _, x := range l {
			k = binary.AppendVarint(k, int64(x))
		}
	}
	val := func(l ...float64) {
		for _, x := range l {
			k = binary.LittleEndian.AppendUint64(k, math.Float64bits(x))
		}
	}
	nvals := func(l []NVal) {
		num(len(l))
		for i := range l {
			str(l[i].Node)
			num(int(l[i].Dof))
			val(l[i].V)
		}
	}
	num(len(s.Mats), len(s.Nodes), len(s.Elems), len(s.Links))
	for i := range s.Mats {
		m := &s.Mats[i]
		val(m.E, m.Nu, m.Rho, m.B, m.H, m.A, m.I)
		rect := 0
		if m.Rect {
			rect = 1
		}
		num(rect)
	}
	for i := range s.Nodes {
		n := &s.Nodes[i]
		str(n.ID)
		val(n.X, n.Y, n.Z)
	}
	for i := range s.Elems {
		e := &s.Elems[i]
		str(e.ID, e.Kind, e.N0, e.N1)
		num(e.Mat, len(e.Hinges), len(e.Loads))
		for _, h := range e.Hinges {
			num(h.End, int(h.Dof))
		}
		for j := range e.Loads {
			l := &e.Loads[j]
			num(l.Handle, int(l.Dof))
			str(l.Degree)
			val(l.Pos, l.V0, l.V1)
		}
	}
	nvals(s.Dir)
	nvals(s.Nodal)
	for i := range s.Links {
		l := &s.Links[i]
		str(l.Node)
		num(int(l.From), int(l.To))
		val(l.Angle)
	}
	return string(k)
}

// Prob is a problem under test and what it is supposed to be.
type Prob struct {
	b    *Built
	spec *Spec
	note string
}

// LayoutSlot is an index layout and the state of the problem it was made from.
type LayoutSlot struct {
	lay  df.EqLayout
	spec *Spec
}

// ResultRec is a result and everything it has said so far.
type ResultRec struct {
	id     int
	res    df.ProblemResult
	spec   *Spec
	ref    *Ref
	seen   map[string][]float64
	first  map[string]bool // looked at for the first time only after something else had happened
	edited map[string]bool
	elems  map[string]df.Element
	nodes  map[string]*df.Node
	mats   []*df.Material
	snap   *Snap
	w      []float64
	task   int
	held   []func() string // answers callers still have in hand: what has become of them
}

// World is what one caller holds.
type World struct {
	run     *Run
	id      int
	probs   []*Prob
	solvers map[int]df.ProblemSolver
	strats  map[string]*seamStrategy
	layouts map[int]*LayoutSlot
	results []*ResultRec
	ctl     *Ctl
	n       int
	cases   map[int][]Op
}

func newWorld(r *Run, id int) *World {
	return &World{run: r, id: id, solvers: map[int]df.ProblemSolver{}, strats: map[string]*seamStrategy{},
		layouts: map[int]*LayoutSlot{}, ctl: newCtl()}
}

func (w *World) at(op *Op) string { return fmt.Sprintf("caller %v, step %v (%v)", w.id, w.n, op.K) }

// panicked reports a panic: of the code under test, or else of the simulator.
func (r *Run) panicked(stack, f string, a ...any) {
	if where(stack) == "?" {
		r.intern = append(r.intern, fmt.Sprintf(f, a...)+"\n"+stack)
		return
	}
	r.viol("panic", f, a...)
}

// guard runs f; a panic that is not the simulator's own ends up in pv.
func guard(f func()) (pv any, stack string) {
	defer func() {
		if v := recover(); v != nil {
			if h, ok := v.(hang); ok {
				panic(h)
			}
			pv = v
			buf := make([]byte, 8192)
			stack = string(buf[:runtime.Stack(buf, false)])
		}
	}()
	f()
	return nil, ""
}

// where finds the place in the code under test a panic came from.
func where(stack string) string {
	lines := strings.Split(stack, "\n")
	for i, l := range lines {
		if strings.Contains(l, "lubgr/deflect/deflect.") && i+1 < len(lines) {
			f := strings.Fields(strings.TrimSpace(l))[0]
			if j := strings.LastIndex(f, "("); j > 0 {
				f = f[:j]
			}
			return f[strings.LastIndex(f, "/")+1:]
		}
	}
	return "?"
}

// try runs f, which must not panic.
func (w *World) try(op *Op, what string, f func()) bool {
	pv, stack := guard(f)
	if pv == nil {
		return true
	}
	if t, ok := pv.(turnedDown); ok {
		w.run.count("turned down")
		if w.run.checks("refused") {
			w.run.viol("refused", "%v: %v: %v", w.at(op), what, string(t))
		}
		return false
	}
	w.run.panicked(stack, "%v: %v panics in %v: %v", w.at(op), what, where(stack), pv)
	return false
}

func (w *World) create(p ProbRef) bool {
	spec := w.run.plan.Specs[p.Spec].clone()
	op := &Op{K: "create " + p.How}
	pr := &Prob{spec: spec}

	if p.How == "shared" {
		sh, ok := w.run.shared[p.Share]
		if !ok {
			panic("simulator: shared problem missing")
		}
		w.probs = append(w.probs, sh)
		return true
	}

	if p.How == "doc" {
		text := w.run.text(p.Spec, p.Seed)
		var prob df.Problem
		var err error
		if p.Wipe {
			text = bytes.Clone(text)
		}
		if !w.try(op, "ProblemFromJSON", func() { prob, err = df.ProblemFromJSON(text) }) {
			return false
		}
		w.run.count("parse")
		if string(text) != string(w.run.texts[[2]uint64{uint64(p.Spec), p.Seed}]) {
			w.run.viol("document-changed", "%v: ProblemFromJSON changed the document", w.at(op))
		}
		if err != nil {
			if w.run.checks("refused") {
				w.run.viol("refused", "%v: intact document refused: %v\n%s", w.at(op), err, text)
			}
			return false
		}
		if p.Wipe {
			w.run.count("wiped")
			for i := range text {
				text[i] = "0\x00x\"}"[i%5]
			}
		}
		pr.b = adopt(&prob, spec)
		if pr.b == nil {
			if w.run.checks("match") {
				w.run.viol("members", "%v: the problem read has %v members, the document has %v", w.at(op), len(prob.Elements), len(spec.Elems))
			}
			return false
		}
		w.probs = append(w.probs, pr)
		return true
	}

	var o BuildOpts
	if p.Seams {
		o.Ctl = w.run.ctl
	}
	if p.Seed != 0 {
		o.Order = NewRng(p.Seed, 6)
	}
	if p.Share > 0 {
		o.Shared = w.run.parts[p.Share]
	} else if p.Wipe {
		w.run.count("wiped")
		o.Wipe = true
	}
	if !w.try(op, "building the problem", func() { pr.b = build(spec, o) }) {
		return false
	}
	w.probs = append(w.probs, pr)
	return true
}

// adopt wraps a problem read from a document.
func adopt(p *df.Problem, s *Spec) *Built {
	b := &Built{P: p, Elems: map[string]df.Element{}, Loads: map[int]df.NeumannElementBC{}, Nodes: map[string]*df.Node{}}
	for _, e := range p.Elements {
		b.Elems[e.ID()] = e
	}
	for i := range s.Elems {
		if b.Elems[s.Elems[i].ID] == nil {
			return nil
		}
	}
	if len(p.Elements) != len(s.Elems) {
		return nil
	}
	for i := range p.Nodes {
		b.Nodes[p.Nodes[i].ID] = &p.Nodes[i]
	}
	for _, m := range s.Mats {
		b.Mats = append(b.Mats, &df.Material{CrossSection: m.section(b.opts.Wipe),
			LinearElastic: df.LinearElastic{YoungsModulus: m.E, PoissonsRatio: m.Nu, Density: m.Rho}})
	}
	for i, l := range s.Links {
		if i < len(p.EqTransforms) {
			b.links = append(b.links, builtLink{l, nil})
		}
	}
	b.foreign = true
	return b
}

// apply changes the description the way op is meant to change the problem. It returns false if op
// has nothing to act on.
func apply(s *Spec, op *Op) bool {
	switch op.K {
	case "addload":
		e := s.elem(op.A)
		if e == nil {
			return false
		}
		if s.accepts(e, *op.Load) {
			e.Loads = append(e.Loads, *op.Load)
		}
		return true
	case "rmload":
		e := s.elem(op.A)
		if e == nil {
			return false
		}
		var l []LoadSpec
		for _, x := range e.Loads {
			if x.Handle != op.Load.Handle {
				l = append(l, x)
			}
		}
		e.Loads = l
		return true
	case "badload":
		return s.elem(op.A) != nil
	case "nodal+":
		s.Nodal = append(s.Nodal, *op.NV)
		return true
	case "nodal-", "nodal=":
		for i, n := range s.Nodal {
			if n == *op.NV {
				if op.K == "nodal=" {
					s.Nodal[i].V = op.V
				} else {
					s.Nodal = append(s.Nodal[:i:i], s.Nodal[i+1:]...)
				}
				return true
			}
		}
		return false
	case "dir+":
		s.Dir = append(s.Dir, *op.NV)
		return true
	case "dir-", "dir=":
		for i, n := range s.Dir {
			if n.index() == op.NV.index() {
				if op.K == "dir=" {
					s.Dir[i].V = op.V
				} else {
					s.Dir = append(s.Dir[:i:i], s.Dir[i+1:]...)
				}
				return true
			}
		}
		return false
	case "link+":
		s.Links = append(s.Links, *op.Link)
		return true
	case "link-":
		for i, l := range s.Links {
			if l.Node == op.Link.Node && l.To == op.Link.To {
				s.Links = append(s.Links[:i:i], s.Links[i+1:]...)
				return true
			}
		}
		return false
	case "elem+", "elem~":
		old := s.elem(op.Elem.ID)
		if (old != nil) != (op.K == "elem~") {
			return false
		}
		if op.Node != nil && s.node(op.Node.ID) == nil {
			s.Nodes = append(s.Nodes, *op.Node)
		}
		if s.node(op.Elem.N0) == nil || s.node(op.Elem.N1) == nil || op.Elem.Mat >= len(s.Mats) {
			return false
		}
		e := *op.Elem
		e.Loads = nil
		if old != nil {
			*old = e
		} else {
			s.Elems = append(s.Elems, e)
		}
		return true
	case "elem-":
		for i := range s.Elems {
			if s.Elems[i].ID == op.A {
				s.Elems = append(s.Elems[:i:i], s.Elems[i+1:]...)
				return true
			}
		}
		return false
	case "move":
		n := s.node(op.Node.ID)
		if n == nil {
			return false
		}
		*n = *op.Node
		for i := range s.Elems {
			if s.length(&s.Elems[i]) == 0 {
				return false
			}
		}
		return true
	case "mat=":
		if op.Slot >= len(s.Mats) {
			return false
		}
		s.Mats[op.Slot] = *op.Mat
		return true
	case "clear":
		for i := range s.Elems {
			s.Elems[i].Loads = nil
		}
		s.Nodal = nil
		return true
	}
	return true
}

// foreignLoad is a load type the library does not know.
type foreignLoad struct{ x float64 }

// edited marks curves of earlier results as no longer comparable.
func (w *World) edited(b *Built, elem string) {
	for _, r := range w.results {
		if r.elems[elem] != nil && r.elems[elem] == b.Elems[elem] {
			r.edited[elem] = true
		}
	}
}

// editedAt marks curves of the members of earlier results that hold something that changed, also those
// that have left the problem since.
func (w *World) editedAt(holds func(r *ResultRec, e *ElemSpec) bool) {
	for _, r := range w.results {
		for i := range r.spec.Elems {
			if e := &r.spec.Elems[i]; holds(r, e) {
				r.edited[e.ID] = true
			}
		}
	}
}

// exec carries out one step.
func (w *World) exec(op *Op) {
	w.n++
	r := w.run
	defer w.inHand(op)
	switch op.K {
	case "layout", "solve", "look", "query", "reorder", "case", "parse", "mechanism":
	default:
		if op.P >= len(w.probs) {
			return
		}
		p := w.probs[op.P]
		c := p.spec.clone()
		if p.b.foreign && (op.K == "link-" || op.K == "move" || op.K == "mat=" || op.K == "clear") {
			return
		}
		if !apply(c, op) {
			return
		}
		r.count("edit")
		r.count("op:" + op.K)
		w.edit(p, op, c)
		p.spec = c
		return
	}
	r.count("op:" + op.K)

	switch op.K {
	case "layout":
		if op.P >= len(w.probs) {
			return
		}
		p := w.probs[op.P]
		var lay df.EqLayout
		var err error
		if w.try(op, "NewEqLayout", func() { lay, err = df.NewEqLayout(p.b.P) }) && err == nil {
			slot := &LayoutSlot{lay, p.spec.clone()}
			if op.Mask == 1 {
				r.layouts[op.Lay] = slot
			} else {
				w.layouts[op.Lay] = slot
			}
		}
	case "reorder":
		if op.P >= len(w.probs) {
			return
		}
		p := w.probs[op.P].b.P
		g := NewRng(op.Seed, 8)
		p.Elements = shuffled(g, p.Elements)
		p.Neumann = shuffled(g, p.Neumann)
		p.Dirichlet = shuffled(g, p.Dirichlet)
		if !w.probs[op.P].b.foreign {
			p.Nodes = shuffled(g, p.Nodes)
		}
	case "solve":
		if op.P < len(w.probs) {
			w.solve(op)
		}
	case "look":
		for _, x := range w.results {
			if op.Res == 0 || x.id == op.Res {
				w.look(op, x, op.Mask, NewRng(op.Seed, 9))
			}
		}
	case "query":
		for _, x := range w.results {
			if x.id == op.Res {
				w.query(op, x)
			}
		}
	case "parse":
		w.parse(op)
	case "mechanism":
		w.mechanism(op)
	case "case":
		if op.P < len(w.probs) {
			w.applyCase(op)
		}
	}
}

// edit changes the real problem.
func (w *World) edit(p *Prob, op *Op, after *Spec) {
	r := w.run
	b := p.b
	P := b.P
	switch op.K {
	case "addload":
		e := p.spec.elem(op.A)
		want := p.spec.accepts(e, *op.Load)
		var got bool
		var x df.NeumannElementBC
		x, ok := b.Loads[op.Load.Handle]
		if !ok {
			var err error
			if !w.try(op, "creating a load", func() { x, err = op.Load.build() }) {
				return
			}
			if err != nil {
				return
			}
			b.Loads[op.Load.Handle] = x
		}
		if !w.try(op, "AddLoad", func() { got = b.Elems[op.A].AddLoad(x) }) {
			return
		}
		if got != want && r.checks("accept") {
			r.viol("accept", "%v: AddLoad(%+v) on %v %v of length %v returns %v", w.at(op), *op.Load, e.Kind, e.ID, p.spec.length(e), got)
		}
		if want {
			w.edited(b, op.A)
		} else {
			r.count("refused-load")
			r.fault["refused load/"+op.Kind]++
		}
	case "rmload":
		x, ok := b.Loads[op.Load.Handle]
		if !ok {
			if b.foreign {
				// Loads of a document can't be taken off: nobody has them.
				*after = *p.spec.clone()
				return
			}
			x, _ = op.Load.build()
		}
		w.try(op, "RemoveLoad", func() { b.Elems[op.A].RemoveLoad(x) })
		w.edited(b, op.A)
	case "badload":
		var x df.NeumannElementBC
		e := p.spec.elem(op.A)
		switch op.Kind {
		case "nil":
		case "foreign":
			x = &foreignLoad{1}
		case "foreignvalue":
			x = foreignLoad{1}
		case "string":
			x = "10 kN"
		case "number":
			x = 10.0
		case "beyond":
			x, _ = df.NewElementConcentratedLoad(df.Ux, p.spec.length(e)*1.01+0.001, 5e5)
		case "beyondz":
			x, _ = df.NewElementConcentratedLoad(df.Uz, p.spec.length(e)*3, 5e5)
		case "far":
			x, _ = df.NewElementConcentratedLoad(df.Ux, p.spec.length(e)*1000, 1e3)
		}
		restore := func() {}
		if op.Kind == "short" {
			x = b.Loads[op.Load.Handle]
			if x == nil {
				x, _ = op.Load.build()
			}
			n, to := b.Nodes[e.N0], b.Nodes[e.N1]
			if op.Mask == 1 {
				n, to = to, n
			}
			f := op.V * op.Load.Pos / p.spec.length(e)
			was := *n
			n.X, n.Y, n.Z = to.X+f*(n.X-to.X), to.Y+f*(n.Y-to.Y), to.Z+f*(n.Z-to.Z)
			restore = func() { *n = was }
		}
		if x == nil && op.Kind != "nil" {
			return // refused right away
		}
		var got bool
		ok := w.try(op, "AddLoad", func() { got = b.Elems[op.A].AddLoad(x) })
		restore()
		if !ok {
			return
		}
		r.fault["refused load/"+op.Kind]++
		if got && r.checks("accept") {
			r.viol("accept", "%v: AddLoad of a load that can't be carried (%v) on %v %v returns true", w.at(op), op.Kind, e.Kind, e.ID)
		}
	case "nodal+":
		P.Neumann = append(P.Neumann, df.NodalValue{Index: op.NV.index(), Value: op.NV.V})
	case "nodal-", "nodal=":
		for i, n := range P.Neumann {
			if n.Index == op.NV.index() && n.Value == op.NV.V {
				if op.K == "nodal=" {
					P.Neumann[i].Value = op.V
				} else {
					P.Neumann = remove(P.Neumann, i, op.Mask)
				}
				return
			}
		}
	case "dir+":
		P.Dirichlet = append(P.Dirichlet, df.NodalValue{Index: op.NV.index(), Value: op.NV.V})
	case "dir-", "dir=":
		for i, n := range P.Dirichlet {
			if n.Index == op.NV.index() {
				if op.K == "dir=" {
					P.Dirichlet[i].Value = op.V
				} else {
					P.Dirichlet = remove(P.Dirichlet, i, op.Mask)
				}
				return
			}
		}
	case "link+":
		w.try(op, "NewInclinedSupport", func() {
			t, nv := b.newLink(*op.Link)
			b.links = append(b.links, builtLink{*op.Link, t})
			P.EqTransforms = append(P.EqTransforms, t)
			P.Dirichlet = append(P.Dirichlet, nv)
		})
	case "link-":
		for i, l := range b.links {
			if l.spec.Node != op.Link.Node || l.spec.To != op.Link.To {
				continue
			}
			for j, n := range P.Dirichlet {
				if n.Index == (df.Index{NodalID: l.spec.Node, Dof: l.spec.To}) {
					P.Dirichlet = remove(P.Dirichlet, j, op.Mask)
					break
				}
			}
			for j, t := range P.EqTransforms {
				if t == l.t {
					P.EqTransforms = remove(P.EqTransforms, j, op.Mask)
					break
				}
			}
			b.links = append(b.links[:i:i], b.links[i+1:]...)
			return
		}
	case "elem+", "elem~":
		if op.Node != nil && b.Nodes[op.Node.ID] == nil {
			n := df.Node{ID: op.Node.ID, X: op.Node.X, Y: op.Node.Y, Z: op.Node.Z}
			P.Nodes = append(P.Nodes, n)
			b.Nodes[op.Node.ID] = &n
		}
		var x df.Element
		var err error
		if !w.try(op, "creating a member", func() { x, err = b.newElem(op.Elem) }) {
			return
		}
		if err != nil {
			r.viol("refused", "%v: member %+v refused: %v", w.at(op), *op.Elem, err)
			return
		}
		if op.K == "elem~" {
			for i, y := range P.Elements {
				if y.ID() == op.Elem.ID {
					if op.Mask == 0 {
						P.Elements = append([]df.Element(nil), P.Elements...)
					}
					P.Elements[i] = x
				}
			}
		} else {
			P.Elements = append(P.Elements, x)
		}
		b.Elems[op.Elem.ID] = x
	case "elem-":
		for i, y := range P.Elements {
			if y.ID() == op.A {
				P.Elements = remove(P.Elements, i, op.Mask)
				break
			}
		}
		delete(b.Elems, op.A)
	case "move":
		n := b.Nodes[op.Node.ID]
		n.X, n.Y, n.Z = op.Node.X, op.Node.Y, op.Node.Z
		for i := range P.Nodes {
			if P.Nodes[i].ID == n.ID {
				P.Nodes[i] = *n
			}
		}
		w.editedAt(func(r *ResultRec, e *ElemSpec) bool {
			return e.N0 == n.ID && r.nodes[e.N0] == n || e.N1 == n.ID && r.nodes[e.N1] == n
		})
	case "mat=":
		m := op.Mat
		cs := m.section(b.opts.Wipe)
		if b.opts.Ctl != nil {
			cs = &seamCS{cs, b.opts.Ctl}
		}
		*b.Mats[op.Slot] = df.Material{CrossSection: cs,
			LinearElastic: df.LinearElastic{YoungsModulus: m.E, PoissonsRatio: m.Nu, Density: m.Rho}}
		w.editedAt(func(r *ResultRec, e *ElemSpec) bool {
			return e.Mat < len(r.mats) && r.mats[e.Mat] == b.Mats[op.Slot]
		})
	case "clear":
		for i := range p.spec.Elems {
			e := &p.spec.Elems[i]
			for _, l := range e.Loads {
				w.try(op, "RemoveLoad", func() { b.Elems[e.ID].RemoveLoad(b.Loads[l.Handle]) })
				w.edited(b, e.ID)
			}
		}
		P.Neumann = P.Neumann[:0]
	}
}

// remove takes an entry out of a list, in place or into a new list.
func remove[T any](l []T, i, mode int) []T {
	if mode == 0 {
		return append(append([]T(nil), l[:i]...), l[i+1:]...)
	}
	l = append(l[:i], l[i+1:]...)
	var zero T
	l[:len(l)+1][len(l)] = zero
	return l
}

// parse takes a document all the way from its text to the answers: one that is in order, or one that has to
// be refused.
func (w *World) parse(op *Op) {
	r := w.run
	if op.Slot >= len(r.plan.Specs) {
		return
	}
	spec := r.plan.Specs[op.Slot]
	var dmg []Damage
	if op.Dmg != nil {
		dmg = []Damage{*op.Dmg}
	}
	j, ok := textOf(spec, op.Seed, dmg)
	if !ok {
		return
	}
	j.reorderDoc(NewRng(op.Seed, 35))
	text := j.bytes(op.Seed%2 == 0)
	o, ok := w.through(op, text, false)
	if !ok {
		return
	}
	r.count("result")
	r.count("parse")
	if o.refused != "" {
		r.noteS("refused")
	} else {
		r.note(o.snap.digest())
	}
	if op.Dmg != nil {
		r.fault["document/"+op.Dmg.Kind]++
		if o.refused == "" {
			r.viol("accepted", "%v: document with %v is read and solved:\n%s", w.at(op), op.Dmg.Kind, text)
		}
		return
	}
	if o.refused != "" {
		r.viol("refused", "%v: intact document refused at %v: %v\n%s", w.at(op), o.refused, o.err, text)
		return
	}
	ref := r.ref(spec)
	if !usable(ref) {
		return
	}
	v := &viols{}
	o.snap.matches(ref, v)
	for _, x := range *v {
		r.viol(x.Class, "%v: %v\n%s", w.at(op), x.Detail, text)
	}
}

// mechanism tries to solve structures that can move as a whole. Whether one of them is recognised is a matter of
// rounding, so the same structure is tried in several positions: what is refused nearly always must not pass
// half of the time.
func (w *World) mechanism(op *Op) {
	r := w.run
	if op.Slot >= len(r.plan.Specs) || !r.plan.Specs[op.Slot].planar() {
		return
	}
	const tries = 10
	passed := 0
	for i := 0; i < tries; i++ {
		g := NewRng(op.Seed, 36, uint64(i))
		s := loosen(r.plan.Specs[op.Slot], NewRng(op.Seed, 37), g)
		if !s.wellFormed() {
			return
		}
		var b *Built
		if !w.try(op, "building a structure that can move", func() { b = build(s, BuildOpts{}) }) {
			return
		}
		lay, err := df.NewEqLayout(b.P)
		if err != nil {
			continue
		}
		sol := w.solvers[op.Mask%4]
		if sol == nil {
			sol = df.NewLinearProblemSolver()
			w.solvers[op.Mask%4] = sol
		}
		var res df.ProblemResult
		if !w.try(op, "Solve", func() { res, err = sol.Solve(b.P, lay, w.strategy("lib")) }) {
			return
		}
		if err != nil {
			if res != nil && !reflect.ValueOf(res).IsNil() {
				r.viol("result-with-error", "%v: Solve returns a result along with the error %v", w.at(op), err)
			}
			continue
		}
		passed++
	}
	r.fault["structure/can move"]++
	r.count("solve:error")
	r.note(uint64(passed))
	if passed >= tries*4/10 {
		r.viol("accepted", "%v: Solve returns a result for %v of %v structures that can move as a whole", w.at(op), passed, tries)
	}
}

// loosen leaves so few supports that the structure can move, and puts it somewhere else.
func loosen(of *Spec, g, v *Rng) *Spec {
	s := of.clone()
	s.Links, s.Nodal = nil, nil
	a := s.Elems[g.N(len(s.Elems))]
	switch g.N(4) {
	case 0, 1:
		s.Dir = []NVal{{a.N0, df.Ux, 0}, {a.N0, df.Uz, 0}}
	case 2:
		s.Dir = []NVal{{a.N0, df.Ux, 0}}
	case 3:
		s.Dir = []NVal{{a.N0, df.Uz, 0}, {a.N1, df.Uz, 0}}
	}
	sin, cos := math.Sincos(v.Fin(0, 6.28))
	dx, dz := v.Fin(-9, 9), v.Fin(-9, 9)
	for i := range s.Nodes {
		n := &s.Nodes[i]
		n.X, n.Z = cos*n.X+sin*n.Z+dx, -sin*n.X+cos*n.Z+dz
	}
	for i := range s.Elems {
		s.Elems[i].Loads = nil
	}
	for i := range s.Mats {
		s.Mats[i].E *= v.Fin(0.3, 3)
	}
	s.Nodal = []NVal{{a.N1, df.Ux, v.Fin(1, 2)}}
	return s
}

// prints describes everything in a problem's lists.
func prints(p *df.Problem) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v\n%v %v\n%v %v\n", p.Nodes, len(p.Neumann), whole(p.Neumann), len(p.Dirichlet), whole(p.Dirichlet))
	for _, e := range whole(p.Elements) {
		id := "?"
		if e != nil {
			id = e.ID()
		}
		fmt.Fprintf(&b, "%v %v,", id, identity(e))
	}
	b.WriteString("\n")
	for _, t := range whole(p.EqTransforms) {
		fmt.Fprintf(&b, "%v,", identity(t))
	}
	fmt.Fprint(&b, len(p.Elements), len(p.EqTransforms))
	return b.String()
}

// whole is the list with what lies behind its end in the same memory.
func whole[T any](l []T) []T { return l[:cap(l)] }

// identity tells objects apart, but is not shown or hashed: addresses differ from run to run.
func identity(x any) string {
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Pointer {
		return fmt.Sprint(v.Pointer())
	}
	return ""
}

func (w *World) strategy(kind string) *seamStrategy {
	key := kind
	if s, ok := w.strats[key]; ok && kind != "fresh" {
		return s
	}
	k := kind
	if k == "fresh" || k == "lib" {
		k = ""
	}
	s := &seamStrategy{kind: k, real: df.NewCholeskySolver(), ctl: w.run.ctl}
	w.strats[key] = s
	return s
}

func sameDofs(a, b *Spec) bool {
	x, y := a.used(), b.used()
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !y[i] {
			return false
		}
	}
	s, t := a.supported(), b.supported()
	if len(s) != len(t) {
		return false
	}
	for i := range s {
		if t[i] == 0 {
			return false
		}
	}
	return true
}

func (w *World) solve(op *Op) {
	r := w.run
	p := w.probs[op.P]
	spec := p.spec.clone()
	var before string
	if r.checks("intact") {
		before = prints(p.b.P)
	}

	ref := r.ref(spec)
	well := spec.wellFormed()

	var lay df.EqLayout
	fits, stale := true, false
	slot := w.layouts[op.Lay]
	if s, ok := r.layouts[op.Lay]; ok && op.Mask&64 != 0 {
		slot = s
	}
	if op.Lay > 0 && slot != nil {
		lay = slot.lay
		fits = sameDofs(slot.spec, spec)
		stale = specKey(slot.spec) != specKey(spec)
		r.count("solve:kept layout")
		if !fits {
			r.count("solve:stale layout")
		}
	} else {
		var err error
		if !w.try(op, "NewEqLayout", func() { lay, err = df.NewEqLayout(p.b.P) }) {
			return
		}
		if err != nil {
			r.count("layout refused")
			r.note(3)
			if well && r.checks("refused") {
				r.viol("refused", "%v: layout of a well-posed problem refused: %v", w.at(op), err)
			}
			return
		}
	}

	s := w.solvers[op.Slot]
	if s == nil {
		s = df.NewLinearProblemSolver()
		if op.Slot > 0 {
			w.solvers[op.Slot] = s
		}
	} else {
		r.count("solve:reused solver")
	}
	var strat df.EquationSolver = w.strategy(op.Strat)
	if op.Strat == "plain" {
		strat = df.NewCholeskySolver()
	}

	w.ctl.arm(op.Fault)
	var res df.ProblemResult
	var err error
	pv, stack := guard(func() { res, err = s.Solve(p.b.P, lay, strat) })
	w.ctl.arm(nil)
	fired := w.ctl.took
	w.ctl.took = false
	r.count("solve")

	mode := ""
	if fired && op.Fault != nil {
		mode = op.Fault.Mode
		r.fault[op.Fault.Site+"/"+mode]++
	}
	expectFail := fired && mode != "stall"
	if err != nil {
		r.noteS("error")
		_ = err.Error()
	}

	if before != "" {
		if after := prints(p.b.P); after != before {
			r.viol("problem-changed", "%v: the problem's lists were changed by Solve", w.at(op))
		}
	}

	isNil := res == nil || reflect.ValueOf(res).Kind() == reflect.Pointer && reflect.ValueOf(res).IsNil()

	if expectFail {
		r.count("solve:failed on purpose")
		if !r.checks("fault") {
			if pv == nil && err == nil {
				return
			}
			return
		}
		switch {
		case pv != nil:
			if !originalPanic(pv, op.Fault) {
				r.viol("panic-replaced", "%v: fault %+v surfaces as another panic in %v: %v", w.at(op), *op.Fault, where(stack), pv)
			}
		case err == nil:
			r.viol("failure-swallowed", "%v: fault %+v, but Solve reports success", w.at(op), *op.Fault)
		default:
			if op.Fault.Site == "strategy" && strings.Contains(" error partial garbage late ", " "+mode+" ") && !errors.Is(err, errInjected) {
				r.viol("cause-lost", "%v: fault %+v, but the error returned does not have its cause: %v", w.at(op), *op.Fault, err)
			}
		}
		if !isNil {
			r.viol("result-with-error", "%v: fault %+v, and Solve returns a result", w.at(op), *op.Fault)
		}
		return
	}

	if pv != nil {
		r.panicked(stack, "%v: Solve panics in %v: %v", w.at(op), where(stack), pv)
		return
	}
	if err != nil {
		r.count("solve:error")
		if !isNil && r.checks("fault") {
			r.viol("result-with-error", "%v: Solve returns a result along with the error %v", w.at(op), err)
		}
		if well && fits && usable(ref) && r.checks("refused") {
			r.viol("refused", "%v: well-posed problem refused: %v", w.at(op), err)
		}
		return
	}
	if isNil {
		r.viol("no-result", "%v: Solve returns neither a result nor an error", w.at(op))
		return
	}

	if !well {
		if r.checks("fault") || r.checks("stale") {
			r.viol("accepted", "%v: Solve returns a result for a problem that has none: %v", w.at(op), illFormed(spec))
		}
		return
	}
	if !ref.OK && r.checks("fault") && spec.dead() != "" {
		r.viol("accepted", "%v: Solve returns a result although %v", w.at(op), spec.dead())
		return
	}
	if !usable(ref) {
		r.count("solve:not compared")
		return
	}

	r.count("solve:ok")
	if stale {
		r.count("solve:ok with layout of another state")
	}
	rec := &ResultRec{id: op.Res, res: res, spec: spec, ref: ref, seen: map[string][]float64{}, edited: map[string]bool{}, task: w.id,
		elems: maps.Clone(p.b.Elems), nodes: maps.Clone(p.b.Nodes), mats: slices.Clone(p.b.Mats)}
	w.results = append(w.results, rec)
	w.judge(op, rec)
}

func originalPanic(pv any, f *Fault) bool {
	if f.Mode == "runtime" {
		e, ok := pv.(runtime.Error)
		return ok && strings.Contains(e.Error(), "nil map")
	}
	i, ok := pv.(injected)
	return ok && i.site == f.Site
}

func illFormed(s *Spec) string {
	used := s.used()
	var l []string
	for i, n := range s.supported() {
		if n > 1 {
			l = append(l, fmt.Sprintf("%v/%v is supported %v times", i.NodalID, i.Dof, n))
		}
		if !used[i] {
			l = append(l, fmt.Sprintf("support on %v/%v, which no member uses", i.NodalID, i.Dof))
		}
	}
	for _, x := range s.Links {
		if !used[df.Index{NodalID: x.Node, Dof: x.From}] {
			l = append(l, fmt.Sprintf("inclined support on %v/%v, which no member uses", x.Node, x.From))
		}
	}
	for _, x := range s.Nodal {
		if !used[x.index()] {
			l = append(l, fmt.Sprintf("load on %v/%v, which no member uses", x.Node, x.Dof))
		}
	}
	if len(s.supported()) == 0 {
		l = append(l, "no support at all")
	}
	if len(s.supported()) >= len(used) {
		l = append(l, "nothing left to solve for")
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// dead names a degree of freedom without any stiffness at all.
func (s *Spec) dead() string {
	has := map[df.Index]bool{}
	for i := range s.Elems {
		e := &s.Elems[i]
		lo := s.local(e)
		for a := range lo.r {
			if s.hinged(e, lo.end[a], lo.dofs[a]) {
				continue
			}
			node := e.N0
			if lo.end[a] == 1 {
				node = e.N1
			}
			for d, f := range s.toLocal(e, lo.dofs[a]) {
				if f != 0 {
					has[df.Index{NodalID: node, Dof: d}] = true
				}
			}
		}
	}
	sup := s.supported()
	for _, l := range s.Links {
		// Turned axes: not considered.
		for d := df.Ux; d <= df.Uy; d++ {
			has[df.Index{NodalID: l.Node, Dof: d}] = true
		}
	}
	for _, i := range sortedUsed(s) {
		if !has[i] && sup[i] == 0 {
			return fmt.Sprintf("nothing holds %v/%v", i.NodalID, i.Dof)
		}
	}
	return ""
}

// judge applies the property's checks to a new result.
func (w *World) judge(op *Op, rec *ResultRec) {
	r := w.run
	if op.Mask&32 != 0 {
		return // only looked at later
	}
	if r.checks("immut") {
		w.look(op, rec, op.Mask&31, NewRng(op.Seed, 10))
		if !r.checks("match") {
			return
		}
	}
	var s *Snap
	if !w.try(op, "querying the result", func() { s = take(rec.res, 0) }) {
		return
	}
	rec.snap = s
	r.note(s.digest())
	r.count("result")
	v := &viols{}
	switch {
	case r.checks("match"):
		s.matches(rec.ref, v)
	case r.checks("equilibrium"):
		s.equilibrium(rec.spec, newScale(rec.ref), v)
	case r.checks("curves"):
		s.curvesConsistent(rec.spec, newScale(rec.ref), v)
	}
	if r.checks("prescribed") {
		s.prescribed(rec.spec, v)
	}
	for _, x := range *v {
		class := x.Class
		if r.checks("stale") && op.Lay > 0 {
			class = "stale-" + class
		}
		r.viol(class, "%v: %v", w.at(op), x.Detail)
	}
}

func key(kind byte, i df.Index) string { return fmt.Sprintf("%c|%v|%v", kind, i.NodalID, i.Dof) }

// saw compares an answer with what was said before, or with the reference the first time.
func (w *World) saw(op *Op, x *ResultRec, k string, val []float64, first func() (want float64, tol float64, ok bool)) {
	old, ok := x.seen[k]
	if !ok {
		x.seen[k] = append([]float64(nil), val...)
		for _, f := range val {
			w.run.note(math.Float64bits(f))
		}
		if first != nil && (w.run.checks("first") || w.run.checks("match")) {
			if want, tol, ok := first(); ok && !(math.Abs(val[0]-want) <= tol) {
				w.run.viol("result-wrong", "%v: result %v says %.12g for %v, right is %.12g (tolerance %.2g)", w.at(op), x.id, val[0], k, want, tol)
			}
		}
		return
	}
	w.run.count("repeated answer")
	same := len(old) == len(val)
	for i := 0; same && i < len(val); i++ {
		same = eqBits(old[i], val[i])
	}
	if !same {
		w.run.viol("result-changed", "%v: result %v said %.12g for %v and now says %.12g", w.at(op), x.id, old, k, val)
	}
}

// scrawl does what a caller may do with a list that was made for him: he orders it, overwrites it, and
// appends to it.
func scrawl[T any](g *Rng, l []T, f func(T) T) []T {
	switch g.N(6) {
	case 0:
		slices.Reverse(l)
	case 1:
		for i := range l {
			l[i] = f(l[i])
		}
	case 2:
		clear(l[:cap(l)])
	case 3:
		if len(l) > 0 {
			l = append(l[:len(l)/2], f(l[0]))
		}
	}
	return l
}

// keep is what a caller does with a curve: he overwrites it or not, and has it in hand for a while.
func (x *ResultRec) keep(g *Rng, p df.PolySequence) {
	for i := range p {
		p[i].Coeff = scrawl(g, p[i].Coeff, func(x float64) float64 { return x + 1 })
	}
	p = scrawl(g, p, func(x df.PolyPiece) df.PolyPiece { x.X0--; return x })
	x.hold(g, func() []float64 { return flat(p) }, "curve")
}

// hold remembers an answer that a caller has in hand.
func (x *ResultRec) hold(g *Rng, f func() []float64, name string) {
	if !g.P(0.3) {
		return
	}
	was := f()
	h := func() string {
		if is := f(); !slices.EqualFunc(is, was, eqBits) {
			return fmt.Sprintf("%v: %.12g has become %.12g", name, was, is)
		}
		return ""
	}
	if len(x.held) < 8 {
		x.held = append(x.held, h)
	} else {
		x.held[g.N(8)] = h
	}
}

// inHand checks the answers that callers have in hand.
func (w *World) inHand(op *Op) {
	for _, x := range w.results {
		for _, h := range x.held {
			if s := h(); s != "" {
				w.run.viol("answer-changed", "%v: an answer of result %v changes in the hands of a caller, %v", w.at(op), x.id, s)
				x.held = nil
				break
			}
		}
	}
}

func flat(p df.PolySequence) []float64 {
	l := []float64{float64(len(p))}
	for _, x := range p {
		l = append(l, x.X0, x.XE, float64(len(x.Coeff)))
		l = append(l, x.Coeff...)
	}
	return l
}

func unflat(l []float64) (p df.PolySequence) {
	l = l[1:]
	for len(l) > 0 {
		n := int(l[2])
		p = append(p, df.PolyPiece{X0: l[0], XE: l[1], Coeff: l[3 : 3+n]})
		l = l[3+n:]
	}
	return p
}

// look asks a result for parts of what it has to say: 1 single primary values, 2 single reactions, 4
// the list of primary values, 8 the list of reactions, 16 curves.
func (w *World) look(op *Op, x *ResultRec, mask int, g *Rng) {
	r := w.run
	sc := newScale(x.ref)
	firstP := func(i df.Index) func() (float64, float64, bool) {
		return func() (float64, float64, bool) { u, ok := x.ref.U[i]; return u, sc.primTol(i), ok }
	}
	firstR := func(i df.Index) func() (float64, float64, bool) {
		return func() (float64, float64, bool) { u, ok := x.ref.R[i]; return u, sc.reacTol(i), ok }
	}
	used := shuffled(g, sortedUsed(x.spec))
	r.count("look")
	for _, part := range g.Perm(5) {
		if mask&(1<<part) == 0 {
			continue
		}
		w.try(op, "querying a result", func() {
			switch part {
			case 0, 1:
				for _, i := range used {
					var v df.NodalValue
					var err error
					k := key('P', i)
					f := firstP(i)
					if part == 0 {
						v, err = x.res.Primary(i)
					} else {
						v, err = x.res.Reaction(i)
						k = key('R', i)
						f = firstR(i)
					}
					if err != nil || v.Index != i {
						r.viol("query-refused", "%v: result %v answers %v for %v: %v", w.at(op), x.id, v, i, err)
						continue
					}
					w.saw(op, x, k, []float64{v.Value}, f)
				}
			case 2, 3:
				l := x.res.PrimaryAll()
				c, name := byte('P'), "listP"
				if part == 3 {
					l = x.res.ReactionAll()
					c, name = 'R', "listR"
				}
				var order []float64
				count := map[df.Index]int{}
				for _, v := range l {
					f := firstP(v.Index)
					if part == 3 {
						f = firstR(v.Index)
					}
					count[v.Index]++
					order = append(order, float64(strHash(v.NodalID)>>12), float64(v.Dof))
					w.saw(op, x, key(c, v.Index), []float64{v.Value}, f)
				}
				for _, i := range used {
					if count[i] != 1 {
						r.viol("list-incomplete", "%v: result %v lists %v/%v %v times", w.at(op), x.id, i.NodalID, i.Dof, count[i])
					}
				}
				if len(count) != len(used) {
					r.viol("list-incomplete", "%v: result %v lists %v values, the structure has %v", w.at(op), x.id, len(count), len(used))
				}
				l = scrawl(g, l, func(v df.NodalValue) df.NodalValue {
					v.Value = -2 * v.Value
					v.NodalID += "?"
					return v
				})
				x.hold(g, func() []float64 {
					var f []float64
					for _, v := range l {
						f = append(f, float64(strHash(v.NodalID)>>12), float64(v.Dof), v.Value)
					}
					return f
				}, name)
				w.saw(op, x, name, order, nil)
				t, n := x.res.Dimension()
				w.saw(op, x, "dim", []float64{float64(t), float64(n)}, nil)
			case 4:
				have := map[string]bool{}
				single := g.P(0.5)
				curve := func(e string, f df.Fct, p df.PolySequence) {
					have[ckey(e, f)] = true
					if x.edited[e] {
						return
					}
					w.saw(op, x, "curve|"+ckey(e, f), flat(p), nil)
					tidy(p, pick(g, 0, 1e-9, 1, 1e300))
					x.keep(g, p)
				}
				if single {
					for i := range x.spec.Elems {
						e := &x.spec.Elems[i]
						for _, f := range elemFcts(e) {
							c, err := x.res.Interpolate(e.ID, f, 0)
							if err != nil {
								r.viol("query-refused", "%v: result %v has no curve %v of %v: %v", w.at(op), x.id, f, e.ID, err)
								continue
							}
							if len(c.Piecewise) == 0 && x.edited[e.ID] {
								have[ckey(e.ID, f)] = true
								continue
							}
							if c.Element != e.ID || c.Quantity != f {
								r.viol("query-mixed-up", "%v: result %v answers with %v of %v for %v of %v", w.at(op), x.id, c.Quantity, c.Element, f, e.ID)
							}
							curve(e.ID, f, c.Piecewise)
						}
					}
				} else {
					for _, c := range x.res.InterpolateAll(0) {
						if x.spec.elem(c.Element) == nil {
							r.viol("list-incomplete", "%v: result %v lists a curve of %v, which its structure does not have", w.at(op), x.id, c.Element)
							continue
						}
						curve(c.Element, c.Quantity, c.Piecewise)
					}
				}
				for i := range x.spec.Elems {
					e := &x.spec.Elems[i]
					for _, f := range elemFcts(e) {
						if !have[ckey(e.ID, f)] && !x.edited[e.ID] {
							r.viol("list-incomplete", "%v: result %v does not list %v of %v", w.at(op), x.id, f, e.ID)
						}
						if !x.edited[e.ID] && x.seen["curve|"+ckey(e.ID, f)] != nil {
							w.firstCurve(op, x, e, f, sc)
						}
					}
				}
			}
		})
	}
}

// firstCurve compares a curve with the reference when it is seen for the first time.
func (w *World) firstCurve(op *Op, x *ResultRec, e *ElemSpec, f df.Fct, sc *Scale) {
	k := "checked|" + ckey(e.ID, f)
	if _, ok := x.seen[k]; ok || !(w.run.checks("first") || w.run.checks("match")) {
		return
	}
	x.seen[k] = []float64{1}
	c := unflat(x.seen["curve|"+ckey(e.ID, f)])
	l := x.spec.length(e)
	if !covers(c, l) {
		w.run.viol("result-wrong", "%v: result %v: curve %v of %v does not cover the member", w.at(op), x.id, f, e.ID)
		return
	}
	tol := sc.curveTol(e.ID, f)
	for _, p := range c {
		for _, t := range []float64{0, 0.4, 1} {
			at := p.X0 + t*(p.XE-p.X0)
			want, _ := x.ref.curve(e, f, at, t == 1)
			if got := evalPiece(p, at); !(math.Abs(got-want) <= tol) {
				w.run.viol("result-wrong", "%v: result %v says %.12g for %v of %v at x=%.6g, right is %.12g (tolerance %.2g)", w.at(op), x.id, got, f, e.ID, at, want, tol)
				return
			}
		}
	}
}

// query asks one question, possibly one that has no answer.
func (w *World) query(op *Op, x *ResultRec) {
	r := w.run
	g := NewRng(op.Seed, 11)
	r.count("query:" + op.Kind)
	w.try(op, "query "+op.Kind, func() {
		var err error
		switch op.Kind {
		case "badnode":
			_, err = x.res.Primary(df.Index{NodalID: "nowhere", Dof: df.Ux})
		case "badnodeR":
			_, err = x.res.Reaction(df.Index{NodalID: "nowhere", Dof: df.Uz})
		case "baddof":
			_, err = x.res.Primary(df.Index{NodalID: x.spec.Elems[0].N0, Dof: df.Phix})
		case "baddofR":
			_, err = x.res.Reaction(df.Index{NodalID: x.spec.Elems[0].N0, Dof: df.Phiz})
		case "badelem":
			_, err = x.res.Interpolate("no such member", df.FctNx, 1e-9)
		case "curve":
			e := &x.spec.Elems[g.N(len(x.spec.Elems))]
			fs := elemFcts(e)
			f := fs[g.N(len(fs))]
			tol := pick(g, 0, 1e-12, 1e-6, 1e-3)
			c, err := x.res.Interpolate(e.ID, f, tol)
			if err != nil {
				r.viol("query-refused", "%v: result %v has no curve %v of %v: %v", w.at(op), x.id, f, e.ID, err)
				return
			}
			if !x.edited[e.ID] {
				w.saw(op, x, fmt.Sprintf("tol%v|%v", tol, ckey(e.ID, f)), flat(c.Piecewise), nil)
			}
			if r.checks("trimmed") && !x.edited[e.ID] && x.snap != nil {
				v := &viols{}
				exact := x.snap.Curves[ckey(e.ID, f)]
				if len(exact) > 0 {
					trimmed(e, f, exact, copyPoly(c.Piecewise), x.spec.length(e), tol, v)
				}
				for _, y := range *v {
					r.viol(y.Class, "%v: %v", w.at(op), y.Detail)
				}
			}
			tidy(c.Piecewise, pick(g, 0, 1e-9, 1, 1e300))
			x.keep(g, c.Piecewise)
			return
		case "all":
			tol := pick(g, 0, 1e-12, 1e-6, 1e-3)
			for _, c := range x.res.InterpolateAll(tol) {
				if !x.edited[c.Element] {
					w.saw(op, x, fmt.Sprintf("tol%v|%v", tol, ckey(c.Element, c.Quantity)), flat(c.Piecewise), nil)
				}
				tidy(c.Piecewise, pick(g, 0, 1e-9, 1, 1e300))
				x.keep(g, c.Piecewise)
			}
			return
		case "none":
			// A quantity the member does not have.
			e := &x.spec.Elems[g.N(len(x.spec.Elems))]
			c, err := x.res.Interpolate(e.ID, df.FctMx, 0)
			if err == nil && len(c.Piecewise) > 0 {
				r.viol("query-mixed-up", "%v: result %v has torsion in %v", w.at(op), x.id, e.ID)
			}
			return
		}
		if strings.HasPrefix(op.Kind, "bad") {
			r.fault["query/"+op.Kind]++
			if err == nil {
				r.viol("query-answered", "%v: result %v answers a question that has no answer (%v)", w.at(op), x.id, op.Kind)
			}
		}
	})
}

// applyCase puts a combination of load cases on the structure and solves: C12.
func (w *World) applyCase(op *Op) {
	r := w.run
	p := w.probs[op.P]
	base := r.plan.Specs[r.plan.Tasks[w.id].Probs[op.P].Spec]
	P := p.b.P
	g := NewRng(op.Seed, 12)

	if p.note == "" {
		p.note = "cases"
	}
	// Take off what is on.
	type onLoad struct {
		e string
		h int
	}
	var off []onLoad
	for i := range p.spec.Elems {
		e := &p.spec.Elems[i]
		seen := map[int]bool{}
		for _, l := range e.Loads {
			if !seen[l.Handle] {
				seen[l.Handle] = true
				off = append(off, onLoad{e.ID, l.Handle})
			}
		}
		e.Loads = nil
	}
	ok := true
	for _, o := range shuffled(g, off) {
		ok = ok && w.try(op, "RemoveLoad", func() { p.b.Elems[o.e].RemoveLoad(p.b.Loads[o.h]) })
	}
	P.Neumann = nil
	p.spec.Nodal = nil
	for i := range p.spec.Dir {
		p.spec.Dir[i].V = 0
	}

	// Put on the new ones.
	type on struct {
		e string
		l LoadSpec
	}
	var loads []on
	vals := map[df.Index]float64{}
	for c, cs := range r.plan.Cases {
		if c >= len(op.W) || op.W[c] == 0 {
			continue
		}
		f := op.W[c]
		for i := range cs.Elems {
			for _, l := range cs.Elems[i].Loads {
				if p.spec.elem(cs.Elems[i].ID) == nil {
					continue
				}
				l.V0 *= f
				l.V1 *= f
				// Factor 1 is the same load object every time.
				l.Handle = l.Handle + 1000*(c+1)
				if f != 1 {
					l.Handle = int(mix(uint64(l.Handle)^math.Float64bits(f)) >> 20)
				}
				loads = append(loads, on{cs.Elems[i].ID, l})
			}
		}
		for _, n := range cs.Nodal {
			P.Neumann = append(P.Neumann, df.NodalValue{Index: n.index(), Value: f * n.V})
			p.spec.Nodal = append(p.spec.Nodal, NVal{n.Node, n.Dof, f * n.V})
		}
		for _, d := range cs.Dir {
			vals[d.index()] += f * d.V
		}
	}
	for _, o := range shuffled(g, loads) {
		x := p.b.load(o.l)
		var got bool
		ok = ok && w.try(op, "AddLoad", func() { got = p.b.Elems[o.e].AddLoad(x) })
		if !got {
			r.count("case load refused")
			ok = false
		}
		p.spec.elem(o.e).Loads = append(p.spec.elem(o.e).Loads, o.l)
	}
	for i := range P.Dirichlet {
		P.Dirichlet[i].Value = vals[P.Dirichlet[i].Index]
	}
	for i := range p.spec.Dir {
		p.spec.Dir[i].V = vals[p.spec.Dir[i].index()]
	}
	if !ok {
		return
	}
	n := len(w.results)
	w.solve(&Op{K: "case", P: op.P, Slot: op.Slot, Strat: op.Strat, Res: op.Res, Seed: op.Seed, Fault: op.Fault, Lay: op.Lay})
	if len(w.results) > n {
		w.results[n].w = op.W
	}
	_ = base
}

// superposition relates all results of a run.
func (w *World) superposition() {
	r := w.run
	unit := map[int][]*ResultRec{}
	for _, x := range w.results {
		if x.w == nil || x.snap == nil {
			continue
		}
		n, last := 0, 0
		for i, f := range x.w {
			if f != 0 {
				n++
				last = i
			}
		}
		if n == 1 && x.w[last] == 1 {
			unit[last] = append(unit[last], x)
		}
	}
	for _, x := range w.results {
		if x.w == nil || x.snap == nil {
			continue
		}
		var terms []*ResultRec
		var fac []float64
		complete := true
		for i, f := range x.w {
			if f == 0 {
				continue
			}
			if len(unit[i]) == 0 {
				complete = false
				continue
			}
			terms = append(terms, unit[i][0])
			fac = append(fac, f)
		}
		if !complete || len(terms) == 1 && terms[0] == x {
			continue
		}
		sc := newScale(x.ref)
		for i, t := range terms {
			sc = sc.plus(newScale(t.ref), fac[i])
		}
		if len(terms) == 0 {
			// Magnitudes to compare zero with: those of the other results.
			for _, k := range sortedKeys(unit) {
				sc = sc.plus(newScale(unit[k][0].ref), 1e-3)
			}
			r.count("zero case")
		}
		r.count("combination")
		what := fmt.Sprintf("result %v for the combination %v", x.id, x.w)
		for _, i := range x.snap.OrderP {
			p, q := 0.0, 0.0
			for n, t := range terms {
				p += fac[n] * t.snap.Prim[i]
				q += fac[n] * t.snap.Reac[i]
			}
			if d := math.Abs(p - x.snap.Prim[i]); !(d <= 2*sc.primTol(i)) {
				r.viol("superposition", "%v: %v/%v is %.10g, the sum of the cases is %.10g", what, i.NodalID, i.Dof, x.snap.Prim[i], p)
			}
			if d := math.Abs(q - x.snap.Reac[i]); !(d <= 2*sc.reacTol(i)) {
				r.viol("superposition", "%v: reaction %v/%v is %.10g, the sum of the cases is %.10g", what, i.NodalID, i.Dof, x.snap.Reac[i], q)
			}
		}
		for i := range x.spec.Elems {
			e := &x.spec.Elems[i]
			l := x.spec.length(e)
			for _, f := range elemFcts(e) {
				k := ckey(e.ID, f)
				var xs []float64
				all := append([]*ResultRec{x}, terms...)
				bad := false
				for _, t := range all {
					c := t.snap.Curves[k]
					if !covers(c, l) {
						r.viol("superposition", "%v: curve %v of %v missing or incomplete in result %v", what, f, e.ID, t.id)
						bad = true
						break
					}
					for _, p := range c {
						xs = append(xs, p.X0, p.XE)
					}
				}
				if bad {
					continue
				}
				xs = uniq(xs, 1e-9*math.Max(1, l))
				tol := 2 * sc.curveTol(e.ID, f)
			points:
				for n := 0; n+1 < len(xs); n++ {
					for _, t := range []float64{0, 0.37, 1} {
						at0 := xs[n] + t*(xs[n+1]-xs[n])
						sum := 0.0
						for m, y := range terms {
							sum += fac[m] * at(y.snap.Curves[k], at0, t == 1)
						}
						if got := at(x.snap.Curves[k], at0, t == 1); !(math.Abs(got-sum) <= tol) {
							r.viol("superposition", "%v: %v of %v at x=%.6g is %.10g, the sum of the cases is %.10g (tolerance %.2g)", what, f, e.ID, at0, got, sum, tol)
							break points
						}
					}
				}
			}
		}
	}
}
