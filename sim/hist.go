package main

import (
	"fmt"
	"sort"

	df "github.com/lubgr/deflect/deflect"
)

// hgen generates the history of one caller.
type hgen struct {
	r       *Rng
	prop    string
	specs   []*Spec
	refs    []ProbRef
	ops     []Op
	handle  int
	known   [][]LoadSpec // per problem: loads that exist
	nextRes int
	res     []int
	resProb map[int]int
	layouts map[int]*Spec
	newElem int
	factor  float64
	shared  bool
}

func (h *hgen) spec(p int) *Spec { return h.specs[p] }

// good tells if the problem is well-posed, comfortably.
func good(s *Spec) bool {
	if !s.wellFormed() {
		return false
	}
	ref := solveRef(s)
	return sound(ref)
}

// try appends the step if it leaves a well-posed problem behind.
func (h *hgen) try(op Op) bool {
	c := h.specs[op.P].clone()
	if h.refs[op.P].How == "doc" {
		switch op.K {
		case "link-", "move", "mat=", "clear":
			return false
		case "rmload":
			if op.Load.Handle < firstHandle {
				return false
			}
		}
	}
	if h.refs[op.P].Share > 0 && (op.K == "move" || op.K == "mat=") {
		return false
	}
	if !apply(c, &op) || !good(c) {
		return false
	}
	h.specs[op.P] = c
	h.ops = append(h.ops, op)
	return true
}

func (h *hgen) addLoad(p int, elem string) bool {
	s := h.spec(p)
	e := s.elem(elem)
	if e == nil || len(e.Loads) > 8 {
		return false
	}
	h.handle++
	l := genLoad(h.r, s, e, h.handle)
	l.V0 *= h.factor
	l.V1 *= h.factor
	kind := "fitting"
	if len(e.Loads) > 0 && h.r.P(0.15) {
		// Another load that looks like one that is there.
		l = e.Loads[h.r.N(len(e.Loads))]
		l.Handle = h.handle
	} else if h.r.P(0.12) {
		switch h.r.N(5) {
		case 0:
			l.Dof, kind = df.Uy, "sideways"
		case 1:
			l.Degree, l.Pos, l.Dof, kind = "dirac", s.length(e)*(1+pick(h.r, 0.001, 0.2, 3.0)), df.Ux, "beyond the end"
		case 2:
			l.Dof, kind = df.Phiz, "other axis"
		case 3:
			l.Degree, l.Pos, l.V1, l.Dof, kind = "constant", 0, 0, df.Phiy, "distributed moment"
		case 4:
			l.Dof, kind = df.Uz, "across"
			if l.Degree != "dirac" {
				l.Pos = 0
			}
		}
	}
	if !h.try(Op{K: "addload", P: p, A: elem, Load: &l, Kind: kind}) {
		return false
	}
	h.known[p] = append(h.known[p], l)
	return true
}

func (h *hgen) edit(p int) bool {
	r := h.r
	s := h.spec(p)
	elem := s.Elems[r.N(len(s.Elems))].ID
	type choice struct {
		w  int
		do func() bool
	}
	load, sup, str := 3, 2, 2
	switch h.prop {
	case "C08":
		load, sup, str = 12, 0, 1
	case "C13":
		load, sup, str = 1, 10, 1
	case "C11":
		load, sup, str = 8, 2, 1
	case "C09":
		load, sup, str = 1, 5, 6
	}
	mv := 1
	if h.prop == "C05" {
		mv = 0
	}
	choices := []choice{
		{3 * load, func() bool { return h.addLoad(p, elem) }},
		{load, func() bool { // an existing load once more, here or elsewhere
			if len(h.known[p]) == 0 {
				return false
			}
			l := h.known[p][r.N(len(h.known[p]))]
			e := s.elem(elem)
			if len(e.Loads) > 8 {
				return false
			}
			return h.try(Op{K: "addload", P: p, A: elem, Load: &l, Kind: "existing"})
		}},
		{2 * load, func() bool { // take off
			e := s.elem(elem)
			for i := 0; i < 5 && len(e.Loads) == 0; i++ {
				e = &s.Elems[r.N(len(s.Elems))]
			}
			if len(e.Loads) == 0 || r.P(0.2) {
				if len(h.known[p]) == 0 {
					return false
				}
				l := h.known[p][r.N(len(h.known[p]))]
				return h.try(Op{K: "rmload", P: p, A: e.ID, Load: &l})
			}
			l := e.Loads[r.N(len(e.Loads))]
			return h.try(Op{K: "rmload", P: p, A: e.ID, Load: &l})
		}},
		{load, func() bool {
			return h.try(Op{K: "badload", P: p, A: elem, Kind: pick(r, "nil", "foreign", "foreignvalue", "string", "number", "beyond", "beyondz", "far")})
		}},
		{load, func() bool { // a load that would fit, were the member not too short for the moment
			if h.prop == "C05" || h.refs[p].How != "api" || h.refs[p].Share > 0 {
				return false
			}
			e := s.elem(elem)
			var fits []LoadSpec
			for _, l := range append(append([]LoadSpec{}, e.Loads...), h.known[p]...) {
				if l.Degree == "dirac" && l.Pos > 0 && s.accepts(e, l) {
					fits = append(fits, l)
				}
			}
			if len(fits) == 0 {
				return false
			}
			l := fits[r.N(min(len(fits), 1+len(e.Loads)))]
			return h.try(Op{K: "badload", P: p, A: elem, Load: &l, V: pick(r, 0.5, 0.9, 0.999), Mask: r.N(2), Kind: "short"})
		}},
		{2, func() bool {
			n := genNodal(r, s, h.factor)
			return h.try(Op{K: "nodal+", P: p, NV: &n})
		}},
		{1, func() bool {
			if len(s.Nodal) == 0 {
				return false
			}
			n := s.Nodal[r.N(len(s.Nodal))]
			return h.try(Op{K: "nodal-", P: p, NV: &n, Mask: r.N(2)})
		}},
		{1, func() bool {
			if len(s.Nodal) == 0 {
				return false
			}
			n := s.Nodal[r.N(len(s.Nodal))]
			return h.try(Op{K: "nodal=", P: p, NV: &n, V: n.V * pick(r, -1, 2, 0, 0.5)})
		}},
		{2 * sup, func() bool {
			if len(s.Dir) == 0 {
				return false
			}
			d := s.Dir[r.N(len(s.Dir))]
			v := genSettle(r, s, d.Dof)
			if d.V != 0 && r.P(0.5) {
				v = 0
			}
			return h.try(Op{K: "dir=", P: p, NV: &d, V: v})
		}},
		{sup, func() bool {
			if len(s.Dir) == 0 {
				return false
			}
			d := s.Dir[r.N(len(s.Dir))]
			return h.try(Op{K: "dir-", P: p, NV: &d, Mask: r.N(2)})
		}},
		{sup, func() bool {
			l := sortedUsed(s)
			i := l[r.N(len(l))]
			if s.supported()[i] > 0 || linked(s, i.NodalID, i.Dof) {
				return false
			}
			d := NVal{i.NodalID, i.Dof, 0}
			if r.P(0.3) {
				d.V = genSettle(r, s, i.Dof)
			}
			return h.try(Op{K: "dir+", P: p, NV: &d})
		}},
		{sup, func() bool {
			n := s.Nodes[r.N(len(s.Nodes))].ID
			used := s.used()
			var tr []df.Dof
			for _, d := range []df.Dof{df.Ux, df.Uz, df.Uy} {
				if used[df.Index{NodalID: n, Dof: d}] && s.supported()[df.Index{NodalID: n, Dof: d}] == 0 && !linked(s, n, d) {
					tr = append(tr, d)
				}
			}
			if len(tr) < 2 {
				return false
			}
			q := r.Perm(len(tr))
			l := LinkSpec{Node: n, From: tr[q[0]], To: tr[q[1]], Angle: genAngle(r)}
			return h.try(Op{K: "link+", P: p, Link: &l})
		}},
		{sup, func() bool {
			if len(s.Links) == 0 {
				return false
			}
			l := s.Links[r.N(len(s.Links))]
			return h.try(Op{K: "link-", P: p, Link: &l, Mask: r.N(2)})
		}},
		{str, func() bool {
			return len(s.Elems) > 1 && h.try(Op{K: "elem-", P: p, A: elem, Mask: r.N(2)})
		}},
		{str, func() bool { return h.addElem(p) }},
		{str, func() bool { // another member in the same place
			e := *s.elem(elem)
			e.Loads = nil
			switch r.N(3) {
			case 0:
				e.N0, e.N1 = e.N1, e.N0
				for i := range e.Hinges {
					e.Hinges[i].End = 1 - e.Hinges[i].End
				}
			case 1:
				e.Hinges = genElemHinges(r, &e)
			case 2:
				e.Mat = r.N(len(s.Mats))
				if e.Kind == "truss2d" && r.P(0.5) {
					e.Kind, e.Hinges = "frame2d", nil
				} else if e.Kind == "frame2d" && r.P(0.3) {
					e.Kind, e.Hinges = "truss2d", nil
				}
			}
			return h.try(Op{K: "elem~", P: p, Elem: &e, Mask: r.N(2)})
		}},
		{mv, func() bool {
			n := s.Nodes[r.N(len(s.Nodes))]
			f := 0.2 * s.size()
			n.X, n.Z = round(n.X+r.Fin(-f, f), 4), round(n.Z+r.Fin(-f, f), 4)
			// Loads must stay on their members.
			c := s.clone()
			op := Op{K: "move", P: p, Node: &n}
			if !apply(c, &op) {
				return false
			}
			for i := range c.Elems {
				for _, l := range c.Elems[i].Loads {
					if l.Pos > c.length(&c.Elems[i])*0.999 {
						return false
					}
				}
			}
			return h.try(op)
		}},
		{mv, func() bool {
			i := r.N(len(s.Mats))
			m := s.Mats[i]
			if r.P(0.5) {
				m.E *= pick(r, 0.5, 2, 3)
			} else {
				n := genMat(r)
				n.E = m.E
				m = n
			}
			return h.try(Op{K: "mat=", P: p, Slot: i, Mat: &m})
		}},
		{1, func() bool { h.ops = append(h.ops, Op{K: "reorder", P: p, Seed: r.U64()}); return true }},
		{1, func() bool { return r.P(0.3) && h.try(Op{K: "clear", P: p}) }},
	}
	sum := 0
	for _, c := range choices {
		sum += c.w
	}
	for try := 0; try < 6; try++ {
		x := r.N(sum)
		for _, c := range choices {
			if x < c.w {
				if c.do() {
					return true
				}
				break
			}
			x -= c.w
		}
	}
	return false
}

func (h *hgen) addElem(p int) bool {
	r := h.r
	s := h.spec(p)
	if len(s.Elems) > 14 {
		return false
	}
	h.newElem++
	e := ElemSpec{ID: fmt.Sprintf("neu%d", h.newElem), Kind: s.Elems[r.N(len(s.Elems))].Kind, Mat: r.N(len(s.Mats))}
	if e.isFrame() && r.P(0.5) || r.P(0.1) && s.planar() {
		// at the end of a new node
		if e.Kind == "truss2d" {
			e.Kind = "frame2d"
		}
		from := s.Nodes[r.N(len(s.Nodes))]
		l := s.size()
		n := NodeSpec{ID: fmt.Sprintf("N%d", h.newElem), X: round(from.X+l*r.Fin(0.3, 1)*r.Sign(), 4), Y: from.Y, Z: round(from.Z+l*r.Fin(-1, 1), 4)}
		if s.node(n.ID) != nil {
			return false
		}
		e.N0, e.N1 = from.ID, n.ID
		if r.P(0.5) {
			e.N0, e.N1 = e.N1, e.N0
		}
		return h.try(Op{K: "elem+", P: p, Elem: &e, Node: &n})
	}
	q := r.Perm(len(s.Nodes))
	e.N0, e.N1 = s.Nodes[q[0]].ID, s.Nodes[q[1%len(q)]].ID
	if e.N0 == e.N1 || s.length(&e) < 0.05*s.size() {
		return false
	}
	if r.P(0.3) {
		e.Hinges = genElemHinges(r, &e)
	}
	return h.try(Op{K: "elem+", P: p, Elem: &e})
}

// spoil makes the problem one that has no solution and returns the steps that undo this.
func (h *hgen) spoil(p int) ([]Op, bool) {
	n := len(h.ops)
	undo, ok := h.spoil1(p)
	for i := n; i < len(h.ops); i++ {
		h.ops[i].Bad = true
	}
	for i := range undo {
		undo[i].Bad = true
	}
	return undo, ok
}

// many is how often a mistake is made: mostly once, sometimes a round number of times.
func many(r *Rng) int {
	if r.P(0.75) {
		return 1
	}
	return pick(r, 2, 3, 4, 5, 6, 8, 16, 32)
}

// spoil1 makes the problem one that has no solution and returns the steps that undo this.
func (h *hgen) spoil1(p int) (undo []Op, ok bool) {
	r := h.r
	s := h.spec(p)
	do := func(op Op) { h.ops = append(h.ops, op) }
	bad := pick(r, "nirgends", "A9", s.Nodes[0].ID+"x", s.Nodes[0].ID+" ")
	for s.node(bad) != nil {
		bad += "?"
	}
	node := s.Nodes[r.N(len(s.Nodes))].ID
	foreign := h.refs[p].How == "doc"
	switch r.N(10) {
	case 0: // load on a node that is not there
		n := NVal{bad, df.Ux, 10}
		for range many(r) {
			do(Op{K: "nodal+", P: p, NV: &n})
			undo = append(undo, Op{K: "nodal-", P: p, NV: &n})
		}
		return undo, true
	case 1: // load on a degree of freedom that is not there
		n := NVal{node, df.Phix, 10}
		for range many(r) {
			do(Op{K: "nodal+", P: p, NV: &n})
			undo = append(undo, Op{K: "nodal-", P: p, NV: &n})
		}
		return undo, true
	case 2:
		n := NVal{bad, df.Uz, 0}
		do(Op{K: "dir+", P: p, NV: &n})
		return []Op{{K: "dir-", P: p, NV: &n}}, true
	case 3:
		n := NVal{node, df.Phiz, 0}
		do(Op{K: "dir+", P: p, NV: &n})
		return []Op{{K: "dir-", P: p, NV: &n}}, true
	case 4: // a support given twice
		if len(s.Dir) == 0 {
			return nil, false
		}
		n := s.Dir[r.N(len(s.Dir))]
		do(Op{K: "dir+", P: p, NV: &n})
		// Taking off the first of the two leaves the other.
		return []Op{{K: "dir-", P: p, NV: &n}}, true
	case 5: // an inclined support in directions that are not there
		if foreign {
			return nil, false
		}
		var l LinkSpec
		used := s.used()
		sup := s.supported()
		for _, n := range s.Nodes {
			i, j := df.Index{NodalID: n.ID, Dof: df.Uy}, df.Index{NodalID: n.ID, Dof: df.Ux}
			if !used[i] && used[j] && sup[j] == 0 && !linked(s, n.ID, df.Ux) {
				l = LinkSpec{Node: n.ID, From: df.Uy, To: df.Ux, Angle: pick(r, 0, 0.3, genAngle(r))}
			}
		}
		if l.Node == "" || r.P(0.2) {
			l = LinkSpec{Node: bad, From: df.Ux, To: df.Uz, Angle: pick(r, 0, 0.3)}
		}
		do(Op{K: "link+", P: p, Link: &l})
		return []Op{{K: "link-", P: p, Link: &l}}, true
	case 6: // a bar sticking out, free to swing
		if foreign || !s.planar() {
			return nil, false
		}
		from := s.Nodes[r.N(len(s.Nodes))]
		h.newElem++
		n := NodeSpec{ID: fmt.Sprintf("N%d", h.newElem), X: from.X + s.size(), Y: from.Y, Z: from.Z}
		e := ElemSpec{ID: fmt.Sprintf("neu%d", h.newElem), Kind: "truss2d", N0: from.ID, N1: n.ID}
		if s.node(n.ID) != nil {
			return nil, false
		}
		op := Op{K: "elem+", P: p, Elem: &e, Node: &n}
		// The node stays in the list afterwards, without a member.
		apply(h.specs[p], &op)
		h.specs[p].Elems = h.specs[p].Elems[:len(h.specs[p].Elems)-1]
		do(op)
		return []Op{{K: "elem-", P: p, A: e.ID}}, true
	case 8: // no supports at all
		if foreign && len(s.Links) > 0 {
			return nil, false
		}
		for _, n := range s.Dir {
			do(Op{K: "dir-", P: p, NV: &n, Mask: r.N(2)})
			undo = append(undo, Op{K: "dir+", P: p, NV: &n})
		}
		for i := len(s.Links) - 1; i >= 0; i-- {
			do(Op{K: "link-", P: p, Link: &s.Links[i], Mask: r.N(2)})
		}
		for i := range s.Links {
			undo = append(undo, Op{K: "link+", P: p, Link: &s.Links[i]})
		}
		return undo, true
	case 9: // supports everywhere
		used, sup := s.used(), s.supported()
		for i := range used {
			if sup[i] == 0 {
				undo = append(undo, Op{K: "dir-", P: p, NV: &NVal{i.NodalID, i.Dof, 0}})
			}
		}
		sort.Slice(undo, func(a, b int) bool { return lessIndex(undo[a].NV.index(), undo[b].NV.index()) })
		for _, u := range undo {
			do(Op{K: "dir+", P: p, NV: u.NV})
		}
		return undo, true
	case 7: // loads or supports left behind by a member that is gone
		if len(s.Elems) < 2 {
			return nil, false
		}
		for try := 0; try < 4; try++ {
			e := s.Elems[r.N(len(s.Elems))]
			c := s.clone()
			op := Op{K: "elem-", P: p, A: e.ID, Mask: r.N(2)}
			apply(c, &op)
			if !c.wellFormed() {
				back := e
				back.Loads = nil
				do(op)
				undo = []Op{{K: "elem+", P: p, Elem: &back}}
				// The new member does not carry the loads of the old one.
				apply(h.specs[p], &op)
				apply(h.specs[p], &undo[0])
				return undo, good(h.specs[p])
			}
		}
	}
	return nil, false
}

var strategyModes = []string{"error", "error", "panic", "partial", "garbage", "late", "runtime", "singular"}

func (h *hgen) fault(p int) *Fault {
	r := h.r
	f := &Fault{Nth: 1}
	sites := []string{"strategy", "strategy"}
	if h.refs[p].Seams {
		sites = append(sites, "assemble", "section", "assemble")
		if len(h.spec(p).Links) > 0 {
			sites = append(sites, "pre", "post", "post")
		}
	}
	f.Site = pick(r, sites...)
	s := h.spec(p)
	switch f.Site {
	case "strategy":
		f.Mode = strategyModes[r.N(len(strategyModes))]
	case "assemble":
		f.Mode = pick(r, "panic", "late", "garbage", "runtime")
		f.Nth = 1 + r.N(len(s.Elems))
	case "section":
		f.Mode = pick(r, "panic", "runtime")
		f.Nth = 1 + r.N(2*len(s.Elems))
	default:
		f.Mode = pick(r, "panic", "late", "runtime", "garbage")
		f.Nth = 1 + r.N(len(s.Links))
	}
	return f
}

func (h *hgen) solve(p int, lay int, f *Fault) *Op {
	r := h.r
	h.nextRes++
	op := Op{K: "solve", P: p, Slot: pick(r, 0, 1, 1, 1, 2), Lay: lay, Fault: f, Res: h.nextRes, Seed: r.U64(),
		Strat: pick(r, "plain", "plain", "lib", "lib", "fresh", "lu", "scaled")}
	if f != nil {
		op.Strat = pick(r, "lib", "lib", "fresh")
	}
	if h.prop == "C05" || h.prop == "C06" {
		op.Mask = pick(r, 31, 31, r.N(32), 3, 12, 16)
		if r.P(0.15) {
			op.Mask = 32
		}
	}
	if f == nil {
		h.res = append(h.res, h.nextRes)
		h.resProb[h.nextRes] = p
	}
	h.ops = append(h.ops, op)
	return &h.ops[len(h.ops)-1]
}

func (h *hgen) query() {
	r := h.r
	if len(h.res) == 0 {
		return
	}
	id := h.res[r.N(len(h.res))]
	if r.P(0.5) {
		h.ops = append(h.ops, Op{K: "look", Res: id, Mask: pick(r, 31, r.N(32), 1, 2, 4, 8, 16), Seed: r.U64()})
		return
	}
	h.ops = append(h.ops, Op{K: "query", Res: id, Seed: r.U64(),
		Kind: pick(r, "badnode", "badnodeR", "baddof", "baddofR", "badelem", "curve", "curve", "all", "none")})
}

// firstHandle is where the numbers of loads added later start.
const firstHandle = 100_000

func newHgen(r *Rng, prop string) *hgen {
	return &hgen{r: r, prop: prop, layouts: map[int]*Spec{}, resProb: map[int]int{}, handle: firstHandle, factor: pick(r, loadScale...)}
}

func (h *hgen) addProblem(s *Spec, ref ProbRef) {
	h.specs = append(h.specs, s.clone())
	h.refs = append(h.refs, ref)
	var k []LoadSpec
	if ref.How == "api" {
		for i := range s.Elems {
			k = append(k, s.Elems[i].Loads...)
		}
	}
	h.known = append(h.known, k)
}

// genHistory is a history of one caller with one or more problems.
func genHistory(r *Rng, prop string, long bool) *Plan {
	plan := &Plan{Scenario: "history"}
	n := pick(r, 1, 1, 2, 2, 3)
	h := newHgen(r, prop)
	o := GenOpts{}
	switch prop {
	case "C13":
		o.WantSettle = r.P(0.7)
		o.WantLink = r.P(0.6)
	case "C11":
		o.WantHinge = r.P(0.6)
	case "C06", "C10":
		o.WantLink = r.P(0.4)
	}
	marathon := r.P(0.003) // very many steps with very small structures
	for i := 0; i < n; i++ {
		oo := o
		oo.MaxElems = pick(r, 2, 3, 5, 5, 8)
		if r.P(0.03) {
			oo.MaxElems = 20
		}
		oo.Large = i == 0 && r.P(0.002)
		if marathon {
			oo.MaxElems, oo.Large = pick(r, 1, 2), false
		}
		ref := ProbRef{Spec: i, How: "api", Seams: r.P(0.7) || prop == "C06", Wipe: r.P(0.3)}
		if prop != "C08" && r.P(0.1) {
			ref.How, ref.Seed, ref.Seams = "doc", r.U64(), false
			oo.JSON = true
		} else if r.P(0.2) {
			ref.Seed = r.U64()
		}
		var s *Spec
		if i > 0 && r.P(0.4) {
			s = sibling(r, plan.Specs[r.N(i)], oo.JSON)
		}
		if s == nil {
			s = genSpec(r, oo)
		}
		plan.Specs = append(plan.Specs, s)
		h.addProblem(s, ref)
	}

	steps := r.In(3, 14)
	if long {
		steps = r.In(5, 40)
	}
	if marathon {
		steps = r.In(60, 700)
	}
	pf := 0.0
	switch prop {
	case "C06":
		pf = 0.5
	case "C09", "C04", "C05":
		pf = 0.12
	case "C10", "C13", "C08":
		pf = 0.06
	}
	pe := pick(r, 0.3, 0.6, 0.9)
	solveOne := func(p int) {
		if r.P(pf) {
			h.solve(p, 0, h.fault(p))
			if r.P(0.3) {
				h.solve(p, 0, h.fault(p))
			}
		}
		lay := 0
		if prop == "C09" && r.P(0.75) && len(h.layouts) > 0 {
			lay = 1 + r.N(3)
		}
		h.solve(p, lay, nil)
		if lay > 0 && r.P(0.3) {
			h.solve(p, 0, nil)
		}
	}
	for i := 0; i < steps; i++ {
		p := r.N(n)
		switch prop {
		case "C09":
			if r.P(0.3) || i == 0 {
				lay := 1 + r.N(3)
				h.ops = append(h.ops, Op{K: "layout", P: p, Lay: lay})
				h.layouts[lay] = h.spec(p)
			}
			if r.P(0.1) {
				lay := 0
				if len(h.layouts) > 0 && r.P(0.7) {
					lay = 1 + r.N(3)
				}
				if undo, ok := h.spoil(p); ok || undo != nil {
					h.solve(p, lay, nil).Bad = true
					h.ops = append(h.ops, undo...)
				}
			}
		case "C06":
			if r.P(0.1) {
				h.ops = append(h.ops, Op{K: "mechanism", Bad: true, Slot: r.N(len(plan.Specs)), Seed: r.U64(), Mask: r.N(4)})
			}
			if r.P(0.35) {
				if undo, _ := h.spoil(p); undo != nil {
					h.solve(p, 0, nil).Bad = true
					if r.P(0.2) {
						h.solve(p, 0, h.fault(p))
					}
					h.ops = append(h.ops, undo...)
				}
			}
		case "C04":
			if r.P(0.06) {
				if undo, _ := h.spoil(p); undo != nil {
					h.solve(p, 0, nil).Bad = true
					h.ops = append(h.ops, undo...)
				}
			}
		}
		if r.P(pe) {
			for k := pick(r, 1, 1, 2, 4); k > 0; k-- {
				h.edit(p)
			}
		}
		if prop == "C05" && r.P(0.6) || (prop == "C06" || prop == "C11" || prop == "C04") && r.P(0.25) {
			for k := r.In(1, 4); k > 0; k-- {
				h.query()
			}
		}
		if r.P(0.75) || i == steps-1 {
			solveOne(p)
		}
	}
	switch prop {
	case "C05", "C06":
		h.ops = append(h.ops, Op{K: "look", Mask: 31, Seed: r.U64()})
	case "C11":
		for k := 0; k < 3; k++ {
			h.query()
		}
	}
	plan.Tasks = []TaskPlan{{Probs: h.refs, Ops: h.ops}}
	return plan
}

// sibling is a problem that has much in common with another one: it is mirrored, or differs in materials,
// names, loads, supports or hinges only. nil if nothing came of it.
func sibling(r *Rng, of *Spec, json bool) *Spec {
	s := of.clone()
	if json {
		for i := range s.Elems {
			if s.Elems[i].Kind == "frame3d" {
				return nil
			}
		}
	}
	switch r.N(8) {
	case 0:
		for i := range s.Nodes {
			s.Nodes[i].X = -s.Nodes[i].X
		}
	case 1:
		for i := range s.Nodes {
			s.Nodes[i].Z = -s.Nodes[i].Z
		}
	case 2:
		for i := range s.Mats {
			s.Mats[i].E *= pick(r, 0.5, 2, 1)
		}
		if n := len(s.Mats); n > 1 {
			for i := range s.Elems {
				s.Elems[i].Mat = (s.Elems[i].Mat + 1) % n
			}
		}
	case 3: // names of nodes change places
		q := r.Perm(len(s.Nodes))
		for i := range s.Nodes {
			n := of.Nodes[q[i]]
			s.Nodes[i].X, s.Nodes[i].Y, s.Nodes[i].Z = n.X, n.Y, n.Z
		}
		for i := range s.Elems {
			s.Elems[i].Loads = nil
			if s.length(&s.Elems[i]) < 0.05*s.size() {
				return nil
			}
		}
	case 4: // members run the other way
		for i := range s.Elems {
			e := &s.Elems[i]
			e.N0, e.N1 = e.N1, e.N0
			for j := range e.Hinges {
				e.Hinges[j].End = 1 - e.Hinges[j].End
			}
		}
	case 5: // loads change signs
		f := pick(r, 1.0, -1)
		for i := range s.Elems {
			for j := range s.Elems[i].Loads {
				l := &s.Elems[i].Loads[j]
				l.V0, l.V1 = -l.V0, f*l.V1
			}
		}
		for i := range s.Nodal {
			s.Nodal[i].V *= pick(r, 1.0, -1)
		}
	case 6: // hinges change places
		for i := range s.Elems {
			if s.Elems[i].Hinges != nil {
				s.Elems[i].Hinges = genElemHinges(r, &s.Elems[i])
			}
		}
	case 7: // supports give way
		for i := range s.Dir {
			s.Dir[i].V = genSettle(r, s, s.Dir[i].Dof)
		}
	}
	for i := range s.Elems {
		for _, l := range s.Elems[i].Loads {
			if !s.accepts(&s.Elems[i], l) {
				return nil
			}
		}
	}
	if !good(s) {
		return nil
	}
	return s
}

// genCases is C12: load cases on one structure.
func genCases(r *Rng) *Plan {
	plan := &Plan{Scenario: "load cases"}
	base := genSpec(r, GenOpts{NoLoads: true, NoSettle: true, MaxElems: pick(r, 2, 4, 6), WantHinge: r.P(0.3), WantLink: r.P(0.3)})
	plan.Specs = []*Spec{base}
	n := r.In(1, 3)
	f := pick(r, loadScale...)
	for c := 0; c < n; c++ {
		cs := base.clone()
		switch r.N(3) {
		case 0, 1:
			genLoads(r, cs, GenOpts{})
			if r.P(0.4) {
				for i := range cs.Dir {
					if r.P(0.5) {
						cs.Dir[i].V = genSettle(r, cs, cs.Dir[i].Dof)
					}
				}
			}
		case 2:
			for i := range cs.Dir {
				if r.P(0.6) {
					cs.Dir[i].V = genSettle(r, cs, cs.Dir[i].Dof)
				}
			}
			cs.Nodal = append(cs.Nodal, genNodal(r, cs, f))
		}
		plan.Cases = append(plan.Cases, cs)
	}
	var todo [][]float64
	for c := 0; c < n; c++ {
		w := make([]float64, n)
		w[c] = 1
		todo = append(todo, w)
	}
	combos := r.In(1, 4)
	if r.P(0.003) {
		combos = r.In(30, 300)
	}
	for ; combos > 0; combos-- {
		w := make([]float64, n)
		for c := range w {
			w[c] = pick(r, 1, 1, 2, -1, 0, 0.5, round(r.Fin(-3, 3), 2))
		}
		todo = append(todo, w)
	}
	if r.P(0.5) {
		todo = append(todo, make([]float64, n))
	}
	if r.P(0.4) {
		w := make([]float64, n)
		w[r.N(n)] = 1
		todo = append(todo, w)
	}
	t := TaskPlan{Probs: []ProbRef{{Spec: 0, How: "api", Seams: true, Wipe: r.P(0.2)}}}
	if r.P(0.3) {
		// The same structure a second time.
		t.Probs = append(t.Probs, ProbRef{Spec: 0, How: "api", Seed: r.U64() | 1})
	}
	for i, k := range r.Perm(len(todo)) {
		op := Op{K: "case", P: r.N(len(t.Probs)), W: todo[k], Slot: pick(r, 0, 1, 1, 2), Res: i + 1, Seed: r.U64(), Strat: pick(r, "plain", "lib", "lib", "lu", "scaled")}
		if r.P(0.08) {
			op.Fault = &Fault{Site: pick(r, "strategy", "assemble"), Mode: "panic", Nth: 1}
			op.Strat = "lib"
			t.Ops = append(t.Ops, op)
			op.Fault = nil
		}
		t.Ops = append(t.Ops, op)
	}
	plan.Tasks = []TaskPlan{t}
	return plan
}
