package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"maps"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	df "github.com/lubgr/deflect/deflect"
	"github.com/lubgr/deflect/verifrt"
	"gonum.org/v1/gonum/mat"
)

func sortIdx(l []df.Index) {
	sort.Slice(l, func(i, j int) bool { return lessIndex(l[i], l[j]) })
}

// Fault is what goes wrong in one solve: at the nth call that goes through the given seam.
type Fault struct {
	Site string `json:"site"` // strategy, assemble, section, pre, post
	Mode string `json:"mode"` // error, panic, partial, garbage, late, runtime, stall
	Nth  int    `json:"nth"`
}

// Ctl carries the fault for the calls a task makes through the seams.
type Ctl struct {
	fault *Fault
	calls map[string]int
	took  bool // the fault has happened
	// Called when a seam is passed, whatever it is.
	onSeam func(site string)
}

var errInjected = errors.New("injected failure")

type injected struct{ site string }

func newCtl() *Ctl { return &Ctl{calls: map[string]int{}} }

func (c *Ctl) arm(f *Fault) { c.fault = f; c.calls = map[string]int{} }

// hit counts the call and tells if the fault happens now.
func (c *Ctl) hit(site string) bool {
	if c == nil {
		return false
	}
	verifrt.Yield(-100)
	if c.onSeam != nil {
		c.onSeam(site)
	}
	if c.fault == nil || c.fault.Site != site {
		return false
	}
	c.calls[site]++
	if c.calls[site] != c.fault.Nth {
		return false
	}
	c.took = true
	return true
}

func (c *Ctl) fail(site string) {
	switch c.fault.Mode {
	case "runtime":
		var m map[string]int
		m["x"] = 1 // a genuine run-time panic
	case "stall":
		if active != nil {
			active.stall()
		}
	case "stallpanic":
		if active != nil {
			active.stall()
		}
		panic(injected{site})
	default:
		panic(injected{site})
	}
}

// seamCS is a user-supplied cross section.
type seamCS struct {
	df.CrossSection
	ctl func() *Ctl
}

func (c *seamCS) Area() float64 {
	if k := c.ctl(); k.hit("section") {
		k.fail("section")
	}
	return c.CrossSection.Area()
}

func (c *seamCS) Iyy() float64 {
	if k := c.ctl(); k.hit("section") {
		k.fail("section")
	}
	return c.CrossSection.Iyy()
}

// seamElem is a user-supplied element that delegates to the library's.
type seamElem struct {
	df.Element
	ctl func() *Ctl
}

func (e *seamElem) Assemble(indices df.EqLayout, k *mat.SymDense, r, d *mat.VecDense) {
	c := e.ctl()
	hit := c.hit("assemble")
	if hit && (c.fault.Mode == "late" || c.fault.Mode == "garbage") {
		e.Element.Assemble(indices, k, r, d)
		if c.fault.Mode == "garbage" {
			r.SetVec(0, math.NaN())
			d.SetVec(d.Len()-1, math.Inf(1))
			k.SetSym(0, 0, math.NaN())
		}
	}
	if hit {
		c.fail("assemble")
	}
	e.Element.Assemble(indices, k, r, d)
}

// seamTrans is a user-supplied transformation that delegates to the library's.
type seamTrans struct {
	df.Transformer
	ctl func() *Ctl
}

func (t *seamTrans) Pre(indices df.EqLayout, k *mat.SymDense, r, d *mat.VecDense) {
	c := t.ctl()
	hit := c.hit("pre")
	if hit && (c.fault.Mode == "late" || c.fault.Mode == "garbage") {
		t.Transformer.Pre(indices, k, r, d)
	}
	if hit {
		c.fail("pre")
	}
	t.Transformer.Pre(indices, k, r, d)
}

func (t *seamTrans) Post(indices df.EqLayout, r, d *mat.VecDense) {
	c := t.ctl()
	hit := c.hit("post")
	if hit && c.fault.Mode == "late" {
		t.Transformer.Post(indices, r, d)
	}
	if hit {
		c.fail("post")
	}
	t.Transformer.Post(indices, r, d)
}

// seamStrategy is a user-supplied equation solver: it delegates to the library's or solves on its own.
type seamStrategy struct {
	kind string
	real df.EquationSolver
	ctl  func() *Ctl
}

func (s *seamStrategy) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error {
	c := s.ctl()
	if c.hit("strategy") {
		switch c.fault.Mode {
		case "error":
			return fmt.Errorf("strategy: %w", errInjected)
		case "partial":
			for i := 0; i < x.Len(); i += 2 {
				x.SetVec(i, 1e3*float64(i+1))
			}
			return fmt.Errorf("strategy: %w", errInjected)
		case "garbage":
			for i := 0; i < x.Len(); i++ {
				x.SetVec(i, math.NaN())
			}
			return fmt.Errorf("strategy: %w", errInjected)
		case "late":
			_ = s.real.SolveLinearSystem(a, b, x)
			return fmt.Errorf("strategy: %w", errInjected)
		case "singular":
			n := a.SymmetricDim()
			k := mat.NewSymDense(n, nil)
			for i := 0; i < n; i++ {
				for j := i; j < n; j++ {
					if i != n/2 && j != n/2 {
						k.SetSym(i, j, a.At(i, j))
					}
				}
			}
			return s.real.SolveLinearSystem(k, b, x)
		default:
			c.fail("strategy")
		}
	}
	if s.kind == "lu" {
		m := mat.DenseCopyOf(a)
		rhs := mat.VecDenseCopyOf(b)
		var lu mat.LU
		lu.Factorize(m)
		if ld, _ := lu.LogDet(); lu.Det() == 0 && !math.IsInf(ld, 0) && lu.Cond() < 1e15 {
			// The package refuses a determinant of nought, be it the underflow of a large matrix.
			f := math.Exp(-ld / float64(rhs.Len()))
			m.Scale(f, m)
			rhs.ScaleVec(f, rhs)
		}
		var y mat.VecDense
		if err := y.SolveVec(m, rhs); err != nil {
			return err
		}
		x.CopyVec(&y)
		return nil
	}
	if s.kind == "scaled" {
		n := a.SymmetricDim()
		sc := make([]float64, n)
		for i := range sc {
			sc[i] = math.Sqrt(a.At(i, i))
			if !(sc[i] > 0) {
				return errors.New("zero pivot")
			}
		}
		k := mat.NewSymDense(n, nil)
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				k.SetSym(i, j, a.At(i, j)/sc[i]/sc[j])
			}
		}
		y := mat.NewVecDense(n, nil)
		for i := range sc {
			y.SetVec(i, b.AtVec(i)/sc[i])
		}
		z := mat.NewVecDense(n, nil)
		if err := s.real.SolveLinearSystem(k, y, z); err != nil {
			return err
		}
		for i := range sc {
			x.SetVec(i, z.AtVec(i)/sc[i])
		}
		return nil
	}
	return s.real.SolveLinearSystem(a, b, x)
}

// turnedDown is the panic of a build function that gets something refused which is in order.
type turnedDown string

// Built is a problem built through the API, with the objects later edits refer to.
type Built struct {
	P     *df.Problem
	Elems map[string]df.Element
	Loads map[int]df.NeumannElementBC
	Nodes map[string]*df.Node
	Mats  []*df.Material
	links []builtLink
	opts  BuildOpts
	// Hinge sets, shared between problems along with other parts.
	hinges map[string]map[df.Index]struct{}
	// Read from a document: loads and inclined supports can't be taken off.
	foreign bool
}

type builtLink struct {
	spec LinkSpec
	t    df.Transformer
}

// BuildOpts says how a problem is built.
type BuildOpts struct {
	Ctl    func() *Ctl // seams are inserted if given
	Order  *Rng        // lists are shuffled if given
	Shared *Built      // nodes, materials and loads are taken from there where they agree
	Wipe   bool        // maps handed to the library are emptied and filled with other things afterwards
}

// wipeHinges leaves other hinges in a set that has been handed over.
func (o *BuildOpts) wipeHinges(set map[df.Index]struct{}, n0, n1 string) {
	if o.Wipe {
		clear(set)
		for _, n := range []string{n0, n1} {
			set[df.Index{NodalID: n, Dof: df.Ux}] = struct{}{}
			set[df.Index{NodalID: n, Dof: df.Phiy}] = struct{}{}
		}
	}
}

func (m MatSpec) section(wipe bool) df.CrossSection {
	var cs df.CrossSection
	var err error
	if m.Rect {
		cs, err = df.NewRectangularCrossSection(m.B, m.H, 0)
	} else {
		param := map[string]float64{"A": m.A, "Iyy": m.I, "Izz": m.I}
		cs, err = df.NewConstantsCrossSections(param)
		if wipe {
			clear(param)
			param["A"] = 3 * m.A
		}
	}
	if err != nil {
		panic(turnedDown(fmt.Sprintf("cross section %+v refused: %v", m, err)))
	}
	return cs
}

func (l LoadSpec) build() (df.NeumannElementBC, error) {
	switch l.Degree {
	case "dirac":
		return df.NewElementConcentratedLoad(l.Dof, l.Pos, l.V0)
	case "constant":
		return df.NewElementConstantLoad(l.Dof, l.V0), nil
	}
	return df.NewElementLinearLoad(l.Dof, l.V0, l.V1), nil
}

func (b *Built) load(l LoadSpec) df.NeumannElementBC {
	if x, ok := b.Loads[l.Handle]; ok {
		return x
	}
	x, err := l.build()
	if err != nil {
		panic(turnedDown(fmt.Sprintf("load %+v refused: %v", l, err)))
	}
	b.Loads[l.Handle] = x
	return x
}

func (b *Built) newElem(e *ElemSpec) (df.Element, error) {
	want := map[df.Index]struct{}{}
	for _, h := range e.Hinges {
		id := e.N0
		if h.End == 1 {
			id = e.N1
		}
		want[df.Index{NodalID: id, Dof: h.Dof}] = struct{}{}
	}
	hinges := b.hinges[e.ID]
	if hinges == nil || !maps.Equal(hinges, want) {
		hinges = want // not the shared one: this member is another one
	}
	n0, n1, m := b.Nodes[e.N0], b.Nodes[e.N1], b.Mats[e.Mat]
	var x df.Element
	var err error
	switch e.Kind {
	case "truss2d":
		x, err = df.NewTruss2d(e.ID, n0, n1, m, hinges)
	case "truss3d":
		x, err = df.NewTruss3d(e.ID, n0, n1, m, hinges)
	case "frame3d":
		x, err = df.NewFrame3d(e.ID, n0, n1, m, hinges)
	default:
		x, err = df.NewFrame2d(e.ID, n0, n1, m, hinges)
	}
	if b.hinges == nil {
		b.opts.wipeHinges(hinges, e.N0, e.N1)
	}
	if err != nil {
		return nil, err
	}
	if b.opts.Ctl != nil {
		x = &seamElem{x, b.opts.Ctl}
	}
	return x, nil
}

func (b *Built) newLink(l LinkSpec) (df.Transformer, df.NodalValue) {
	t, nv := df.NewInclinedSupport(df.Index{NodalID: l.Node, Dof: l.From}, df.Index{NodalID: l.Node, Dof: l.To}, l.Angle)
	if b.opts.Ctl != nil {
		t = &seamTrans{t, b.opts.Ctl}
	}
	return t, nv
}

func shuffled[T any](r *Rng, l []T) []T {
	if r == nil {
		return l
	}
	c := make([]T, 0, len(l))
	for _, i := range r.Perm(len(l)) {
		c = append(c, l[i])
	}
	return c
}

// prepareHinges makes hinge sets that other problems can use too.
func (b *Built) prepareHinges(s *Spec) {
	b.hinges = map[string]map[df.Index]struct{}{}
	for i := range s.Elems {
		e := &s.Elems[i]
		b.hinges[e.ID] = map[df.Index]struct{}{}
		for _, h := range e.Hinges {
			id := e.N0
			if h.End == 1 {
				id = e.N1
			}
			b.hinges[e.ID][df.Index{NodalID: id, Dof: h.Dof}] = struct{}{}
		}
	}
}

// build makes the real problem described by s.
func build(s *Spec, o BuildOpts) *Built {
	b := &Built{P: &df.Problem{}, Elems: map[string]df.Element{}, Loads: map[int]df.NeumannElementBC{},
		Nodes: map[string]*df.Node{}, opts: o}
	if o.Shared != nil {
		for k, v := range o.Shared.Nodes {
			b.Nodes[k] = v
		}
		for k, v := range o.Shared.Loads {
			b.Loads[k] = v
		}
		b.Mats, b.hinges = o.Shared.Mats, o.Shared.hinges
		b.P.Nodes = slices.Clip(o.Shared.P.Nodes)
	} else {
		nodes := shuffled(o.Order, s.Nodes)
		for _, n := range nodes {
			b.P.Nodes = append(b.P.Nodes, df.Node{ID: n.ID, X: n.X, Y: n.Y, Z: n.Z})
		}
		for i := range b.P.Nodes {
			b.Nodes[b.P.Nodes[i].ID] = &b.P.Nodes[i]
		}
		for _, m := range s.Mats {
			cs := m.section(o.Wipe)
			if o.Ctl != nil {
				cs = &seamCS{cs, o.Ctl}
			}
			b.Mats = append(b.Mats, &df.Material{CrossSection: cs,
				LinearElastic: df.LinearElastic{YoungsModulus: m.E, PoissonsRatio: m.Nu, Density: m.Rho}})
		}
	}

	for _, e := range shuffled(o.Order, s.Elems) {
		e := e
		x, err := b.newElem(&e)
		if err != nil {
			panic(turnedDown(fmt.Sprintf("member %+v refused: %v", e, err)))
		}
		b.Elems[e.ID] = x
		b.P.Elements = append(b.P.Elements, x)
		for _, l := range shuffled(o.Order, e.Loads) {
			if !x.AddLoad(b.load(l)) {
				panic(turnedDown(fmt.Sprintf("load %+v on %+v refused", l, e)))
			}
		}
	}

	var dir []df.NodalValue
	for _, d := range s.Dir {
		dir = append(dir, df.NodalValue{Index: d.index(), Value: d.V})
	}
	// The order of inclined supports matters on one node, not between nodes.
	links := s.Links
	if o.Order != nil {
		byNode := map[string][]LinkSpec{}
		var names []string
		for _, l := range s.Links {
			if byNode[l.Node] == nil {
				names = append(names, l.Node)
			}
			byNode[l.Node] = append(byNode[l.Node], l)
		}
		links = nil
		for _, n := range shuffled(o.Order, names) {
			links = append(links, byNode[n]...)
		}
	}
	for _, l := range links {
		t, nv := b.newLink(l)
		b.links = append(b.links, builtLink{l, t})
		b.P.EqTransforms = append(b.P.EqTransforms, t)
		dir = append(dir, nv)
	}
	b.P.Dirichlet = shuffled(o.Order, dir)
	for _, n := range shuffled(o.Order, s.Nodal) {
		b.P.Neumann = append(b.P.Neumann, df.NodalValue{Index: n.index(), Value: n.V})
	}
	b.roomy()
	return b
}

// roomy gives the lists room behind their end that is in use by somebody else.
func (b *Built) roomy() {
	other := df.NodalValue{Index: df.Index{NodalID: "somebody else's", Dof: df.Uz}, Value: 4711}
	b.P.Neumann = withTail(b.P.Neumann, other, other, other)
	b.P.Dirichlet = withTail(b.P.Dirichlet, other, other, other)
	b.P.Elements = withTail(b.P.Elements, nil, nil)
	b.P.EqTransforms = withTail(b.P.EqTransforms, nil, nil)
}

func withTail[T any](l []T, tail ...T) []T {
	if l == nil {
		return nil
	}
	return slices.Concat(l, tail)[:len(l)]
}

// ---- documents

// J is an ordered JSON value: object, array, or a literal.
type J struct {
	Lit  string
	Keys []string
	Vals []*J
	Kind byte // o, a, l
}

func jo() *J                    { return &J{Kind: 'o'} }
func ja(v ...*J) *J             { return &J{Kind: 'a', Vals: v} }
func jl(s string) *J            { return &J{Kind: 'l', Lit: s} }
func jf(x float64) *J           { return jl(strconv.FormatFloat(x, 'g', -1, 64)) }
func js(s string) *J            { d, _ := json.Marshal(s); return jl(string(d)) }
func (j *J) set(k string, v *J) { j.Keys = append(j.Keys, k); j.Vals = append(j.Vals, v) }
func (j *J) get(k string) *J {
	for i := range j.Keys {
		if j.Keys[i] == k {
			return j.Vals[i]
		}
	}
	return nil
}

func (j *J) text(b *strings.Builder, nl string) {
	switch j.Kind {
	case 'l':
		b.WriteString(j.Lit)
	case 'a':
		b.WriteString("[")
		for i, v := range j.Vals {
			if i > 0 {
				b.WriteString(",")
			}
			v.text(b, "")
		}
		b.WriteString("]")
	case 'o':
		b.WriteString("{")
		for i, v := range j.Vals {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(nl)
			k := ""
			if i < len(j.Keys) {
				k = j.Keys[i]
			}
			d, _ := json.Marshal(k)
			b.Write(d)
			b.WriteString(":")
			if nl != "" {
				b.WriteString(" ")
				v.text(b, nl+"  ")
			} else {
				v.text(b, "")
			}
		}
		if nl != "" && len(j.Vals) > 0 {
			b.WriteString(nl[:len(nl)-2])
		}
		b.WriteString("}")
	}
}

func (j *J) bytes(pretty bool) []byte {
	var b strings.Builder
	if pretty {
		j.text(&b, "\n  ")
	} else {
		j.text(&b, "")
	}
	return []byte(b.String())
}

// shuffle changes the order of all keys.
func (j *J) shuffle(r *Rng) {
	if j.Kind == 'o' {
		p := r.Perm(len(j.Keys))
		k, v := make([]string, len(p)), make([]*J, len(p))
		for i, x := range p {
			k[i], v[i] = j.Keys[x], j.Vals[x]
		}
		j.Keys, j.Vals = k, v
	}
	for _, v := range j.Vals {
		v.shuffle(r)
	}
}

func (j *J) clone() *J {
	c := &J{Lit: j.Lit, Kind: j.Kind, Keys: append([]string(nil), j.Keys...)}
	for _, v := range j.Vals {
		c.Vals = append(c.Vals, v.clone())
	}
	return c
}

var loadNames = map[df.Dof]string{df.Ux: "x", df.Uz: "z", df.Uy: "y", df.Phiy: "y", df.Phiz: "z", df.Phix: "x"}

func forceName(d df.Dof) string {
	if d >= df.Phiy {
		return "M" + loadNames[d]
	}
	return "F" + loadNames[d]
}

func dofName(d df.Dof) string {
	return map[df.Dof]string{df.Ux: "Ux", df.Uz: "Uz", df.Uy: "Uy", df.Phiy: "Phiy", df.Phiz: "Phiz", df.Phix: "Phix"}[d]
}

// document writes s as a document. r decides between the different ways to write the same thing.
func document(s *Spec, r *Rng) *J {
	doc := jo()
	nodes := jo()
	for _, n := range s.Nodes {
		nodes.set(n.ID, ja(jf(n.X), jf(n.Y), jf(n.Z)))
	}
	doc.set("nodes", nodes)

	mats, css := jo(), jo()
	// Materials and sections that are the same are written once, or again under another name.
	mi, ci := make([]int, len(s.Mats)), make([]int, len(s.Mats))
	mnames := make([]string, len(s.Mats))
	cnames := make([]string, len(s.Mats))
	for i := range s.Mats {
		mi[i], ci[i] = i, i
		mnames[i], cnames[i] = fmt.Sprintf("mat%d", i), fmt.Sprintf("%c-section", 'p'+i%10)
	}
	g := NewRng(r.U64(), 41)
	if g.P(0.7) {
		for i, m := range s.Mats {
			for k := i - 1; k >= 0; k-- {
				if o := s.Mats[k]; o.E == m.E && o.Nu == m.Nu && o.Rho == m.Rho {
					mi[i] = k
				}
				if o := s.Mats[k]; o.Rect == m.Rect && o.A == m.A && o.I == m.I && o.B == m.B && o.H == m.H {
					ci[i] = k
				}
			}
		}
	}
	if g.P(0.4) {
		n := len(s.Mats)
		switch g.N(3) {
		case 0:
			mnames, cnames = confusable(g, n), confusable(g, n)
		case 1:
			all := confusable(g, 2*n)
			mnames, cnames = all[:n], all[n:]
		case 2:
			// The two names of a member put together are always the same.
			t := "abcdefgh"[:n+1]
			if g.P(0.5) {
				t = "m1m1m1m1"[:n+1]
			}
			for i := range mnames {
				mnames[i], cnames[i] = t[:i+1], t[i+1:]
			}
		}
	}
	mname := func(i int) string { return mnames[mi[i]] }
	cname := func(i int) string { return cnames[ci[i]] }
	for i, m := range s.Mats {
		if mats.get(mname(i)) == nil {
			p := jo()
			p.set("E", jf(m.E))
			p.set("nu", jf(m.Nu))
			p.set("rho", jf(m.Rho))
			d := jo()
			d.set("kind", js("linelast"))
			d.set("parameter", p)
			mats.set(mname(i), d)
		}
		if css.get(cname(i)) != nil {
			continue
		}
		c := jo()
		cp := jo()
		if m.Rect {
			c.set("kind", js("rectangle"))
			cp.set("b", jf(m.B))
			cp.set("h", jf(m.H))
		} else {
			c.set("kind", js("constants"))
			cp.set("A", jf(m.A))
			cp.set("Iyy", jf(m.I))
			cp.set("Izz", jf(m.I*1.5))
		}
		if g.P(0.15) {
			// Optional, and without effect in plane structures.
			cp.set(pick(g, "roll", "Ixx"), jf(pick(g, 0, 0.3)))
		}
		c.set("parameter", cp)
		css.set(cname(i), c)
	}
	oneMat, oneSection := len(mats.Keys) == 1, len(css.Keys) == 1
	doc.set("material", mats)
	doc.set("crosssection", css)

	elems := jo()
	neumann := jo()
	for i := range s.Elems {
		e := &s.Elems[i]
		d := jo()
		d.set("kind", js(e.Kind))
		if !(utf8.RuneCountInString(e.ID) == 2 && e.ID == e.N0+e.N1 && r.P(0.7)) {
			d.set("nodes", ja(js(e.N0), js(e.N1)))
		}
		if !oneMat || r.P(0.5) {
			d.set("material", js(mname(e.Mat)))
		}
		if !oneSection || r.P(0.5) {
			d.set("cs", js(cname(e.Mat)))
		}
		if len(e.Hinges) > 0 {
			h := jo()
			for end, id := range []string{e.N0, e.N1} {
				l := ja()
				for _, x := range e.Hinges {
					if x.End == end {
						l.Vals = append(l.Vals, js(dofName(x.Dof)))
					}
				}
				if len(l.Vals) > 0 {
					h.set(id, l)
				}
			}
			d.set("hinges", h)
		}
		elems.set(e.ID, d)

		if len(e.Loads) > 0 {
			l := ja()
			for _, x := range e.Loads {
				d := jo()
				name := forceName(x.Dof)
				if x.Degree != "dirac" || r.P(0.1) {
					if x.Dof >= df.Phiy {
						name = "m" + loadNames[x.Dof]
					} else {
						name = "q" + loadNames[x.Dof]
					}
				}
				d.set("kind", js(name))
				d.set("degree", js(x.Degree))
				if x.Degree == "linear" {
					d.set("values", ja(jf(x.V0), jf(x.V1)))
				} else {
					d.set("values", ja(jf(x.V0)))
				}
				if x.Degree == "dirac" {
					d.set("position", ja(jf(x.Pos)))
				}
				l.Vals = append(l.Vals, d)
			}
			neumann.set(e.ID, l)
		}
	}
	doc.set("elements", elems)

	// Nodal values: several per record, or one record each.
	group := func(vals []NVal, name func(df.Dof) string, into *J) {
		var order []string
		by := map[string][]NVal{}
		for _, v := range vals {
			if by[v.Node] == nil {
				order = append(order, v.Node)
			}
			by[v.Node] = append(by[v.Node], v)
		}
		for _, n := range order {
			l := ja()
			cur := jo()
			for _, v := range by[n] {
				nm := name(v.Dof)
				if cur.get(nm) != nil || (len(cur.Keys) > 0 && r.P(0.4)) {
					l.Vals = append(l.Vals, cur)
					cur = jo()
				}
				cur.set(nm, jf(v.V))
			}
			l.Vals = append(l.Vals, cur)
			if prev := into.get(n); prev != nil {
				prev.Vals = append(prev.Vals, l.Vals...)
			} else {
				into.set(n, l)
			}
		}
	}
	dir := jo()
	group(s.Dir, dofName, dir)
	if len(dir.Keys) > 0 {
		doc.set("dirichlet", dir)
	}
	group(s.Nodal, forceName, neumann)
	if len(neumann.Keys) > 0 {
		doc.set("neumann", neumann)
	}
	if len(s.Links) > 0 {
		links := jo()
		for _, l := range s.Links {
			d := jo()
			d.set("from", js(dofName(l.From)))
			d.set("to", js(dofName(l.To)))
			d.set("angle", jf(l.Angle))
			if prev := links.get(l.Node); prev != nil {
				prev.Vals = append(prev.Vals, d)
			} else {
				links.set(l.Node, ja(d))
			}
		}
		doc.set("links", links)
	}
	return doc
}
