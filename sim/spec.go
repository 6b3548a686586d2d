package main

import (
	"math"
	"slices"

	df "github.com/lubgr/deflect/deflect"
)

// Spec is the simulator's own description of a boundary value problem: what the problem under test
// is supposed to be at a given moment.
type Spec struct {
	Mats  []MatSpec  `json:"mats"`
	Nodes []NodeSpec `json:"nodes"`
	Elems []ElemSpec `json:"elems"`
	Dir   []NVal     `json:"dir,omitempty"`
	Links []LinkSpec `json:"links,omitempty"`
	Nodal []NVal     `json:"nodal,omitempty"`
	Note  string     `json:"note,omitempty"`
	byID  map[string]int
}

// MatSpec pairs a material with a cross section.
type MatSpec struct {
	E, Nu, Rho float64
	Rect       bool    `json:",omitempty"`
	B, H       float64 `json:",omitempty"` // rectangle
	A, I       float64 `json:",omitempty"` // constants
}

func (m MatSpec) area() float64 {
	if m.Rect {
		return m.B * m.H
	}
	return m.A
}

func (m MatSpec) iyy() float64 {
	if m.Rect {
		return m.B * m.H * m.H * m.H / 12
	}
	return m.I
}

// NodeSpec is a mesh vertex.
type NodeSpec struct {
	ID      string
	X, Y, Z float64
}

// HingeSpec releases a degree of freedom at the first (0) or second (1) node of a member.
type HingeSpec struct {
	End int
	Dof df.Dof
}

// ElemSpec is a member.
type ElemSpec struct {
	ID     string
	Kind   string // truss2d, truss3d, frame2d, frame3d
	N0, N1 string
	Mat    int
	Hinges []HingeSpec `json:",omitempty"`
	Loads  []LoadSpec  `json:",omitempty"`
}

// LoadSpec is a member load. Handle identifies the load object: the same object can be on a member
// several times, and on several members.
type LoadSpec struct {
	Handle int
	Degree string // dirac, constant, linear
	Dof    df.Dof
	Pos    float64 `json:",omitempty"`
	V0     float64
	V1     float64 `json:",omitempty"`
}

// NVal is a nodal value: a prescribed displacement, or a nodal load.
type NVal struct {
	Node string
	Dof  df.Dof
	V    float64
}

func (n NVal) index() df.Index { return df.Index{NodalID: n.Node, Dof: n.Dof} }

// LinkSpec is an inclined support.
type LinkSpec struct {
	Node     string
	From, To df.Dof
	Angle    float64
}

func (s *Spec) clone() *Spec {
	c := Spec{
		Mats: slices.Clone(s.Mats), Nodes: slices.Clone(s.Nodes), Elems: slices.Clone(s.Elems),
		Dir: slices.Clone(s.Dir), Links: slices.Clone(s.Links), Nodal: slices.Clone(s.Nodal), Note: s.Note,
	}
	for i := range c.Elems {
		e := &c.Elems[i]
		e.Hinges, e.Loads = slices.Clone(e.Hinges), slices.Clone(e.Loads)
	}
	return &c
}

func (s *Spec) node(id string) *NodeSpec {
	for i := range s.Nodes {
		if s.Nodes[i].ID == id {
			return &s.Nodes[i]
		}
	}
	return nil
}

func (s *Spec) elem(id string) *ElemSpec {
	for i := range s.Elems {
		if s.Elems[i].ID == id {
			return &s.Elems[i]
		}
	}
	return nil
}

func (s *Spec) length(e *ElemSpec) float64 {
	a, b := s.node(e.N0), s.node(e.N1)
	return math.Sqrt((b.X-a.X)*(b.X-a.X) + (b.Y-a.Y)*(b.Y-a.Y) + (b.Z-a.Z)*(b.Z-a.Z))
}

// dir is the member's unit direction.
func (s *Spec) dir(e *ElemSpec) (x, y, z float64) {
	a, b := s.node(e.N0), s.node(e.N1)
	l := s.length(e)
	return (b.X - a.X) / l, (b.Y - a.Y) / l, (b.Z - a.Z) / l
}

func (e *ElemSpec) isFrame() bool { return e.Kind == "frame2d" || e.Kind == "frame3d" }

func (e *ElemSpec) dofs() []df.Dof {
	switch e.Kind {
	case "truss2d":
		return []df.Dof{df.Ux, df.Uz}
	case "truss3d":
		return []df.Dof{df.Ux, df.Uy, df.Uz}
	case "frame3d":
		return []df.Dof{df.Ux, df.Uy, df.Uz, df.Phiy}
	}
	return []df.Dof{df.Ux, df.Uz, df.Phiy}
}

// accepts tells if the member can carry the load.
func (s *Spec) accepts(e *ElemSpec, l LoadSpec) bool {
	if l.Degree == "dirac" && l.Pos > s.length(e)*(1+1e-9) {
		return false
	}
	switch l.Dof {
	case df.Ux:
		return true
	case df.Uz:
		return e.isFrame()
	case df.Phiy:
		return e.isFrame() && l.Degree == "dirac"
	}
	return false
}

// used lists all degrees of freedom the members use.
func (s *Spec) used() map[df.Index]bool {
	m := map[df.Index]bool{}
	for i := range s.Elems {
		e := &s.Elems[i]
		for _, d := range e.dofs() {
			m[df.Index{NodalID: e.N0, Dof: d}] = true
			m[df.Index{NodalID: e.N1, Dof: d}] = true
		}
	}
	return m
}

func (s *Spec) hinged(e *ElemSpec, end int, d df.Dof) bool {
	for _, h := range e.Hinges {
		if h.End == end && h.Dof == d {
			return true
		}
	}
	return false
}

// supported lists all degrees of freedom with a prescribed value, inclined supports included.
func (s *Spec) supported() map[df.Index]int {
	m := map[df.Index]int{}
	for _, d := range s.Dir {
		m[d.index()]++
	}
	for _, l := range s.Links {
		m[df.Index{NodalID: l.Node, Dof: l.To}]++
	}
	return m
}

// wellFormed tells if every support, load and link refers to something that exists, once.
func (s *Spec) wellFormed() bool {
	used := s.used()
	for i, n := range s.supported() {
		if n > 1 || !used[i] {
			return false
		}
	}
	for _, l := range s.Links {
		if !used[df.Index{NodalID: l.Node, Dof: l.From}] || l.From == l.To {
			return false
		}
	}
	for _, n := range s.Nodal {
		if !used[n.index()] {
			return false
		}
	}
	return len(s.Elems) > 0 && len(s.supported()) > 0 && len(s.supported()) < len(used)
}

func (s *Spec) planar() bool {
	for i := range s.Elems {
		if s.Elems[i].Kind == "truss3d" || s.Elems[i].Kind == "frame3d" {
			return false
		}
	}
	return true
}
