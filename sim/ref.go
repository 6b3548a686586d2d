package main

import (
	"fmt"
	"math"
	"sort"

	df "github.com/lubgr/deflect/deflect"
)

// The reference model: the same structure solved in a different way. Member ends keep their own
// unknowns where a hinge releases them (no condensation), supports of all kinds are constraints with
// Lagrange multipliers (no partitioning, no turning of axes), stiffness and load vectors are
// integrated numerically (no closed formulas), curves are evaluated pointwise from the equilibrium of
// the cut member (no polynomials). It shares no code with the library.

// Ref is the reference solution of a Spec.
type Ref struct {
	OK    bool
	Why   string
	Kappa float64 // of the scaled system
	Raw   float64 // the largest stiffness times the largest flexibility, whatever the units
	U, R  map[df.Index]float64
	D     map[df.Index]float64 // square roots of the diagonal of the stiffness matrix
	Max   float64              // largest D·U
	N     int
	spec  *Spec
	ends  map[string][]float64 // local end displacements, hinged ones included
	force map[string][]float64 // local end forces of the member
	fmaxU float64              // largest force, moment in the solution
	fmaxP float64
	// noise is what rounding makes of loads that cancel each other: D·u.
	noise float64
}

type unknown struct {
	idx  df.Index
	elem string
	end  int
}

// local describes a member in local axes: which unknowns with which factors make up each local end
// displacement (u0, w0, phi0, u1, w1, phi1 for frames; u0, u1 for trusses).
type local struct {
	k    [][]float64
	r    []float64
	dofs []df.Dof // local direction: Ux, Uz, Phiy
	end  []int
}

var gaussX = []float64{-0.9061798459386640, -0.5384693101056831, 0, 0.5384693101056831, 0.9061798459386640}
var gaussW = []float64{0.2369268850561891, 0.4786286704993665, 0.5688888888888889, 0.4786286704993665, 0.2369268850561891}

// shapes evaluates the shape functions of a bar and a beam at x: u, w, and the rotation -w'.
func shapes(l, x float64) (u [2]float64, w, phi, curv [4]float64) {
	t := x / l
	u = [2]float64{1 - t, t}
	w = [4]float64{
		1 - 3*t*t + 2*t*t*t,
		-l * (t - 2*t*t + t*t*t),
		3*t*t - 2*t*t*t,
		-l * (t*t*t - t*t),
	}
	phi = [4]float64{
		-(-6*t + 6*t*t) / l,
		1 - 4*t + 3*t*t,
		-(6*t - 6*t*t) / l,
		3*t*t - 2*t,
	}
	curv = [4]float64{
		-(-6 + 12*t) / (l * l),
		(-4 + 6*t) / l,
		-(6 - 12*t) / (l * l),
		(6*t - 2) / l,
	}
	return
}

func (s *Spec) local(e *ElemSpec) local {
	l := s.length(e)
	m := s.Mats[e.Mat]
	EA, EI := m.E*m.area(), m.E*m.iyy()

	n := 2
	lo := local{dofs: []df.Dof{df.Ux, df.Ux}, end: []int{0, 1}}
	iu := []int{0, 1}
	var ib []int

	if e.isFrame() {
		n = 6
		lo.dofs = []df.Dof{df.Ux, df.Uz, df.Phiy, df.Ux, df.Uz, df.Phiy}
		lo.end = []int{0, 0, 0, 1, 1, 1}
		iu = []int{0, 3}
		ib = []int{1, 2, 4, 5}
	}

	lo.k = make([][]float64, n)
	for i := range lo.k {
		lo.k[i] = make([]float64, n)
	}
	lo.r = make([]float64, n)

	for a := range iu {
		for b := range iu {
			v := EA / l
			if a != b {
				v = -v
			}
			lo.k[iu[a]][iu[b]] += v
		}
	}

	for g := range gaussX {
		x := l * (1 + gaussX[g]) / 2
		wt := gaussW[g] * l / 2
		_, _, _, c := shapes(l, x)
		for a := range ib {
			for b := range ib {
				lo.k[ib[a]][ib[b]] += wt * EI * c[a] * c[b]
			}
		}
	}

	at := func(x, wt float64, d df.Dof) {
		u, w, phi, _ := shapes(l, x)
		switch d {
		case df.Ux:
			for a := range iu {
				lo.r[iu[a]] += wt * u[a]
			}
		case df.Uz:
			for a := range ib {
				lo.r[ib[a]] += wt * w[a]
			}
		case df.Phiy:
			for a := range ib {
				lo.r[ib[a]] += wt * phi[a]
			}
		}
	}

	for _, ld := range e.Loads {
		if ld.Degree == "dirac" {
			at(ld.Pos, ld.V0, ld.Dof)
			continue
		}
		for g := range gaussX {
			x := l * (1 + gaussX[g]) / 2
			q := ld.V0
			if ld.Degree == "linear" {
				q += (ld.V1 - ld.V0) * x / l
			}
			at(x, q*gaussW[g]*l/2, ld.Dof)
		}
	}

	return lo
}

// toLocal gives the factors with which global displacements of a node enter a local direction.
func (s *Spec) toLocal(e *ElemSpec, d df.Dof) map[df.Dof]float64 {
	x, y, z := s.dir(e)
	switch d {
	case df.Ux:
		if e.Kind == "truss3d" || e.Kind == "frame3d" {
			return map[df.Dof]float64{df.Ux: x, df.Uy: y, df.Uz: z}
		}
		return map[df.Dof]float64{df.Ux: x, df.Uz: z}
	case df.Uz:
		return map[df.Dof]float64{df.Ux: z, df.Uz: -x}
	}
	return map[df.Dof]float64{df.Phiy: -1}
}

// turned makes the stiffness magnitudes of a node with inclined supports those of its stiffest
// direction: forces are computed in turned axes there.
func (s *Spec) turned(D map[df.Index]float64) map[df.Index]float64 {
	out := map[df.Index]float64{}
	for i, d := range D {
		out[i] = d
	}
	for _, l := range s.Links {
		m := 0.0
		for d := df.Ux; d <= df.Uy; d++ {
			m = math.Max(m, D[df.Index{NodalID: l.Node, Dof: d}])
		}
		for d := df.Ux; d <= df.Uy; d++ {
			if _, ok := D[df.Index{NodalID: l.Node, Dof: d}]; ok {
				out[df.Index{NodalID: l.Node, Dof: d}] = m
			}
		}
	}
	return out
}

// linkRows lists the constraints of all inclined supports as rows over displacement components. An
// inclined support acts in the axes turned by those before it on the same node.
func (s *Spec) linkRows() (rows []map[df.Index]float64) {
	axes := map[string]map[df.Dof]map[df.Dof]float64{} // turned axis -> global components
	get := func(node string) map[df.Dof]map[df.Dof]float64 {
		if axes[node] == nil {
			axes[node] = map[df.Dof]map[df.Dof]float64{}
			for _, d := range []df.Dof{df.Ux, df.Uy, df.Uz} {
				axes[node][d] = map[df.Dof]float64{d: 1}
			}
		}
		return axes[node]
	}

	for _, l := range s.Links {
		a := get(l.Node)
		c, sn := math.Cos(l.Angle), math.Sin(l.Angle)
		from, to := map[df.Dof]float64{}, map[df.Dof]float64{}
		for _, d := range []df.Dof{df.Ux, df.Uy, df.Uz} {
			f, t := a[l.From][d], a[l.To][d]
			from[d] = c*f + sn*t
			to[d] = -sn*f + c*t
		}
		a[l.From], a[l.To] = from, to
	}

	for _, l := range s.Links {
		row := map[df.Index]float64{}
		for d, v := range axes[l.Node][l.To] {
			if v != 0 {
				row[df.Index{NodalID: l.Node, Dof: d}] = v
			}
		}
		rows = append(rows, row)
	}

	return rows
}

func lessIndex(a, b df.Index) bool {
	if a.NodalID != b.NodalID {
		return a.NodalID < b.NodalID
	}
	return a.Dof < b.Dof
}

// solveRef computes the reference solution.
func solveRef(s *Spec) *Ref {
	ref := &Ref{spec: s, U: map[df.Index]float64{}, R: map[df.Index]float64{}, D: map[df.Index]float64{},
		ends: map[string][]float64{}, force: map[string][]float64{}}

	if !s.wellFormed() {
		ref.Why = "not well-formed"
		return ref
	}

	num := map[unknown]int{}
	var unknowns []unknown
	add := func(u unknown) int {
		if i, ok := num[u]; ok {
			return i
		}
		num[u] = len(unknowns)
		unknowns = append(unknowns, u)
		return num[u]
	}

	var used []df.Index
	for i := range s.used() {
		used = append(used, i)
	}
	sort.Slice(used, func(i, j int) bool { return lessIndex(used[i], used[j]) })
	for _, i := range used {
		add(unknown{idx: i})
	}

	type comp struct {
		i int
		f float64
	}
	type member struct {
		lo local
		t  [][]comp
	}
	members := make([]member, len(s.Elems))

	for m := range s.Elems {
		e := &s.Elems[m]
		lo := s.local(e)
		t := make([][]comp, len(lo.r))
		for i := range t {
			if s.hinged(e, lo.end[i], lo.dofs[i]) {
				t[i] = []comp{{add(unknown{elem: e.ID, end: i, idx: df.Index{}}), 1}}
				continue
			}
			node := e.N0
			if lo.end[i] == 1 {
				node = e.N1
			}
			for _, d := range []df.Dof{df.Ux, df.Uz, df.Uy, df.Phiy} {
				if f, ok := s.toLocal(e, lo.dofs[i])[d]; ok {
					t[i] = append(t[i], comp{num[unknown{idx: df.Index{NodalID: node, Dof: d}}], f})
				}
			}
		}
		members[m] = member{lo, t}
	}

	n := len(unknowns)
	k := make([][]float64, n)
	for i := range k {
		k[i] = make([]float64, n)
	}
	f := make([]float64, n)
	fmag := make([]float64, n)

	for i, m := range members {
		l := s.length(&s.Elems[i])
		q := 0.0
		for _, ld := range s.Elems[i].Loads {
			v := math.Max(math.Abs(ld.V0), math.Abs(ld.V1))
			switch {
			case ld.Degree != "dirac":
				v *= l
			case ld.Dof == df.Phiy:
				v /= l
			}
			q += v
		}
		for a := range m.t {
			for _, ca := range m.t[a] {
				f[ca.i] += ca.f * m.lo.r[a]
				if m.lo.dofs[a] == df.Phiy {
					fmag[ca.i] += q * l
				} else {
					fmag[ca.i] += q
				}
				for b := range m.t {
					for _, cb := range m.t[b] {
						k[ca.i][cb.i] += ca.f * cb.f * m.lo.k[a][b]
					}
				}
			}
		}
	}

	for _, nv := range s.Nodal {
		f[num[unknown{idx: nv.index()}]] += nv.V
		fmag[num[unknown{idx: nv.index()}]] += math.Abs(nv.V)
	}

	rows := s.linkRows()
	values := make([]float64, len(rows))
	for _, d := range s.Dir {
		rows = append(rows, map[df.Index]float64{d.index(): 1})
		values = append(values, d.V)
	}

	// Scaled saddle point system.
	scale := make([]float64, n)
	dmax := 0.0
	for i := range k {
		dmax = math.Max(dmax, math.Sqrt(math.Abs(k[i][i])))
	}
	for i := range k {
		scale[i] = math.Sqrt(math.Abs(k[i][i]))
		if scale[i] < 1e-8*dmax {
			scale[i] = 1e-8 * dmax
		}
	}

	nc := len(rows)
	a := make([][]float64, n+nc)
	for i := range a {
		a[i] = make([]float64, n+nc)
	}
	b := make([]float64, n+nc)
	for i := range k {
		for j := range k {
			a[i][j] = k[i][j] / scale[i] / scale[j]
		}
		b[i] = f[i] / scale[i]
	}
	rowScale := make([]float64, nc)
	for c, row := range rows {
		m := 0.0
		for i, v := range row {
			j := num[unknown{idx: i}]
			a[n+c][j] = v / scale[j]
			m = math.Max(m, math.Abs(a[n+c][j]))
		}
		rowScale[c] = m
		for j := 0; j < n; j++ {
			a[n+c][j] /= m
			a[j][n+c] = a[n+c][j]
		}
		b[n+c] = values[c] / m
	}

	inv, ok := invert(a)
	if !ok {
		ref.Why = "singular"
		return ref
	}
	ref.Kappa = normInf(a) * normInf(inv)
	if math.IsNaN(ref.Kappa) || ref.Kappa > 1e13 {
		ref.Why = "numerically singular"
		return ref
	}
	flex := 0.0
	for i := range k {
		flex = math.Max(flex, math.Abs(inv[i][i])/scale[i]/scale[i])
	}
	ref.Raw = flex * dmax * dmax

	x := matVec(inv, b)
	// One step of refinement.
	res := matVec(a, x)
	for i := range res {
		res[i] = b[i] - res[i]
	}
	dx := matVec(inv, res)
	for i := range x {
		x[i] += dx[i]
	}

	ref.N = n
	bmag := make([]float64, n+nc)
	for i := range bmag {
		if i < n {
			bmag[i] = fmag[i] / scale[i]
		} else {
			bmag[i] = math.Abs(b[i])
		}
	}
	for i := range inv {
		xm := 0.0
		for j, v := range inv[i] {
			xm += math.Abs(v) * bmag[j]
		}
		ref.noise = math.Max(ref.noise, 1e-12*(xm+bmag[i]))
	}
	val := make([]float64, n)
	for i := range val {
		val[i] = x[i] / scale[i]
		ref.Max = math.Max(ref.Max, math.Abs(x[i]))
	}
	for _, i := range used {
		j := num[unknown{idx: i}]
		ref.U[i] = val[j]
		ref.D[i] = scale[j]
		// k·d - f + Cᵀλ = 0, and the reaction is what the constraint exerts: -Cᵀλ.
		sum := 0.0
		for c := range rows {
			sum += a[n+c][j] * x[n+c]
		}
		ref.R[i] = -sum * scale[j]
		if i.Dof == df.Phiy {
			ref.fmaxP = math.Max(ref.fmaxP, math.Abs(ref.R[i]))
		} else {
			ref.fmaxU = math.Max(ref.fmaxU, math.Abs(ref.R[i]))
		}
	}

	for m := range s.Elems {
		e := &s.Elems[m]
		mb := members[m]
		ends := make([]float64, len(mb.t))
		for i := range ends {
			for _, c := range mb.t[i] {
				ends[i] += c.f * val[c.i]
			}
		}
		force := make([]float64, len(ends))
		for i := range force {
			for j := range ends {
				force[i] += mb.lo.k[i][j] * ends[j]
			}
			force[i] -= mb.lo.r[i]
			if mb.lo.dofs[i] == df.Phiy {
				ref.fmaxP = math.Max(ref.fmaxP, math.Abs(force[i]))
			} else {
				ref.fmaxU = math.Max(ref.fmaxU, math.Abs(force[i]))
			}
		}
		ref.ends[e.ID] = ends
		ref.force[e.ID] = force
	}

	ref.OK = true
	return ref
}

// curve evaluates a member curve at x. When x is the position of a concentrated load, left says which
// side is meant. ok is false if the member has no such curve.
func (r *Ref) curve(e *ElemSpec, which df.Fct, x float64, left bool) (float64, bool) {
	m := r.spec.Mats[e.Mat]
	EA, EI := m.E*m.area(), m.E*m.iyy()
	l := r.spec.length(e)
	ends, force := r.ends[e.ID], r.force[e.ID]
	past := func(p float64) float64 {
		if x > p+1e-9*l || (!left && math.Abs(x-p) <= 1e-9*l) {
			return math.Max(0, x-p)
		}
		return math.NaN() // not yet reached
	}

	switch which {
	case df.FctUx, df.FctNx:
		N, u := -force[0], ends[0]-force[0]*x/EA
		for _, ld := range e.Loads {
			if ld.Dof != df.Ux {
				continue
			}
			switch ld.Degree {
			case "dirac":
				if y := past(ld.Pos); !math.IsNaN(y) {
					N -= ld.V0
					u -= ld.V0 * y / EA
				}
			case "constant":
				N -= ld.V0 * x
				u -= ld.V0 * x * x / 2 / EA
			case "linear":
				k := (ld.V1 - ld.V0) / l
				N -= ld.V0*x + k*x*x/2
				u -= (ld.V0*x*x/2 + k*x*x*x/6) / EA
			}
		}
		if which == df.FctNx {
			return N, true
		}
		return u, true
	}

	if !e.isFrame() {
		return 0, false
	}
	switch which {
	case df.FctUz, df.FctPhiy, df.FctVz, df.FctMy:
	default:
		return 0, false
	}

	V0, M0 := -force[1], -force[2]
	V, M := V0, M0+V0*x
	phi := ends[2] + (M0*x+V0*x*x/2)/EI
	w := ends[1] - ends[2]*x - (M0*x*x/2+V0*x*x*x/6)/EI

	for _, ld := range e.Loads {
		switch {
		case ld.Dof == df.Uz && ld.Degree == "dirac":
			if y := past(ld.Pos); !math.IsNaN(y) {
				V -= ld.V0
				M -= ld.V0 * y
				phi -= ld.V0 * y * y / 2 / EI
				w += ld.V0 * y * y * y / 6 / EI
			}
		case ld.Dof == df.Phiy && ld.Degree == "dirac":
			if y := past(ld.Pos); !math.IsNaN(y) {
				M -= ld.V0
				phi -= ld.V0 * y / EI
				w += ld.V0 * y * y / 2 / EI
			}
		case ld.Dof == df.Uz && ld.Degree == "constant":
			V -= ld.V0 * x
			M -= ld.V0 * x * x / 2
			phi -= ld.V0 * x * x * x / 6 / EI
			w += ld.V0 * x * x * x * x / 24 / EI
		case ld.Dof == df.Uz && ld.Degree == "linear":
			k := (ld.V1 - ld.V0) / l
			V -= ld.V0*x + k*x*x/2
			M -= ld.V0*x*x/2 + k*x*x*x/6
			phi -= (ld.V0*x*x*x/6 + k*x*x*x*x/24) / EI
			w += (ld.V0*x*x*x*x/24 + k*x*x*x*x*x/120) / EI
		}
	}

	switch which {
	case df.FctUz:
		return w, true
	case df.FctPhiy:
		return phi, true
	case df.FctVz:
		return V, true
	}
	return M, true
}

func matVec(a [][]float64, x []float64) []float64 {
	y := make([]float64, len(a))
	for i := range a {
		for j := range x {
			y[i] += a[i][j] * x[j]
		}
	}
	return y
}

func normInf(a [][]float64) float64 {
	m := 0.0
	for i := range a {
		s := 0.0
		for _, v := range a[i] {
			s += math.Abs(v)
		}
		m = math.Max(m, s)
	}
	return m
}

// invert uses Gauss-Jordan elimination with partial pivoting.
func invert(in [][]float64) ([][]float64, bool) {
	n := len(in)
	a := make([][]float64, n)
	for i := range a {
		a[i] = make([]float64, 2*n)
		copy(a[i], in[i])
		a[i][n+i] = 1
	}
	for c := 0; c < n; c++ {
		p := c
		for i := c + 1; i < n; i++ {
			if math.Abs(a[i][c]) > math.Abs(a[p][c]) {
				p = i
			}
		}
		if math.Abs(a[p][c]) < 1e-14 {
			return nil, false
		}
		a[c], a[p] = a[p], a[c]
		pv := 1 / a[c][c]
		rc := a[c]
		for j := c; j < 2*n; j++ {
			rc[j] *= pv
		}
		for i := 0; i < n; i++ {
			if i == c {
				continue
			}
			f := a[i][c]
			if f == 0 {
				continue
			}
			ri := a[i]
			for j := c; j < 2*n; j++ {
				ri[j] -= f * rc[j]
			}
		}
	}
	inv := make([][]float64, n)
	for i := range inv {
		inv[i] = a[i][n:]
	}
	return inv, true
}

func (r *Ref) String() string { return fmt.Sprintf("ok=%v %v kappa=%.3g", r.OK, r.Why, r.Kappa) }
