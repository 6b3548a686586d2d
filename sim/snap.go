package main

import (
	"fmt"
	"math"
	"sort"

	df "github.com/lubgr/deflect/deflect"
)

// Viol is one observed breach of a property.
type Viol struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	Task   int    `json:"task,omitempty"` // 1 based, 0 if it does not belong to one caller
}

type viols []Viol

func (v *viols) add(class, f string, a ...any) {
	if len(*v) < 12 {
		*v = append(*v, Viol{Class: class, Detail: fmt.Sprintf(f, a...)})
	}
}

const eps = 2.220446049250313e-16

// Snap is everything a result says at one moment.
type Snap struct {
	Prim, Reac map[df.Index]float64
	OrderP     []df.Index
	OrderR     []df.Index
	Total, Net int
	Curves     map[string]df.PolySequence
	Dups       []string
}

var allFcts = []df.Fct{df.FctUx, df.FctUz, df.FctUy, df.FctPhiy, df.FctPhiz, df.FctPhix, df.FctNx, df.FctVz,
	df.FctVy, df.FctMy, df.FctMz, df.FctMx}

func ckey(elem string, f df.Fct) string { return fmt.Sprintf("%s|%d", elem, f) }

func copyPoly(p df.PolySequence) df.PolySequence {
	c := make(df.PolySequence, len(p))
	for i := range p {
		c[i] = p[i]
		c[i].Coeff = append([]float64(nil), p[i].Coeff...)
	}
	return c
}

func take(res df.ProblemResult, zeroTol float64) *Snap {
	s := &Snap{Prim: map[df.Index]float64{}, Reac: map[df.Index]float64{}, Curves: map[string]df.PolySequence{}}
	s.Total, s.Net = res.Dimension()
	for _, v := range res.PrimaryAll() {
		if _, ok := s.Prim[v.Index]; ok {
			s.Dups = append(s.Dups, fmt.Sprintf("primary %v", v.Index))
		}
		s.Prim[v.Index] = v.Value
		s.OrderP = append(s.OrderP, v.Index)
	}
	for _, v := range res.ReactionAll() {
		if _, ok := s.Reac[v.Index]; ok {
			s.Dups = append(s.Dups, fmt.Sprintf("reaction %v", v.Index))
		}
		s.Reac[v.Index] = v.Value
		s.OrderR = append(s.OrderR, v.Index)
	}
	for _, c := range res.InterpolateAll(zeroTol) {
		k := ckey(c.Element, c.Quantity)
		if _, ok := s.Curves[k]; ok {
			s.Dups = append(s.Dups, "curve "+k)
		}
		s.Curves[k] = copyPoly(c.Piecewise)
		tidy(c.Piecewise, 1e-3)
	}
	return s
}

// tidy is what a caller may do with a curve it was given.
func tidy(p df.PolySequence, tol float64) {
	p.TrimTrailingZeros(tol)
	p.CompactIdentical(tol)
}

// digest is a fingerprint of all numbers, for the determinism check.
func (s *Snap) digest() uint64 {
	h := uint64(1)
	f := func(x float64) { h = mix(h ^ math.Float64bits(x)) }
	for _, i := range s.OrderP {
		h = mix(h ^ strHash(i.NodalID) ^ uint64(i.Dof))
		f(s.Prim[i])
		f(s.Reac[i])
	}
	for _, k := range sortedKeys(s.Curves) {
		h = mix(h ^ strHash(k))
		for _, p := range s.Curves[k] {
			f(p.X0)
			f(p.XE)
			for _, c := range p.Coeff {
				f(c)
			}
		}
	}
	return h
}

// Scale holds the magnitudes that decide how far rounding can move the numbers of one problem.
type Scale struct {
	tol     float64              // relative
	D, F    map[df.Index]float64 // for displacements, forces
	Max     float64              // largest D·|d|
	fU, fP  float64              // largest force, moment
	mU, mP  float64              // largest displacement, rotation
	N       int
	floor   float64 // relative to D·Max, for forces
	Kappa   float64
	elemD   map[string][2]float64
	elemLen map[string]float64
	spec    *Spec
	noise   float64
}

// elem is the noise in a member's curve.
func (sc *Scale) elemNoise(elem string, f df.Fct) float64 {
	l, d := sc.elemLen[elem], sc.elemD[elem]
	switch f {
	case df.FctNx, df.FctVz:
		return sc.noise * d[0]
	case df.FctMy:
		return sc.noise * (d[1] + d[0]*l)
	case df.FctPhiy:
		return sc.noise * (1/d[1] + 1/d[0]/l)
	}
	return sc.noise * (1/d[0] + l/d[1])
}

// sound tells if the problem is well-posed, comfortably, and not only after scaling either.
func sound(ref *Ref) bool { return ref.OK && ref.Kappa < kappaGen && ref.Raw < rawMax }

func usable(ref *Ref) bool { return ref.OK && ref.Kappa < kappaCheck && ref.Raw < 10*rawMax }

func newScale(ref *Ref) *Scale {
	sc := &Scale{tol: 1e-7 + ref.Kappa*eps*float64(ref.N)*10, D: ref.D, F: ref.spec.turned(ref.D), Max: ref.Max, fU: ref.fmaxU, fP: ref.fmaxP,
		N: ref.N, Kappa: ref.Kappa, spec: ref.spec, elemD: map[string][2]float64{}, elemLen: map[string]float64{}, noise: ref.noise}
	sc.floor = ref.Kappa * eps * float64(ref.N) * 10
	for i, u := range ref.U {
		if i.Dof == df.Phiy {
			sc.mP = math.Max(sc.mP, math.Abs(u))
		} else {
			sc.mU = math.Max(sc.mU, math.Abs(u))
		}
	}
	for i := range ref.spec.Elems {
		e := &ref.spec.Elems[i]
		l := ref.spec.length(e)
		m := ref.spec.Mats[e.Mat]
		sc.elemLen[e.ID] = l
		EA, EI := m.E*m.area(), m.E*m.iyy()
		if e.isFrame() {
			sc.elemD[e.ID] = [2]float64{math.Sqrt(math.Max(EA/l, 12*EI/l/l/l)), math.Sqrt(4 * EI / l)}
		} else {
			sc.elemD[e.ID] = [2]float64{math.Sqrt(EA / l), 1}
		}
		for _, x := range []float64{0, 0.25, 0.5, 0.75, 1} {
			if v, ok := ref.curve(e, df.FctUx, x*l, true); ok {
				sc.mU = math.Max(sc.mU, math.Abs(v))
			}
			if v, ok := ref.curve(e, df.FctUz, x*l, true); ok {
				sc.mU = math.Max(sc.mU, math.Abs(v))
			}
			if v, ok := ref.curve(e, df.FctPhiy, x*l, true); ok {
				sc.mP = math.Max(sc.mP, math.Abs(v))
			}
		}
		// Loads without end forces (in balance with each other) still make forces along the member.
		for _, ld := range e.Loads {
			a := math.Max(math.Abs(ld.V0), math.Abs(ld.V1))
			switch {
			case ld.Dof == df.Phiy:
				sc.fP = math.Max(sc.fP, a)
			case ld.Degree == "dirac":
				sc.fU = math.Max(sc.fU, a)
			default:
				sc.fU = math.Max(sc.fU, a*l)
			}
		}
	}
	return sc
}

// add widens the scale for a sum of results.
func (sc *Scale) plus(o *Scale, f float64) *Scale {
	c := *sc
	f = math.Abs(f)
	c.Max += f * o.Max
	c.noise += f * o.noise
	c.fU += f * o.fU
	c.fP += f * o.fP
	c.mU += f * o.mU
	c.mP += f * o.mP
	return &c
}

func (sc *Scale) scaled(f float64) *Scale {
	c := *sc
	f = math.Abs(f)
	c.Max *= f
	c.noise *= f
	c.fU *= f
	c.fP *= f
	c.mU *= f
	c.mP *= f
	return &c
}

func (sc *Scale) primTol(i df.Index) float64 {
	d := sc.D[i]
	if d == 0 {
		return 1e-300
	}
	return (sc.tol*sc.Max + sc.noise) / d
}

func (sc *Scale) reacTol(i df.Index) float64 {
	f := sc.fU
	if i.Dof == df.Phiy {
		f = sc.fP
	}
	return 1e-7*f + (sc.floor*sc.Max+sc.noise)*sc.F[i] + 1e-13*sc.fU
}

func (sc *Scale) curveTol(elem string, f df.Fct) float64 {
	l := sc.elemLen[elem]
	d := sc.elemD[elem]
	n := sc.elemNoise(elem, f)
	switch f {
	case df.FctNx, df.FctVz:
		return n + 1e-7*(sc.fU+sc.fP/l*1e-3) + sc.floor*d[0]*sc.Max
	case df.FctMy:
		return n + 1e-7*(sc.fP+sc.fU*l) + sc.floor*(d[1]+d[0]*l)*sc.Max
	case df.FctPhiy:
		return n + sc.tol*(sc.mP+sc.mU/l*1e-3) + sc.floor*sc.Max/d[1]
	}
	return n + sc.tol*(sc.mU+sc.mP*l) + sc.floor*sc.Max/d[0]
}

func elemFcts(e *ElemSpec) []df.Fct {
	if e.isFrame() {
		return []df.Fct{df.FctUx, df.FctNx, df.FctUz, df.FctPhiy, df.FctVz, df.FctMy}
	}
	return []df.Fct{df.FctUx, df.FctNx}
}

func bad(x float64) bool { return math.IsNaN(x) || math.IsInf(x, 0) }

// complete checks that the result has exactly the values and curves the problem calls for.
func (s *Snap) complete(spec *Spec, v *viols) bool {
	used := spec.used()
	n := len(*v)
	for _, d := range s.Dups {
		v.add("listed-twice", "%v listed twice", d)
	}
	for _, i := range sortedUsed(spec) {
		if _, ok := s.Prim[i]; !ok {
			v.add("value-missing", "no primary value for %v", i)
		}
		if _, ok := s.Reac[i]; !ok {
			v.add("value-missing", "no reaction for %v", i)
		}
	}
	for _, i := range s.OrderP {
		if !used[i] {
			v.add("value-extra", "unexpected primary value for %v", i)
		}
	}
	want := map[string]bool{}
	for i := range spec.Elems {
		e := &spec.Elems[i]
		for _, f := range elemFcts(e) {
			want[ckey(e.ID, f)] = true
			if len(s.Curves[ckey(e.ID, f)]) == 0 {
				v.add("curve-missing", "no curve %v for %v", f, e.ID)
			}
		}
	}
	for _, k := range sortedKeys(s.Curves) {
		c := s.Curves[k]
		if !want[k] && len(c) > 0 {
			v.add("curve-extra", "unexpected curve %v", k)
		}
		if want[k] {
			for _, p := range c {
				if len(p.Coeff) == 0 {
					v.add("curve-empty", "curve %v without coefficients", k)
				}
			}
		}
	}
	if s.Total != len(used) || s.Net != len(used)-len(spec.supported()) {
		v.add("dimension", "dimension %v/%v, want %v/%v", s.Total, s.Net, len(used), len(used)-len(spec.supported()))
	}
	return len(*v) == n
}

func evalPiece(p df.PolyPiece, x float64) float64 {
	y := 0.0
	for i := len(p.Coeff) - 1; i >= 0; i-- {
		y = y*x + p.Coeff[i]
	}
	return y
}

// at evaluates a curve; at a boundary between pieces, left selects the piece before it.
func at(c df.PolySequence, x float64, left bool) float64 {
	if len(c) == 0 {
		return math.NaN()
	}
	tol := 1e-9 * math.Max(1, c[len(c)-1].XE)
	for i, p := range c {
		last := i == len(c)-1
		if x < p.XE-tol || last || left && x <= p.XE+tol {
			return evalPiece(p, x)
		}
	}
	return math.NaN()
}

// matches compares the result with the reference solution.
func (s *Snap) matches(ref *Ref, v *viols) {
	sc := newScale(ref)
	spec := ref.spec
	if !s.complete(spec, v) {
		return
	}
	for _, i := range s.OrderP {
		if d := math.Abs(s.Prim[i] - ref.U[i]); !(d <= sc.primTol(i)) {
			v.add("primary", "%v/%v is %.10g, want %.10g (tolerance %.2g)", i.NodalID, i.Dof, s.Prim[i], ref.U[i], sc.primTol(i))
		}
		if d := math.Abs(s.Reac[i] - ref.R[i]); !(d <= sc.reacTol(i)) {
			v.add("reaction", "reaction %v/%v is %.10g, want %.10g (tolerance %.2g)", i.NodalID, i.Dof, s.Reac[i], ref.R[i], sc.reacTol(i))
		}
	}
	for i := range spec.Elems {
		e := &spec.Elems[i]
		for _, f := range elemFcts(e) {
			c := s.Curves[ckey(e.ID, f)]
			if !covers(c, spec.length(e)) {
				v.add("curve-domain", "%v of %v does not cover [0, %v] without gaps: %v", f, e.ID, spec.length(e), domains(c))
				continue
			}
			tol := sc.curveTol(e.ID, f)
			for _, p := range c {
				for _, t := range []float64{0, 0.31, 0.77, 1} {
					x := p.X0 + t*(p.XE-p.X0)
					want, _ := ref.curve(e, f, x, t == 1)
					if got := evalPiece(p, x); !(math.Abs(got-want) <= tol) {
						v.add("curve", "%v of %v at x=%.6g is %.10g, want %.10g (tolerance %.2g)", f, e.ID, x, got, want, tol)
						break
					}
				}
			}
			// Loads may sit inside of a piece the result claims to be smooth.
			for _, ld := range e.Loads {
				if ld.Degree != "dirac" || ld.Pos <= 0 || ld.Pos >= spec.length(e)*(1-1e-9) {
					continue
				}
				for _, left := range []bool{true, false} {
					want, _ := ref.curve(e, f, ld.Pos, left)
					if got := at(c, ld.Pos, left); !(math.Abs(got-want) <= tol) {
						v.add("curve", "%v of %v at the load at x=%.6g (left %v) is %.10g, want %.10g (tolerance %.2g)", f, e.ID, ld.Pos, left, got, want, tol)
					}
				}
			}
		}
	}
}

func domains(c df.PolySequence) (l [][2]float64) {
	for _, p := range c {
		l = append(l, [2]float64{p.X0, p.XE})
	}
	return l
}

func covers(c df.PolySequence, l float64) bool {
	if len(c) == 0 {
		return false
	}
	tol := 1e-9 * math.Max(1, l)
	x := 0.0
	for _, p := range c {
		if !(math.Abs(p.X0-x) <= tol) || !(p.XE >= p.X0) {
			return false
		}
		x = p.XE
	}
	return math.Abs(x-l) <= tol
}

// same compares two results of one problem that may differ by rounding.
func (s *Snap) same(o *Snap, sc *Scale, v *viols, what string) {
	if len(s.Prim) != len(o.Prim) || len(s.Reac) != len(o.Reac) || s.Total != o.Total || s.Net != o.Net {
		v.add("values-differ", "%s: different sets of values (%v and %v)", what, len(s.Prim), len(o.Prim))
		return
	}
	for _, i := range s.OrderP {
		x, ok := o.Prim[i]
		if !ok {
			v.add("values-differ", "%s: %v only in one of them", what, i)
			continue
		}
		if d := math.Abs(s.Prim[i] - x); !(d <= 2*sc.primTol(i)) {
			v.add("primary-differs", "%s: %v/%v is %.12g and %.12g", what, i.NodalID, i.Dof, s.Prim[i], x)
		}
		if d := math.Abs(s.Reac[i] - o.Reac[i]); !(d <= 2*sc.reacTol(i)) {
			v.add("reaction-differs", "%s: reaction %v/%v is %.12g and %.12g", what, i.NodalID, i.Dof, s.Reac[i], o.Reac[i])
		}
	}
	for _, k := range sortedKeys(s.Curves) {
		c := s.Curves[k]
		if len(o.Curves[k]) == 0 && len(c) > 0 {
			v.add("curves-differ", "%s: curve %v only in one of them", what, k)
		}
	}
	for i := range sc.spec.Elems {
		e := &sc.spec.Elems[i]
		for _, f := range elemFcts(e) {
			a, b := s.Curves[ckey(e.ID, f)], o.Curves[ckey(e.ID, f)]
			if (len(a) == 0) != (len(b) == 0) {
				v.add("curves-differ", "%s: curve %v of %v only in one of them", what, f, e.ID)
				continue
			}
			tol := 2 * sc.curveTol(e.ID, f)
			for _, p := range a {
				for _, t := range []float64{0, 0.4, 1} {
					x := p.X0 + t*(p.XE-p.X0)
					if d := math.Abs(evalPiece(p, x) - at(b, x, t == 1)); !(d <= tol) {
						v.add("curve-differs", "%s: %v of %v at x=%.6g is %.12g and %.12g", what, f, e.ID, x, evalPiece(p, x), at(b, x, t == 1))
						break
					}
				}
			}
		}
	}
}

// identical tells if two snapshots are bit by bit the same, leaving out curves of some members.
func (s *Snap) identical(o *Snap, skip map[string]bool, v *viols, what string) {
	if len(s.OrderP) != len(o.OrderP) || len(s.OrderR) != len(o.OrderR) || s.Total != o.Total || s.Net != o.Net {
		v.add("result-changed", "%s: number of values changed", what)
		return
	}
	for n, i := range s.OrderP {
		if o.OrderP[n] != i || o.OrderR[n] != s.OrderR[n] {
			v.add("result-changed", "%s: listing changed at %v", what, i)
			return
		}
		if !eqBits(s.Prim[i], o.Prim[i]) {
			v.add("result-changed", "%s: %v/%v was %.12g and is %.12g", what, i.NodalID, i.Dof, s.Prim[i], o.Prim[i])
		}
		if !eqBits(s.Reac[i], o.Reac[i]) {
			v.add("result-changed", "%s: reaction %v/%v was %.12g and is %.12g", what, i.NodalID, i.Dof, s.Reac[i], o.Reac[i])
		}
	}
	for _, k := range sortedKeys(s.Curves) {
		if !skip[elemOf(k)] {
			if d := polyDiff(s.Curves[k], o.Curves[k]); d != "" {
				v.add("result-changed", "%s: curve %v changed: %v", what, k, d)
			}
		}
	}
	for _, k := range sortedKeys(o.Curves) {
		if _, ok := s.Curves[k]; !ok && !skip[elemOf(k)] {
			v.add("result-changed", "%s: new curve %v", what, k)
		}
	}
}

func elemOf(key string) string {
	for i := len(key) - 1; i >= 0; i-- {
		if key[i] == '|' {
			return key[:i]
		}
	}
	return key
}

func eqBits(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

func polyDiff(a, b df.PolySequence) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%v pieces and %v pieces", len(a), len(b))
	}
	for i := range a {
		if a[i].X0 != b[i].X0 || a[i].XE != b[i].XE || len(a[i].Coeff) != len(b[i].Coeff) {
			return fmt.Sprintf("piece %v: %v and %v", i, a[i], b[i])
		}
		for j := range a[i].Coeff {
			if !eqBits(a[i].Coeff[j], b[i].Coeff[j]) {
				return fmt.Sprintf("piece %v: %v and %v", i, a[i], b[i])
			}
		}
	}
	return ""
}

func sortedKeys[K ~string | ~int, V any](m map[K]V) []K {
	l := make([]K, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}
