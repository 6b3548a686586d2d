package main

import (
	"math"

	df "github.com/lubgr/deflect/deflect"
)

// These checks look at one result and the problem only; they need no reference solution.

// phys holds magnitudes for rounding, computed from the result itself.
type phys struct {
	spec *Spec
	s    *Snap
	D, F map[df.Index]float64
	Max  float64
	n    float64
	sc   *Scale
}

func newPhys(spec *Spec, s *Snap, sc *Scale) *phys {
	p := &phys{spec: spec, s: s, sc: sc, D: map[df.Index]float64{}, n: float64(len(s.Prim)) + 5}
	kd := map[df.Index]float64{}
	for i := range spec.Elems {
		e := &spec.Elems[i]
		lo := spec.local(e)
		for a := range lo.r {
			node := e.N0
			if lo.end[a] == 1 {
				node = e.N1
			}
			for d, f := range spec.toLocal(e, lo.dofs[a]) {
				kd[df.Index{NodalID: node, Dof: d}] += f * f * lo.k[a][a]
			}
		}
	}
	for i, v := range kd {
		p.D[i] = math.Sqrt(v)
		p.Max = math.Max(p.Max, p.D[i]*math.Abs(s.Prim[i]))
	}
	p.F = spec.turned(p.D)
	return p
}

// floor is how far rounding in k·d can move a force at a degree of freedom.
func (p *phys) floor(i df.Index) float64 { return p.F[i] * (100*eps*p.n*p.Max + p.sc.noise) }

// ends gives the forces the nodes exert on the member's ends, from its curves: local directions u, w,
// phi at both ends; and the magnitude of what they were computed from.
func (p *phys) ends(e *ElemSpec) (f, mag [6]float64) {
	l := p.spec.length(e)
	N, V, M := p.s.Curves[ckey(e.ID, df.FctNx)], p.s.Curves[ckey(e.ID, df.FctVz)], p.s.Curves[ckey(e.ID, df.FctMy)]
	f[0], f[3] = -at(N, 0, false), at(N, l, true)
	q := 0.0
	if e.isFrame() {
		f[1], f[4] = -at(V, 0, false), at(V, l, true)
		f[2], f[5] = -at(M, 0, false), at(M, l, true)
	}
	for _, ld := range e.Loads {
		a := math.Max(math.Abs(ld.V0), math.Abs(ld.V1))
		if ld.Degree != "dirac" {
			q += a * l
			continue
		}
		if ld.Dof == df.Phiy {
			q += a / l
		} else {
			q += a
		}
		k := map[df.Dof]int{df.Ux: 0, df.Uz: 1, df.Phiy: 2}[ld.Dof]
		// A load right at an end goes into the node: curves start after it, and end before it.
		if ld.Pos <= 1e-9*l {
			f[k] -= ld.V0
		} else if ld.Pos >= l*(1-1e-9) {
			f[3+k] -= ld.V0
		}
	}
	fu := math.Max(math.Abs(f[0]), math.Abs(f[3])) + q
	fw := math.Max(math.Max(math.Abs(f[1]), math.Abs(f[4])), math.Max(math.Abs(f[2]), math.Abs(f[5]))/l) + q
	mag = [6]float64{fu, fw, fw * l, fu, fw, fw * l}
	return f, mag
}

func dirIndex(lo df.Dof, end int) int {
	return 3*end + map[df.Dof]int{df.Ux: 0, df.Uz: 1, df.Phiy: 2}[lo]
}

// equilibrium checks C10.
func (s *Snap) equilibrium(spec *Spec, sc *Scale, v *viols) {
	p := newPhys(spec, s, sc)
	used := sortedUsed(spec)
	for _, i := range used {
		if _, ok := s.Prim[i]; !ok || bad(s.Prim[i]) || bad(s.Reac[i]) {
			v.add("value-missing", "no usable values for %v/%v: %v, reaction %v", i.NodalID, i.Dof, s.Prim[i], s.Reac[i])
			return
		}
	}

	sum, mag := map[df.Index]float64{}, map[df.Index]float64{}
	fl := map[df.Index]float64{}
	for i := range spec.Elems {
		e := &spec.Elems[i]
		for _, fc := range elemFcts(e) {
			c := s.Curves[ckey(e.ID, fc)]
			if len(c) == 0 {
				v.add("curve-missing", "no curve %v for %v", fc, e.ID)
				return
			}
		}
		f, m := p.ends(e)
		for end, node := range []string{e.N0, e.N1} {
			for _, ld := range []df.Dof{df.Ux, df.Uz, df.Phiy} {
				if ld != df.Ux && !e.isFrame() {
					continue
				}
				for d, fac := range spec.toLocal(e, ld) {
					i := df.Index{NodalID: node, Dof: d}
					sum[i] += fac * f[dirIndex(ld, end)]
					mag[i] += math.Abs(fac) * m[dirIndex(ld, end)]
				}
			}
		}
	}
	load := map[df.Index]float64{}
	for _, n := range spec.Nodal {
		load[n.index()] += n.V
		mag[n.index()] += math.Abs(n.V)
	}
	sup := spec.supported()
	linkNode := map[string]bool{}
	for _, l := range spec.Links {
		linkNode[l.Node] = true
	}
	total := 0.0
	for _, i := range used {
		mag[i] += math.Abs(s.Reac[i])
		total = math.Max(total, mag[i])
	}
	for _, i := range used {
		// A moment tolerance also covers rounding of forces with arms.
		fl[i] = 1e-8*mag[i] + 3*p.floor(i) + 1e-12*total
		if d := math.Abs(s.Reac[i] + load[i] - sum[i]); !(d <= fl[i]) {
			v.add("node-unbalanced", "node %v, direction %v: reaction %.10g plus load %.10g against member forces %.10g (off by %.3g, tolerance %.2g)",
				i.NodalID, i.Dof, s.Reac[i], load[i], sum[i], d, fl[i])
		}
		if sup[i] == 0 && !(linkNode[i.NodalID] && i.Dof <= df.Uy) {
			if !(math.Abs(s.Reac[i]) <= fl[i]) {
				v.add("reaction-unsupported", "reaction %.10g at %v/%v, which is not supported (tolerance %.2g)", s.Reac[i], i.NodalID, i.Dof, fl[i])
			}
		}
	}

	// At inclined supports, only the blocked directions take a reaction.
	rows := spec.linkRows()
	for _, n := range sortedKeys(linkNode) {
		var basis [][3]float64
		for k, l := range spec.Links {
			if l.Node == n {
				basis = append(basis, vec(rows[k]))
			}
		}
		for _, d := range spec.Dir {
			if d.Node == n && d.Dof <= df.Uy {
				basis = append(basis, vec(map[df.Index]float64{d.index(): 1}))
			}
		}
		r := [3]float64{}
		tol := 0.0
		for d := df.Ux; d <= df.Uy; d++ {
			i := df.Index{NodalID: n, Dof: d}
			r[d] = s.Reac[i]
			tol += fl[i]
		}
		rest := r
		for _, b := range orthonormal(basis) {
			dot := r[0]*b[0] + r[1]*b[1] + r[2]*b[2]
			for k := range rest {
				rest[k] -= dot * b[k]
			}
		}
		if d := math.Sqrt(rest[0]*rest[0] + rest[1]*rest[1] + rest[2]*rest[2]); !(d <= tol+1e-9*norm3(r)) {
			v.add("reaction-along-slide", "inclined support at %v: reaction (x, z, y) = %.8g has %.6g along its free direction (tolerance %.2g)", n, r, d, tol)
		}
	}

	s.globalEquilibrium(spec, p, v)
}

func norm3(r [3]float64) float64 { return math.Sqrt(r[0]*r[0] + r[1]*r[1] + r[2]*r[2]) }

func vec(row map[df.Index]float64) (x [3]float64) {
	for i, f := range row {
		if i.Dof <= df.Uy {
			x[i.Dof] = f
		}
	}
	return x
}

func orthonormal(in [][3]float64) (out [][3]float64) {
	for _, a := range in {
		for _, b := range out {
			d := a[0]*b[0] + a[1]*b[1] + a[2]*b[2]
			for k := range a {
				a[k] -= d * b[k]
			}
		}
		if n := norm3(a); n > 1e-7 {
			for k := range a {
				a[k] /= n
			}
			out = append(out, a)
		}
	}
	return out
}

// globalEquilibrium sums up reactions and loads, without looking at members' curves.
func (s *Snap) globalEquilibrium(spec *Spec, p *phys, v *viols) {
	var F, M, Fm, Mm [3]float64 // x, y, z; and magnitudes
	threeD, frames := false, false
	for i := range spec.Elems {
		threeD = threeD || !spec.planarElem(i)
		frames = frames || spec.Elems[i].isFrame()
	}
	// Moments about the middle of the structure, for less cancellation.
	var cx, cy, cz float64
	for _, n := range spec.Nodes {
		cx += n.X / float64(len(spec.Nodes))
		cy += n.Y / float64(len(spec.Nodes))
		cz += n.Z / float64(len(spec.Nodes))
	}
	add := func(x, y, z, fx, fy, fz, m float64) {
		x, y, z = x-cx, y-cy, z-cz
		for k, f := range []float64{fx, fy, fz} {
			F[k] += f
			Fm[k] += math.Abs(f)
		}
		for k, t := range [][2]float64{{y * fz, -z * fy}, {z * fx, -x * fz}, {x * fy, -y * fx}} {
			M[k] += t[0] + t[1]
			Mm[k] += math.Abs(t[0]) + math.Abs(t[1])
		}
		M[1] += m
		Mm[1] += math.Abs(m)
	}
	nodal := func(n string, d df.Dof, val float64) {
		nd := spec.node(n)
		switch d {
		case df.Ux:
			add(nd.X, nd.Y, nd.Z, val, 0, 0, 0)
		case df.Uy:
			add(nd.X, nd.Y, nd.Z, 0, val, 0, 0)
		case df.Uz:
			add(nd.X, nd.Y, nd.Z, 0, 0, val, 0)
		case df.Phiy:
			add(nd.X, nd.Y, nd.Z, 0, 0, 0, val)
		}
	}
	tolF, tolM := 0.0, 0.0
	size := 0.0
	for _, n := range spec.Nodes {
		size = math.Max(size, math.Abs(n.X-cx)+math.Abs(n.Y-cy)+math.Abs(n.Z-cz))
	}
	for _, i := range sortedUsed(spec) {
		nodal(i.NodalID, i.Dof, s.Reac[i])
		if i.Dof == df.Phiy {
			tolM += p.floor(i)
		} else {
			tolF += p.floor(i)
			tolM += p.floor(i) * size
		}
	}
	for _, n := range spec.Nodal {
		nodal(n.Node, n.Dof, n.V)
	}
	for i := range spec.Elems {
		e := &spec.Elems[i]
		l := spec.length(e)
		x, y, z := spec.dir(e)
		n0 := spec.node(e.N0)
		pt := func(pos, val float64, d df.Dof) {
			px, py, pz := n0.X+pos*x, n0.Y+pos*y, n0.Z+pos*z
			switch d {
			case df.Ux:
				add(px, py, pz, val*x, val*y, val*z, 0)
			case df.Uz:
				add(px, py, pz, val*z, 0, -val*x, 0)
			case df.Phiy:
				add(px, py, pz, 0, 0, 0, -val)
			}
		}
		for _, ld := range e.Loads {
			switch ld.Degree {
			case "dirac":
				pt(ld.Pos, ld.V0, ld.Dof)
			case "constant":
				pt(l/2, ld.V0*l, ld.Dof)
			default: // two triangles
				pt(l/3, ld.V0*l/2, ld.Dof)
				pt(2*l/3, ld.V1*l/2, ld.Dof)
			}
		}
	}
	names := []string{"x", "y", "z"}
	all := Fm[0] + Fm[1] + Fm[2]
	for k := range F {
		if k == 1 && !threeD {
			continue
		}
		if tol := 1e-8*Fm[k] + 1e-11*all + tolF; !(math.Abs(F[k]) <= tol) {
			v.add("structure-unbalanced", "forces in %v add up to %.10g (sum of magnitudes %.6g, tolerance %.2g)", names[k], F[k], Fm[k], tol)
		}
		if k != 1 && (frames || !threeD) {
			continue
		}
		if tol := 1e-8*Mm[k] + 1e-11*all*size + tolM; !(math.Abs(M[k]) <= tol) {
			v.add("structure-unbalanced", "moments about %v add up to %.10g (sum of magnitudes %.6g, tolerance %.2g)", names[k], M[k], Mm[k], tol)
		}
	}
	if !frames && !threeD {
		// 2d trusses: moments about y still balance.
		if tol := 1e-8*Mm[1] + 1e-11*all*size + tolM; !(math.Abs(M[1]) <= tol) {
			v.add("structure-unbalanced", "moments about y add up to %.10g (sum of magnitudes %.6g, tolerance %.2g)", M[1], Mm[1], tol)
		}
	}
}

// deriv evaluates the derivative of the curve.
func deriv(c df.PolySequence, x float64, left bool) (val, mag float64) {
	tol := 1e-9 * math.Max(1, c[len(c)-1].XE)
	for i, p := range c {
		if x < p.XE-tol || i == len(c)-1 || left && x <= p.XE+tol {
			for n := 1; n < len(p.Coeff); n++ {
				t := float64(n) * p.Coeff[n] * math.Pow(x, float64(n-1))
				val += t
				mag += math.Abs(t)
			}
			return val, mag
		}
	}
	return 0, 0
}

func magAt(c df.PolySequence, x float64) (mag float64) {
	for _, p := range c {
		for n := range p.Coeff {
			mag = math.Max(mag, math.Abs(p.Coeff[n]*math.Pow(x, float64(n))))
		}
	}
	return mag
}

// curvesConsistent checks C11 on one result.
func (s *Snap) curvesConsistent(spec *Spec, sc *Scale, v *viols) {
	p := newPhys(spec, s, sc)
	for i := range spec.Elems {
		e := &spec.Elems[i]
		l := spec.length(e)
		m := spec.Mats[e.Mat]
		EA, EI := m.E*m.area(), m.E*m.iyy()
		cs := map[df.Fct]df.PolySequence{}
		ok := true
		for _, f := range elemFcts(e) {
			c := s.Curves[ckey(e.ID, f)]
			cs[f] = c
			if !covers(c, l) {
				v.add("curve-domain", "%v of %v does not cover [0, %v] without gaps: %v", f, e.ID, l, domains(c))
				ok = false
				continue
			}
			for _, pc := range c {
				if len(pc.Coeff) == 0 {
					v.add("curve-empty", "%v of %v: piece [%v, %v] without coefficients", f, e.ID, pc.X0, pc.XE)
					ok = false
					continue
				}
				for _, x := range []float64{pc.X0, pc.XE, (pc.X0 + pc.XE) / 2} {
					y, err := pc.Eval(x)
					if err != nil || !(math.Abs(y-evalPiece(pc, x)) <= 1e-9*magAt(df.PolySequence{pc}, x)+1e-300) {
						v.add("eval", "%v of %v: evaluating [%v, %v] at %v gives %v, %v", f, e.ID, pc.X0, pc.XE, x, y, err)
					}
				}
				for _, d := range []float64{1e-7 * (1 + math.Abs(pc.XE)), 1e-3 * (1 + l), l, 7 * l, 1e6} {
					for _, x := range []float64{pc.X0 - d, pc.XE + d} {
						if y, err := pc.Eval(x); err == nil {
							v.add("eval-outside", "%v of %v: evaluating [%v, %v] at %v gives %v, and no error", f, e.ID, pc.X0, pc.XE, x, y)
						}
					}
				}
			}
		}
		if !ok {
			continue
		}

		// Ends: displacements meet the nodes, forces vanish at hinges.
		var dmag, pmag float64 // displacement, rotation magnitudes around the member
		for _, n := range []string{e.N0, e.N1} {
			for _, d := range e.dofs() {
				a := math.Abs(s.Prim[df.Index{NodalID: n, Dof: d}])
				if d == df.Phiy {
					pmag = math.Max(pmag, a)
				} else {
					dmag = math.Max(dmag, a)
				}
			}
		}
		var wmag, umag, phimag float64
		for _, t := range []float64{0, 0.25, 0.5, 0.75, 1} {
			umag = math.Max(umag, math.Abs(at(cs[df.FctUx], t*l, false)))
			if e.isFrame() {
				wmag = math.Max(wmag, magAt(cs[df.FctUz], t*l))
				phimag = math.Max(phimag, magAt(cs[df.FctPhiy], t*l))
			}
		}
		umag += magAt(cs[df.FctUx], l)
		f, mag := p.ends(e)
		for end, node := range []string{e.N0, e.N1} {
			x := float64(end) * l
			for _, ld := range []df.Dof{df.Ux, df.Uz, df.Phiy} {
				if ld != df.Ux && !e.isFrame() {
					continue
				}
				if spec.hinged(e, end, ld) {
					k := dirIndex(ld, end)
					kd := 0.0
					switch ld {
					case df.Ux:
						kd = EA / l * (dmag + umag)
					case df.Uz:
						kd = 24 * EI / l / l / l * (dmag + wmag + (pmag+phimag)*l)
					case df.Phiy:
						kd = 24 * EI / l / l * (dmag + wmag + (pmag+phimag)*l)
					}
					if tol := 1e-8*mag[k] + 1e-13*kd + sc.elemNoise(e.ID, map[df.Dof]df.Fct{df.Ux: df.FctNx, df.Uz: df.FctVz, df.Phiy: df.FctMy}[ld]); !(math.Abs(f[k]) <= tol) {
						v.add("hinge-force", "hinge %v at %v of member %v transmits %.8g (tolerance %.2g)", ld, node, e.ID, f[k], tol)
					}
					continue
				}
				want := 0.0
				for _, d := range []df.Dof{df.Ux, df.Uz, df.Uy, df.Phiy} {
					fac := spec.toLocal(e, ld)[d]
					want += fac * s.Prim[df.Index{NodalID: node, Dof: d}]
				}
				fct := map[df.Dof]df.Fct{df.Ux: df.FctUx, df.Uz: df.FctUz, df.Phiy: df.FctPhiy}[ld]
				got := at(cs[fct], x, end == 1)
				var tol float64
				switch ld {
				case df.Ux:
					tol = 1e-9 * (dmag + umag)
				case df.Uz:
					tol = 1e-9 * (dmag + wmag + pmag*l)
				case df.Phiy:
					tol = 1e-9 * (pmag + phimag + (dmag+wmag)/l)
				}
				if !(math.Abs(got-want) <= tol+sc.elemNoise(e.ID, fct)) {
					v.add("end-displacement", "%v of %v at its end %v is %.10g, the node says %.10g (tolerance %.2g)", fct, e.ID, node, got, want, tol)
				}
			}
		}

		// Slopes.
		xs := []float64{0, l}
		for _, c := range cs {
			for _, pc := range c {
				xs = append(xs, pc.X0, pc.XE)
			}
		}
		for _, ld := range e.Loads {
			if ld.Degree == "dirac" {
				xs = append(xs, math.Min(l, ld.Pos))
			}
		}
		xs = uniq(xs, 1e-9*math.Max(1, l))
		q := func(d df.Dof, x float64) (val, mg float64) {
			for _, ld := range e.Loads {
				if ld.Dof != d || ld.Degree == "dirac" {
					continue
				}
				t := ld.V0
				if ld.Degree == "linear" {
					t += (ld.V1 - ld.V0) * x / l
				}
				val += t
				mg += math.Max(math.Abs(ld.V0), math.Abs(ld.V1))
			}
			return
		}
		slope := func(name string, of df.Fct, x float64, left bool, want, wmag float64) {
			nz := sc.elemNoise(e.ID, of) / l
			got, gm := deriv(cs[of], x, left)
			if tol := 1e-8*(wmag+gm) + nz; !(math.Abs(got-want) <= tol) {
				v.add("slope", "member %v at x=%.6g: %s: slope of %v is %.10g, want %.10g (tolerance %.2g)", e.ID, x, name, of, got, want, tol)
			}
		}
		for n := 0; n+1 < len(xs); n++ {
			a, b := xs[n], xs[n+1]
			for _, t := range []float64{0, 0.35, 1} {
				x, left := a+t*(b-a), t == 1
				qx, qm := q(df.Ux, x)
				slope("normal force and load", df.FctNx, x, left, -qx, qm+magAt(cs[df.FctNx], l)/l)
				N := at(cs[df.FctNx], x, left)
				slope("strain and normal force", df.FctUx, x, left, N/EA, magAt(cs[df.FctNx], l)/EA)
				if !e.isFrame() {
					continue
				}
				qz, qm := q(df.Uz, x)
				slope("shear and load", df.FctVz, x, left, -qz, qm+magAt(cs[df.FctVz], l)/l)
				slope("moment and shear", df.FctMy, x, left, at(cs[df.FctVz], x, left), magAt(cs[df.FctMy], l)/l+magAt(cs[df.FctVz], l))
				slope("curvature and moment", df.FctPhiy, x, left, at(cs[df.FctMy], x, left)/EI, magAt(cs[df.FctMy], l)/EI)
				slope("deflection and rotation", df.FctUz, x, left, -at(cs[df.FctPhiy], x, left), magAt(cs[df.FctPhiy], l)+magAt(cs[df.FctUz], l)/l)
			}
		}

		// Jumps.
		for n := 1; n+1 < len(xs); n++ {
			x := xs[n]
			jump := map[df.Dof]float64{}
			jm := 0.0
			for _, ld := range e.Loads {
				if ld.Degree == "dirac" && math.Abs(ld.Pos-x) <= 2e-9*math.Max(1, l) {
					jump[ld.Dof] -= ld.V0
					jm += math.Abs(ld.V0)
				}
			}
			for _, fct := range elemFcts(e) {
				want := 0.0
				switch fct {
				case df.FctNx:
					want = jump[df.Ux]
				case df.FctVz:
					want = jump[df.Uz]
				case df.FctMy:
					want = jump[df.Phiy]
				}
				got := at(cs[fct], x, false) - at(cs[fct], x, true)
				mg := magAt(cs[fct], x)
				if want != 0 {
					mg += jm
				}
				if tol := 1e-8*mg + sc.elemNoise(e.ID, fct); !(math.Abs(got-want) <= tol) {
					v.add("jump", "%v of %v jumps by %.10g at x=%.6g, want %.10g (tolerance %.2g)", fct, e.ID, got, x, want, tol)
				}
			}
		}
	}
}

func uniq(xs []float64, tol float64) []float64 {
	sortF(xs)
	out := xs[:1]
	for _, x := range xs[1:] {
		if x-out[len(out)-1] > tol {
			out = append(out, x)
		}
	}
	return out
}

func sortF(x []float64) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

// trimmed checks curves queried with a tolerance against those queried without.
func trimmed(e *ElemSpec, f df.Fct, exact, got df.PolySequence, l, tol float64, v *viols) {
	if !covers(got, l) {
		v.add("curve-domain", "%v of %v with tolerance %v does not cover [0, %v] without gaps: %v", f, e.ID, tol, l, domains(got))
		return
	}
	allow := func(x float64) float64 {
		a := 0.0
		for n := 0; n < 8; n++ {
			cm := 0.0
			for _, p := range exact {
				if n < len(p.Coeff) {
					cm = math.Max(cm, math.Abs(p.Coeff[n]))
				}
			}
			a += tol * (1 + cm) * math.Pow(math.Max(x, 0), float64(n))
		}
		return a * float64(2+len(exact))
	}
	for _, p := range append(append(df.PolySequence{}, exact...), got...) {
		for _, t := range []float64{0, 0.5, 1} {
			x := p.X0 + t*(p.XE-p.X0)
			a, b := at(exact, x, t == 1), at(got, x, t == 1)
			if !(math.Abs(a-b) <= allow(x)+1e-9*magAt(exact, x)+1e-300) {
				v.add("trimmed", "%v of %v at x=%.6g is %.10g, and %.10g with tolerance %v (difference allowed %.2g)", f, e.ID, x, a, b, tol, allow(x))
				return
			}
		}
	}
}

// prescribed checks the supports in one result.
func (s *Snap) prescribed(spec *Spec, v *viols) {
	mU := 0.0
	for i, x := range s.Prim {
		if i.Dof <= df.Uy {
			mU = math.Max(mU, math.Abs(x))
		}
	}
	for _, d := range spec.Dir {
		got, ok := s.Prim[d.index()]
		if !ok || !(math.Abs(got-d.V) <= 1e-11*math.Abs(d.V)) {
			v.add("support-value", "%v/%v is %.12g, prescribed is %.12g", d.Node, d.Dof, got, d.V)
		}
	}
	rows := spec.linkRows()
	for k, row := range rows {
		sum, mag := 0.0, 0.0
		for d := df.Ux; d <= df.Uy; d++ {
			i := df.Index{NodalID: spec.Links[k].Node, Dof: d}
			sum += row[i] * s.Prim[i]
			mag += math.Abs(row[i] * s.Prim[i])
		}
		// Components come out of a rotation of all displacements of the node.
		for d := df.Ux; d <= df.Uy; d++ {
			mag += math.Abs(s.Prim[df.Index{NodalID: spec.Links[k].Node, Dof: d}])
		}
		if !(math.Abs(sum) <= 1e-11*mag) {
			v.add("inclined-value", "inclined support %+v: displacement in its blocked direction is %.12g", spec.Links[k], sum)
		}
	}
	_ = mU
}
