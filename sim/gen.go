package main

import (
	"fmt"
	"math"
	"strings"

	df "github.com/lubgr/deflect/deflect"
)

const kappaGen = 3e6   // structures worse than this are not generated
const rawMax = 1e10    // stiffest to softest, beyond what a solver without scaling can be asked for
const kappaCheck = 3e7 // and beyond this no numbers are compared

// GenOpts limits what the generator produces.
type GenOpts struct {
	JSON       bool // expressible as a document
	MaxElems   int
	NoSettle   bool
	WantLink   bool
	WantSettle bool
	WantHinge  bool
	NoLoads    bool
	Kind       string
	Large      bool // more nodes, members and equations than one draws by hand
}

var idStyles = []func(i int) string{
	func(i int) string { return string(rune('A' + i)) },
	func(i int) string { return fmt.Sprintf("n%d", i+1) },
	func(i int) string { return fmt.Sprintf("%d", 30-i) },
	func(i int) string { return fmt.Sprintf("Knoten %d", i*7%31) },
	func(i int) string {
		return string([]rune("αβγδεζηθικλμνξοπρστυφχψω")[i%24]) + fmt.Sprint(i/24)
	},
	func(i int) string { return string(rune('a'+(i*11)%26)) + string(rune('A'+i%26)) },
	func(i int) string {
		return string([]rune("ÄäÖöÜüßσςéèẞıİκK一丁七万丈三上下")[i%24]) + strings.Repeat("'", i/24)
	},
}

// nameAlphabets are what names that are easily mixed up are made of: upper and lower case, digits,
// prefixes of each other, white space, quotes, composed and decomposed letters.
var nameAlphabets = [][]string{
	{"a", "A", "b"},
	{"m", "1", "2"},
	{"0", "1", "."},
	{"n", " ", "N"},
	{"/", "\\", "\"", "'"},
	{"\u00e9", "e\u0301", "E"},
	{"-", "_", "x"},
	{"U", "x", "z"},
	{"\u00df", "ss", "S", "\u017f"},
}

// confusable makes n different names.
func confusable(r *Rng, n int) []string {
	al := nameAlphabets[r.N(len(nameAlphabets))]
	var l []string
	seen := map[string]bool{}
	for k := 0; len(l) < n; k++ {
		s := ""
		for i := r.In(1, 2+k/20); i > 0; i-- {
			s += al[r.N(len(al))]
		}
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
	}
	return l
}

func round(x float64, d int) float64 {
	p := math.Pow(10, float64(d))
	return math.Round(x*p) / p
}

// genSpec makes a random well-posed problem.
func genSpec(r *Rng, o GenOpts) *Spec {
	for try := 0; ; try++ {
		s := genOnce(r, o)
		if try > 60 {
			s = fallback(r, o)
		}
		if s == nil {
			continue
		}
		ref := solveRef(s)
		if sound(ref) {
			return s
		}
	}
}

func fallback(r *Rng, o GenOpts) *Spec {
	s := &Spec{Note: "fallback"}
	s.Mats = []MatSpec{{E: 2e8, Nu: 0.3, Rho: 1, A: 0.01, I: 1e-4}}
	s.Nodes = []NodeSpec{{ID: "A"}, {ID: "B", X: 3}}
	s.Elems = []ElemSpec{{ID: "AB", Kind: "frame2d", N0: "A", N1: "B"}}
	s.Dir = []NVal{{"A", df.Ux, 0}, {"A", df.Uz, 0}, {"A", df.Phiy, 0}}
	if !o.NoLoads {
		s.Nodal = []NVal{{"B", df.Uz, r.Fin(1, 10)}}
	}
	return s
}

func genMat(r *Rng) MatSpec {
	m := MatSpec{E: pick(r, 2.1e11, 3e10, 7e10, 1e7, 30000.0, 1.0), Nu: pick(r, 0.3, 0.2, 0), Rho: pick(r, 7850.0, 2500, 1)}
	if r.P(0.4) {
		m.Rect = true
		m.B = round(r.Fin(0.05, 0.5), 3)
		m.H = round(r.Fin(0.05, 0.5), 3)
	} else {
		m.A = round(r.Fin(0.001, 0.2), 5)
		m.I = round(m.A*r.Fin(0.001, 0.1), 9)
	}
	return m
}

func genOnce(r *Rng, o GenOpts) *Spec {
	s := &Spec{}
	nm := pick(r, 1, 1, 2, 3, 4)
	base := genMat(r)
	for i := 0; i < nm; i++ {
		m := genMat(r)
		m.E = base.E * pick(r, 1, 1, 0.5, 3)
		if i > 0 && r.P(0.4) {
			// The same material with another section, or the other way round.
			o := s.Mats[r.N(i)]
			if r.P(0.5) {
				m.E, m.Nu, m.Rho = o.E, o.Nu, o.Rho
			} else {
				o.E, o.Nu, o.Rho = m.E, m.Nu, m.Rho
				m = o
			}
		}
		s.Mats = append(s.Mats, m)
	}

	style := idStyles[r.N(len(idStyles))]
	var names []string
	if r.P(0.25) {
		names = confusable(r, 70)
		style = func(i int) string { return names[i] }
	}
	max := o.MaxElems
	if max == 0 {
		max = pick(r, 3, 5, 8)
		if r.P(0.04) {
			max = 20
		}
	}
	unit := pick(r, 1.0, 1, 1, 3, 0.25, 12)
	shift := NodeSpec{}
	if r.P(0.3) {
		shift = NodeSpec{X: round(r.Fin(-20, 20), 2), Y: round(r.Fin(-5, 5), 2), Z: round(r.Fin(-20, 20), 2)}
	}
	node := func(x, y, z float64) string {
		id := style(len(s.Nodes))
		s.Nodes = append(s.Nodes, NodeSpec{id, round(x*unit+shift.X, 4), round(y*unit+shift.Y, 4), round(z*unit+shift.Z, 4)})
		return id
	}
	eidStyle := r.N(4)
	elem := func(kind, a, b string) *ElemSpec {
		if r.P(0.5) {
			a, b = b, a
		}
		id := fmt.Sprintf("e%d", len(s.Elems)+1)
		switch eidStyle {
		case 1:
			id = a + b
		case 2:
			id = fmt.Sprintf("%d", 50-3*len(s.Elems))
		case 3:
			id = "Stab " + a + "/" + b
		}
		if names != nil && eidStyle < 3 {
			id = names[69-len(s.Elems)]
		}
		if s.elem(id) != nil {
			id = fmt.Sprintf("x%d", len(s.Elems)+1)
		}
		s.Elems = append(s.Elems, ElemSpec{ID: id, Kind: kind, N0: a, N1: b, Mat: r.N(len(s.Mats))})
		return &s.Elems[len(s.Elems)-1]
	}

	kind := o.Kind
	if o.Large {
		kind = "large"
		prefix := pick(r, "", "n", "K/")
		style = func(i int) string { return prefix + fmt.Sprint(i+1) }
		names = nil
		if eidStyle == 1 {
			eidStyle = 0
		}
	}
	if kind == "" {
		kinds := []string{"bars", "chain", "chain", "chain", "portal", "portal", "tree", "truss2", "truss3", "mixed2", "single"}
		if !o.JSON && r.P(0.06) {
			kinds = []string{"frame3"}
		}
		kind = kinds[r.N(len(kinds))]
	}
	frame := "frame2d"

	switch kind {
	case "single":
		a := node(0, 0, 0)
		b := node(r.Fin(0.5, 3), 0, r.Fin(-2, 2))
		if r.P(0.3) {
			s.Nodes[1].Z = s.Nodes[0].Z
		}
		elem(frame, a, b)
	case "frame3":
		frame = "frame3d"
		fallthrough
	case "chain":
		n := r.In(1, min(max, 7))
		x, z := 0.0, 0.0
		prev := node(0, 0, 0)
		straight := r.P(0.4)
		for i := 0; i < n; i++ {
			switch {
			case straight:
				x += pick(r, 1, 2, r.Fin(0.5, 3))
			case r.P(0.2):
				z += pick(r, 1, -1, 2.5)
			default:
				x += r.Fin(0.3, 3)
				z += r.Fin(-1.5, 1.5)
			}
			next := node(x, 0, z)
			elem(frame, prev, next)
			prev = next
		}
	case "portal":
		bays := r.In(1, 1+max/5)
		storeys := 1
		if max >= 8 && r.P(0.4) {
			storeys = 2
		}
		g := map[[2]int]string{}
		for j := 0; j <= storeys; j++ {
			for i := 0; i <= bays; i++ {
				dx, dz := 0.0, 0.0
				if r.P(0.3) {
					dx, dz = r.Fin(-0.2, 0.2), r.Fin(-0.2, 0.2)
				}
				g[[2]int{i, j}] = node(float64(i)*2+dx, 0, float64(j)*1.5+dz)
			}
		}
		for j := 0; j < storeys; j++ {
			for i := 0; i <= bays; i++ {
				elem(frame, g[[2]int{i, j}], g[[2]int{i, j + 1}])
			}
			for i := 0; i < bays; i++ {
				elem(frame, g[[2]int{i, j + 1}], g[[2]int{i + 1, j + 1}])
			}
		}
	case "tree":
		n := r.In(2, min(max, 6))
		ids := []string{node(0, 0, 0)}
		for i := 0; i < n; i++ {
			p := r.N(len(ids))
			a := s.node(ids[p])
			ax, az := (a.X-shift.X)/unit, (a.Z-shift.Z)/unit
			ids = append(ids, node(ax+r.Fin(0.4, 2)*r.Sign(), 0, az+r.Fin(0.4, 2)*r.Sign()))
			elem(frame, ids[p], ids[len(ids)-1])
		}
	case "truss2", "mixed2":
		a, b := node(0, 0, 0), node(1, 0, r.Fin(-0.2, 0.2))
		k := func() string {
			if kind == "mixed2" && r.P(0.5) {
				return frame
			}
			return "truss2d"
		}
		elem(k(), a, b)
		n := r.In(1, min(1+max/3, 5))
		for i := 0; i < n; i++ {
			c := node(float64(i)*0.8+0.5+r.Fin(-0.1, 0.1), 0, pick(r, 1.0, -1.0)*r.Fin(0.6, 1.2))
			if i%2 == 1 {
				s.Nodes[len(s.Nodes)-1].Z = round(r.Fin(-0.3, 0.3)*unit+shift.Z, 4)
				s.Nodes[len(s.Nodes)-1].X = round((1+0.7*float64(i))*unit+shift.X, 4)
			}
			elem(k(), a, c)
			elem(k(), b, c)
			a, b = b, c
		}
	case "large":
		genLarge(r, s, node, elem)
	case "bars": // one after another along the axis: exact zeros and ones, values side by side
		n := r.In(1, min(max, 6))
		k := pick(r, "truss2d", "truss2d", "truss3d")
		x := 0.0
		prev := node(0, 0, 0)
		for i := 0; i < n; i++ {
			x += pick(r, 1, 2, r.Fin(0.5, 3))
			next := node(x, 0, 0)
			e := elem(k, prev, next)
			if r.P(0.3) {
				e.Hinges = []HingeSpec{{r.N(2), df.Ux}}
			}
			prev = next
		}
		for i := range s.Nodes {
			s.Dir = append(s.Dir, NVal{s.Nodes[i].ID, df.Uz, 0})
			if k == "truss3d" {
				s.Dir = append(s.Dir, NVal{s.Nodes[i].ID, df.Uy, 0})
			}
		}
	case "truss3":
		a, b, c := node(0, 0, 0), node(1, r.Fin(-0.2, 0.2), 0), node(0.4, 1, r.Fin(-0.2, 0.2))
		elem("truss3d", a, b)
		elem("truss3d", b, c)
		elem("truss3d", a, c)
		n := r.In(1, min(1+max/4, 3))
		for i := 0; i < n; i++ {
			d := node(0.5+r.Fin(-0.3, 0.3), 0.4+r.Fin(-0.3, 0.3), float64(i+1)*r.Fin(0.7, 1.3))
			elem("truss3d", a, d)
			elem("truss3d", b, d)
			elem("truss3d", c, d)
			a, b, c = b, c, d
		}
	}

	// A single bar on its own exercises exact zeros.
	if kind == "truss2" && r.P(0.1) {
		s.Nodes = s.Nodes[:2]
		s.Elems = s.Elems[:1]
		s.Nodes[1].Z = s.Nodes[0].Z
		s.Dir = append(s.Dir, NVal{s.Nodes[1].ID, df.Uz, 0})
	}

	for i := range s.Nodes {
		if i > 0 && kind != "truss3" {
			s.Nodes[i].Y = s.Nodes[0].Y
		}
	}
	for i := range s.Elems {
		if s.length(&s.Elems[i]) < 0.05*unit {
			return nil
		}
	}

	genHinges(r, s, o)
	if !genSupports(r, s, o) {
		return nil
	}
	if !o.NoLoads {
		genLoads(r, s, o)
	}
	return s
}

// genLarge makes structures with more nodes, members and equations than what is drawn by hand, and
// with supports everywhere, so that they are well-conditioned.
func genLarge(r *Rng, s *Spec, node func(x, y, z float64) string, elem func(kind, a, b string) *ElemSpec) {
	hold := func(n string, dofs ...df.Dof) {
		for _, d := range dofs {
			s.Dir = append(s.Dir, NVal{n, d, 0})
		}
	}
	switch r.N(4) {
	case 0: // a viaduct
		n, step := r.In(20, 70), r.In(1, 3)
		prev := ""
		for i := 0; i < n; i++ {
			x := float64(i) + r.Fin(-0.2, 0.2)
			deck := node(x, 0, r.Fin(-0.1, 0.1))
			if prev != "" {
				elem("frame2d", prev, deck)
			}
			if i%step == 0 || i == n-1 {
				foot := node(x, 0, 1.5)
				hold(foot, df.Ux, df.Uz)
				if r.P(0.5) {
					hold(foot, df.Phiy)
				}
				elem("frame2d", deck, foot)
			}
			prev = deck
		}
	case 1: // bars along an axis
		n, step := r.In(40, 140), r.In(3, 12)
		prev := ""
		for i := 0; i < n; i++ {
			next := node(float64(i)+r.Fin(-0.3, 0.3), 0, 0)
			hold(next, df.Uz)
			if i%step == 0 {
				hold(next, df.Ux)
			}
			if prev != "" {
				elem("truss2d", prev, next)
			}
			prev = next
		}
	case 2: // a lattice girder
		n, step := r.In(15, 60), r.In(2, 4)
		a, b := "", ""
		for i := 0; i < n; i++ {
			c, d := node(float64(i)+r.Fin(-0.1, 0.1), 0, 0), node(float64(i)+r.Fin(-0.1, 0.1), 0, -1)
			if i%step == 0 || i == n-1 {
				hold(c, df.Uz)
				if r.P(0.3) || i == 0 {
					hold(c, df.Ux)
				}
			}
			elem("truss2d", c, d)
			if a != "" {
				elem("truss2d", a, c)
				elem("truss2d", b, d)
				elem("truss2d", a, d)
			}
			a, b = c, d
		}
	case 3: // a beam on many supports
		n, step := r.In(40, 110), r.In(1, 3)
		prev := ""
		for i := 0; i < n; i++ {
			next := node(float64(i)+r.Fin(-0.3, 0.3), 0, 0)
			if i%step == 0 || i == n-1 {
				hold(next, df.Uz)
			}
			if i%7 == 0 {
				hold(next, df.Ux)
			}
			if prev != "" {
				elem("frame2d", prev, next)
			}
			prev = next
		}
	}
}

func genHinges(r *Rng, s *Spec, o GenOpts) {
	p := pick(r, 0, 0.15, 0.4)
	if o.WantHinge {
		p = 0.5
	}
	for i := range s.Elems {
		e := &s.Elems[i]
		if e.Hinges == nil && r.P(p) {
			e.Hinges = genElemHinges(r, e)
		}
	}
}

func genElemHinges(r *Rng, e *ElemSpec) []HingeSpec {
	var h []HingeSpec
	if r.P(0.2) || !e.isFrame() {
		if r.P(0.4) {
			h = append(h, HingeSpec{r.N(2), df.Ux})
		}
	}
	if e.isFrame() {
		switch r.N(8) {
		case 0:
			h = append(h, HingeSpec{0, df.Uz})
		case 1, 2:
			h = append(h, HingeSpec{0, df.Phiy})
		case 3:
			h = append(h, HingeSpec{1, df.Uz})
		case 4, 5:
			h = append(h, HingeSpec{1, df.Phiy})
		case 6:
			h = append(h, HingeSpec{0, df.Phiy}, HingeSpec{1, df.Phiy})
		case 7:
			if r.P(0.5) {
				h = append(h, HingeSpec{0, df.Phiy}, HingeSpec{1, df.Uz})
			} else {
				h = append(h, HingeSpec{0, df.Uz}, HingeSpec{1, df.Phiy})
			}
		}
	}
	return h
}

func (s *Spec) size() float64 {
	m := 0.0
	for i := range s.Elems {
		m = math.Max(m, s.length(&s.Elems[i]))
	}
	return m
}

func genSettle(r *Rng, s *Spec, d df.Dof) float64 {
	if d == df.Phiy {
		return pick(r, 0.001, -0.002, 0.005, r.Fin(-0.01, 0.01))
	}
	v := s.size() * pick(r, 0.001, -0.002, 0.005, r.Fin(-0.01, 0.01))
	if r.P(0.05) {
		v *= 1e-6
	}
	return v
}

// genSupports puts supports on the structure; false if the result is not stable.
func genSupports(r *Rng, s *Spec, o GenOpts) bool {
	used := s.used()
	frame := false
	threeD := false
	for i := range s.Elems {
		frame = frame || s.Elems[i].isFrame()
		threeD = threeD || !s.planarElem(i)
	}

	has := map[df.Index]bool{}
	for _, d := range s.Dir {
		has[d.index()] = true
	}
	add := func(n string, d df.Dof) {
		i := df.Index{NodalID: n, Dof: d}
		if used[i] && !has[i] {
			has[i] = true
			s.Dir = append(s.Dir, NVal{n, d, 0})
		}
	}
	link := func(n string, from, to df.Dof) {
		i, j := df.Index{NodalID: n, Dof: from}, df.Index{NodalID: n, Dof: to}
		if !used[i] || !used[j] || has[i] || has[j] {
			return
		}
		has[j] = true
		a := genAngle(r)
		s.Links = append(s.Links, LinkSpec{Node: n, From: from, To: to, Angle: a})
	}
	dofs := []df.Dof{df.Ux, df.Uz, df.Uy, df.Phiy}
	trans := []df.Dof{df.Ux, df.Uz}
	if threeD {
		trans = []df.Dof{df.Ux, df.Uz, df.Uy}
	}

	nodes := r.Perm(len(s.Nodes))
	id := func(i int) string { return s.Nodes[nodes[i%len(nodes)]].ID }

	if threeD && !frame {
		// six or more constraints
		for _, d := range trans {
			add(id(0), d)
		}
		if r.P(0.5) || o.WantLink {
			link(id(1), trans[r.N(3)], trans[r.N(3)])
			if r.P(0.6) {
				l := s.Links
				if len(l) > 0 {
					f := l[len(l)-1]
					to := trans[r.N(3)]
					if to != f.To && to != f.From {
						i := df.Index{NodalID: f.Node, Dof: to}
						if !has[i] {
							has[i] = true
							from := pick(r, f.From, f.From, f.To)
							s.Links = append(s.Links, LinkSpec{Node: f.Node, From: from, To: to, Angle: genAngle(r)})
						}
					}
				}
			}
		}
		for i := 1; i < len(nodes); i++ {
			for _, d := range trans {
				if len(s.Dir)+len(s.Links) < 6 && r.P(0.6) && !linked(s, id(i), d) {
					add(id(i), d)
				}
			}
		}
		for i := 1; i < len(nodes) && len(s.Dir)+len(s.Links) < 6; i++ {
			for _, d := range trans {
				if len(s.Dir)+len(s.Links) < 6 && !linked(s, id(i), d) {
					add(id(i), d)
				}
			}
		}
		if r.P(0.3) {
			d := trans[r.N(3)]
			if !linked(s, id(2), d) {
				add(id(2), d)
			}
		}
	} else {
		if threeD {
			for i := range s.Nodes {
				add(s.Nodes[i].ID, df.Uy)
			}
		}
		style := r.N(3)
		switch {
		case frame && style == 0:
			for _, d := range []df.Dof{df.Ux, df.Uz, df.Phiy} {
				add(id(0), d)
			}
		case style == 1:
			add(id(0), df.Ux)
			add(id(0), df.Uz)
			if r.P(0.6) || o.WantLink {
				link(id(1), pick(r, df.Ux, df.Uz), pick(r, df.Uz, df.Ux))
			} else {
				add(id(1), pick(r, df.Ux, df.Uz))
			}
		default:
			add(id(0), df.Ux)
			add(id(0), df.Uz)
			add(id(1), df.Uz)
			if len(nodes) > 2 && (r.P(0.3) || o.WantLink) {
				link(id(2), df.Ux, df.Uz)
			}
		}
		extra := pick(r, 0, 0, 1, 2, 3)
		for i := 0; i < extra; i++ {
			n, d := id(r.N(len(nodes))), dofs[r.N(len(dofs))]
			if !linked(s, n, d) {
				add(n, d)
			}
		}
		if r.P(0.25) || o.WantLink {
			if r.P(0.5) {
				link(id(r.N(len(nodes))), df.Ux, df.Uz)
			} else {
				link(id(r.N(len(nodes))), df.Uz, df.Ux)
			}
		}
	}

	// link() may have been called with from == to
	var links []LinkSpec
	for _, l := range s.Links {
		if l.From != l.To {
			links = append(links, l)
		}
	}
	s.Links = links

	if !o.NoSettle {
		mode := pick(r, 0, 0, 0, 1, 1, 2)
		if o.WantSettle {
			mode = pick(r, 1, 2)
		}
		for i := range s.Dir {
			if mode == 2 || mode == 1 && r.P(0.4) {
				s.Dir[i].V = genSettle(r, s, s.Dir[i].Dof)
			}
		}
	}

	ref := solveRef(s)
	return sound(ref)
}

// genAngle is the inclination of a support, in any of the ways to say it.
func genAngle(r *Rng) float64 {
	switch r.N(8) {
	case 0:
		return pick(r, math.Pi/4, 0, math.Pi/2, -math.Pi/2, math.Pi, -math.Pi, math.Pi/6, 2*math.Pi)
	case 1:
		return r.Fin(1.6, 3.1) * r.Sign()
	case 2, 3:
		return r.Fin(3.2, 7) * r.Sign()
	case 4:
		return pick(r, 1e-3, 1e-7, 20, -50.5)
	}
	return r.Fin(0.1, 1.4) * r.Sign()
}

func linked(s *Spec, node string, d df.Dof) bool {
	for _, l := range s.Links {
		if l.Node == node && (l.From == d || l.To == d) {
			return true
		}
	}
	return false
}

func (s *Spec) planarElem(i int) bool {
	return s.Elems[i].Kind == "truss2d" || s.Elems[i].Kind == "frame2d"
}

var loadScale = []float64{1, 10, 1000, 30000}

func genLoad(r *Rng, s *Spec, e *ElemSpec, handle int) LoadSpec {
	l := s.length(e)
	v := func() float64 {
		if r.P(0.04) {
			return pick(r, 0, math.Copysign(0, -1), 1e-9)
		}
		return round(r.Sign()*r.Fin(0.5, 5), 3)
	}
	ld := LoadSpec{Handle: handle, Degree: pick(r, "dirac", "dirac", "constant", "linear"), Dof: df.Ux, V0: v()}
	if e.isFrame() && r.P(0.75) {
		ld.Dof = df.Uz
		if ld.Degree == "dirac" && r.P(0.35) {
			ld.Dof = df.Phiy
		}
	}
	switch ld.Degree {
	case "dirac":
		ld.Pos = l * pick(r, 0.5, 0.25, 0.75, 0.125, 0.625, 0, 1, round(r.Fin(0.05, 0.95), 2))
	case "linear":
		ld.V1 = pick(r, v(), 0, v())
		if r.P(0.15) {
			ld.V0 = 0
		}
	}
	return ld
}

func genLoads(r *Rng, s *Spec, o GenOpts) {
	h := 1
	f := loadScale[r.N(len(loadScale))]
	mode := r.N(6) // 0: none at all now and then
	if mode == 0 && r.P(0.5) {
		return
	}
	for i := range s.Elems {
		e := &s.Elems[i]
		n := pick(r, 0, 0, 1, 1, 2, 4)
		if mode == 1 {
			n = 0
		} else if r.P(0.002) {
			n = r.In(15, 60)
		}
		for j := 0; j < n; j++ {
			ld := genLoad(r, s, e, h)
			ld.V0 *= f
			ld.V1 *= f
			h++
			if !s.accepts(e, ld) {
				continue
			}
			e.Loads = append(e.Loads, ld)
			if !o.JSON && r.P(0.1) {
				e.Loads = append(e.Loads, ld)
			}
			if r.P(0.1) {
				// Another load that looks the same.
				ld.Handle = h
				h++
				e.Loads = append(e.Loads, ld)
			}
		}
	}
	n := r.N(4)
	if mode == 2 {
		n = 0
	}
	for j := 0; j < n; j++ {
		s.Nodal = append(s.Nodal, genNodal(r, s, f))
	}
}

func sortedUsed(s *Spec) []df.Index {
	var l []df.Index
	for i := range s.used() {
		l = append(l, i)
	}
	sortIdx(l)
	return l
}

func genNodal(r *Rng, s *Spec, f float64) NVal {
	l := sortedUsed(s)
	i := l[r.N(len(l))]
	if len(s.Nodal) > 0 && r.P(0.2) {
		i = s.Nodal[r.N(len(s.Nodal))].index() // once more in the same place
	}
	if r.P(0.1) {
		f *= pick(r, 0, 0, 1e-9)
	}
	return NVal{i.NodalID, i.Dof, round(r.Sign()*r.Fin(0.5, 5), 3) * f}
}
