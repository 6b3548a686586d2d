package main

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"

	df "github.com/lubgr/deflect/deflect"
)

// Damage is one thing that is wrong with a document. At chooses the place, as a fraction of whatever
// there is to choose from, so that it still means something when the document gets smaller.
type Damage struct {
	Kind string  `json:"kind"`
	At   float64 `json:"at"`
	Len  int     `json:"len,omitempty"`
	Bit  int     `json:"bit,omitempty"`
	Seed uint64  `json:"seed,omitempty"`
}

// Variant is one way to write the same document, or to list the same problem, and to visit it.
type Variant struct {
	Seed uint64   `json:"seed"` // 0: as it comes
	Perm PermPlan `json:"perm"`
}

func place(at float64, n int) int {
	if n <= 0 {
		return 0
	}
	return min(n-1, int(at*float64(n)))
}

// ---- damage to what the document says

// refDamages are the kinds of damage after which a document must be refused: each makes something
// that a record refers to missing, leaves out values, or gives a support twice.
var refDamages = []string{"node-name", "node-gone", "material-name", "section-name", "material-gone", "section-gone",
	"member-gone", "member-kind", "section-kind", "material-kind", "load-kind", "degree", "support-dof", "link-dof", "hinge-dof", "nodal-dof",
	"hinge-node", "link-foreign-dof", "load-values", "load-position", "position-count", "load-value-count", "material-value", "section-value", "link-key",
	"coordinate", "node-count", "support-node", "support-foreign-dof", "nodal-node", "nodal-foreign-dof", "load-member", "link-node",
	"support-twice", "support-and-link", "link-twice", "no-supports", "material-ambiguous", "section-ambiguous", "load-direction", "load-beyond",
	"degree-gone", "kind-gone", "kind-dropped", "parameter-gone", "nodes-gone", "elements-gone", "spare-coordinate", "section-sign", "load-before",
	"link-same", "hinge-loose", "value-type", "value-type", "value-type"}

// misspell changes a name into one that does not exist.
func misspell(r *Rng, s string, exists func(string) bool) string {
	for try := 0; ; try++ {
		t := s
		rs := []rune(s)
		switch r.N(6) {
		case 0:
			t = s + "x"
		case 1:
			t = strings.ToUpper(s)
		case 2:
			t = strings.ToLower(s)
		case 3:
			if len(rs) > 1 {
				t = string(rs[:len(rs)-1])
			}
		case 4:
			if len(rs) > 1 {
				rs[0], rs[1] = rs[1], rs[0]
				t = string(rs)
			}
		case 5:
			t = " " + s
		}
		if try > 20 {
			t = s + fmt.Sprint("?", try)
		}
		if t != s && t != "" && !exists(t) {
			return t
		}
	}
}

func (j *J) str() string {
	s, err := strconv.Unquote(j.Lit)
	if err != nil {
		return strings.Trim(j.Lit, `"`)
	}
	return s
}

func (j *J) drop(k string) bool {
	for i := range j.Keys {
		if j.Keys[i] == k {
			j.Keys = append(j.Keys[:i:i], j.Keys[i+1:]...)
			j.Vals = append(j.Vals[:i:i], j.Vals[i+1:]...)
			return true
		}
	}
	return false
}

func (j *J) rename(from, to string) bool {
	for i := range j.Keys {
		if j.Keys[i] == from {
			j.Keys[i] = to
			return true
		}
	}
	return false
}

func (j *J) dropIndex(i int) {
	j.Vals = append(j.Vals[:i:i], j.Vals[i+1:]...)
	if j.Keys != nil {
		j.Keys = append(j.Keys[:i:i], j.Keys[i+1:]...)
	}
}

// resized makes a list of three one of another length.
func resized(r *Rng, l []*J) []*J {
	switch n := pick(r, 0, 1, 2, 2, 4, 4, 6); n {
	case 4:
		return append(l, l[r.N(3)].clone())
	case 6:
		return append(l, l...)
	default:
		return l[:n]
	}
}

func isDofName(s string) bool {
	for _, d := range []df.Dof{df.Ux, df.Uz, df.Uy, df.Phiy, df.Phiz, df.Phix} {
		if s == dofName(d) {
			return true
		}
	}
	return false
}

func isForceName(s string) bool {
	for _, d := range []df.Dof{df.Ux, df.Uz, df.Uy, df.Phiy, df.Phiz, df.Phix} {
		if s == forceName(d) || s == "q"+loadNames[d] || s == "m"+loadNames[d] {
			return true
		}
	}
	return false
}

// spoilDoc applies damage to the document of s. false means there is no place for it.
func spoilDoc(j *J, s *Spec, d Damage) bool {
	r := NewRng(d.Seed, 21)
	some := func(l []string) string { return l[place(d.At, len(l))] }
	sec := func(k string) *J {
		if x := j.get(k); x != nil {
			return x
		}
		return jo()
	}
	elems, neumann, nodes, dir, links := sec("elements"), sec("neumann"), sec("nodes"), sec("dirichlet"), sec("links")
	isElem := func(n string) bool { return elems.get(n) != nil }
	isNode := func(n string) bool { return nodes.get(n) != nil }

	// Records of member loads and of nodal loads.
	type rec struct {
		key string
		j   *J
	}
	var mload, nload []rec
	for i, k := range neumann.Keys {
		for _, v := range neumann.Vals[i].Vals {
			if v.get("degree") != nil {
				mload = append(mload, rec{k, v})
			} else {
				nload = append(nload, rec{k, v})
			}
		}
	}
	var drec, lrec []rec
	for i, k := range dir.Keys {
		for _, v := range dir.Vals[i].Vals {
			drec = append(drec, rec{k, v})
		}
	}
	for i, k := range links.Keys {
		for _, v := range links.Vals[i].Vals {
			lrec = append(lrec, rec{k, v})
		}
	}
	key := func(v *J, name func(string) bool) bool {
		i := place(d.At, len(v.Keys))
		v.Keys[i] = misspell(r, v.Keys[i], name)
		return true
	}
	used := s.used()

	switch d.Kind {
	case "node-name", "node-count":
		for n := range elems.Vals {
			e := elems.Vals[(n+place(d.At, len(elems.Vals)))%len(elems.Vals)]
			l := e.get("nodes")
			if l == nil {
				if d.Kind == "node-name" {
					continue
				}
				// They could be told from the member's name.
				x := s.elem(elems.Keys[(n+place(d.At, len(elems.Vals)))%len(elems.Vals)])
				l = ja(js(x.N0), js(x.N1))
				e.set("nodes", l)
			}
			if d.Kind == "node-count" {
				switch r.N(4) {
				case 0:
					l.Vals = l.Vals[:1]
				case 1:
					l.Vals = l.Vals[1:]
				case 2:
					l.Vals = append(l.Vals, l.Vals[0])
				case 3:
					l.Vals = append(l.Vals, js(s.Nodes[r.N(len(s.Nodes))].ID))
				}
				return true
			}
			i := r.N(2)
			l.Vals[i] = js(misspell(r, l.Vals[i].str(), isNode))
			return true
		}
		return false
	case "node-gone":
		e := &s.Elems[place(d.At, len(s.Elems))]
		return nodes.drop(pick(r, e.N0, e.N1))
	case "material-name", "section-name", "material-ambiguous", "section-ambiguous":
		k, sk := "material", "material"
		if strings.HasPrefix(d.Kind, "section") {
			k, sk = "cs", "crosssection"
		}
		for n := range elems.Vals {
			e := elems.Vals[(n+place(d.At, len(elems.Vals)))%len(elems.Vals)]
			x := e.get(k)
			if strings.HasSuffix(d.Kind, "ambiguous") {
				if len(sec(sk).Keys) < 2 {
					c := sec(sk).Vals[0].clone()
					sec(sk).set("another", c)
				}
				if x != nil {
					e.drop(k)
				}
				return true
			}
			if x != nil {
				x.Lit = js(misspell(r, x.str(), func(t string) bool { return sec(sk).get(t) != nil })).Lit
				return true
			}
		}
		return false
	case "material-gone", "section-gone":
		k, sk := "material", "material"
		if d.Kind == "section-gone" {
			k, sk = "cs", "crosssection"
		}
		e := elems.Vals[place(d.At, len(elems.Vals))]
		if x := e.get(k); x != nil {
			return sec(sk).drop(x.str())
		}
		return j.drop(sk)
	case "member-gone":
		if len(mload) == 0 || len(elems.Keys) < 2 {
			return false
		}
		return elems.drop(mload[place(d.At, len(mload))].key)
	case "member-kind":
		x := elems.Vals[place(d.At, len(elems.Vals))].get("kind")
		x.Lit = js(misspell(r, x.str(), func(t string) bool { return t == "truss2d" || t == "truss3d" || t == "frame2d" })).Lit
		return true
	case "section-kind", "material-kind":
		k := map[string]string{"section-kind": "crosssection", "material-kind": "material"}[d.Kind]
		x := sec(k).Vals[place(d.At, len(sec(k).Vals))].get("kind")
		x.Lit = js(misspell(r, x.str(), func(t string) bool { return t == "rectangle" || t == "constants" || t == "linelast" })).Lit
		return true
	case "load-kind", "degree", "load-values", "load-position", "position-count", "load-value-count", "load-direction", "load-beyond", "load-before", "degree-gone", "kind-gone":
		if len(mload) == 0 {
			return false
		}
		for n := range mload {
			x := mload[(n+place(d.At, len(mload)))%len(mload)]
			e := s.elem(x.key)
			deg := x.j.get("degree").str()
			switch d.Kind {
			case "load-kind":
				k := x.j.get("kind")
				k.Lit = js(misspell(r, k.str(), isForceName)).Lit
			case "degree":
				k := x.j.get("degree")
				k.Lit = js(misspell(r, k.str(), func(t string) bool { return t == "dirac" || t == "constant" || t == "linear" })).Lit
			case "degree-gone":
				x.j.drop("degree")
			case "kind-gone":
				x.j.drop("kind")
			case "load-values":
				x.j.drop("values")
			case "load-value-count":
				v := x.j.get("values")
				if r.P(0.5) {
					v.Vals = v.Vals[1:]
				} else {
					v.Vals = append(v.Vals, v.Vals[0])
				}
				if deg == "constant" && len(v.Vals) == 1 || deg == "linear" && len(v.Vals) == 2 {
					continue
				}
			case "load-position":
				if deg != "dirac" {
					continue
				}
				x.j.drop("position")
			case "position-count":
				if deg != "dirac" {
					continue
				}
				v := x.j.get("position")
				if r.P(0.5) {
					v.Vals = nil
				} else {
					v.Vals = append(v.Vals, v.Vals[0].clone())
				}
			case "load-direction":
				bad := []string{"Fy", "Mz", "Mx"}
				if e.Kind == "truss2d" || e.Kind == "truss3d" {
					bad = append(bad, "Fz", "My", "qz")
				}
				if deg != "dirac" {
					bad = append(bad, "my", "My")
				}
				k := x.j.get("kind")
				if k == nil {
					continue
				}
				k.Lit = js(some(bad)).Lit
			case "load-beyond":
				if deg != "dirac" {
					continue
				}
				x.j.get("position").Vals[0] = jf(s.length(e) * pick(r, 1.001, 1.5, 20))
			case "load-before":
				if deg != "dirac" {
					continue
				}
				x.j.get("position").Vals[0] = jf(s.length(e) * pick(r, -0.001, -0.5, -1))
			}
			return true
		}
		return false
	case "support-dof":
		if len(drec) == 0 {
			return false
		}
		return key(drec[place(d.At, len(drec))].j, isDofName)
	case "nodal-dof":
		if len(nload) == 0 {
			return false
		}
		return key(nload[place(d.At, len(nload))].j, func(t string) bool { return len(t) == 2 && t[0] != 'q' && t[0] != 'm' && isForceName(t) })
	case "link-dof", "link-key":
		if len(lrec) == 0 {
			return false
		}
		x := lrec[place(d.At, len(lrec))].j
		if d.Kind == "link-key" {
			return x.drop(pick(r, "from", "to", "angle"))
		}
		k := x.get(pick(r, "from", "to"))
		k.Lit = js(misspell(r, k.str(), func(t string) bool { return t == "Ux" || t == "Uy" || t == "Uz" })).Lit
		return true
	case "link-same":
		// Between a direction and itself.
		if len(lrec) == 0 {
			return false
		}
		x := lrec[place(d.At, len(lrec))].j
		a, b := "from", "to"
		if r.P(0.5) {
			a, b = b, a
		}
		x.get(a).Lit = x.get(b).Lit
		return true
	case "link-foreign-dof":
		// A direction that the node does not have.
		for n := range lrec {
			x := lrec[(n+place(d.At, len(lrec)))%len(lrec)]
			if used[df.Index{NodalID: x.key, Dof: df.Uy}] {
				continue
			}
			x.j.get(pick(r, "from", "from", "to")).Lit = js("Uy").Lit
			if r.P(0.4) {
				x.j.get("angle").Lit = pick(r, jl("0"), jl("-0"), jl("1.5707963267948966"), jl("3.141592653589793")).Lit
			}
			return true
		}
		return false
	case "hinge-dof", "hinge-node":
		var with []*J
		var el []*ElemSpec
		for i, e := range elems.Vals {
			if h := e.get("hinges"); h != nil {
				with = append(with, h)
				el = append(el, s.elem(elems.Keys[i]))
			}
		}
		if len(with) == 0 {
			return false
		}
		n := place(d.At, len(with))
		h, e := with[n], el[n]
		i := r.N(len(h.Vals))
		if d.Kind == "hinge-node" {
			// Another node, or one that is not there.
			other := misspell(r, h.Keys[i], isNode)
			for _, x := range s.Nodes {
				if x.ID != e.N0 && x.ID != e.N1 && r.P(0.5) {
					other = x.ID
				}
			}
			h.Keys[i] = other
			return true
		}
		l := h.Vals[i]
		k := r.N(len(l.Vals))
		l.Vals[k] = js(misspell(r, l.Vals[k].str(), isDofName))
		return true
	case "hinge-loose":
		// Hinges that leave nothing to hold the member against its nodes in some direction.
		i := place(d.At, len(elems.Vals))
		e := s.elem(elems.Keys[i])
		sets := [][2][]string{{{"Ux"}, {"Ux"}}}
		if e.isFrame() {
			sets = append(sets, [2][]string{{"Uz"}, {"Uz"}}, [2][]string{{"Phiy"}, {"Uz", "Phiy"}}, [2][]string{{"Uz", "Phiy"}, {"Phiy"}},
				[2][]string{{"Uz"}, {"Uz", "Phiy"}}, [2][]string{{"Uz", "Phiy"}, {"Uz"}}, [2][]string{{"Uz", "Phiy"}, {"Uz", "Phiy"}})
		}
		set := sets[r.N(len(sets))]
		h := jo()
		for k, n := range []string{e.N0, e.N1} {
			var l []*J
			for _, x := range shuffled(r, set[k]) {
				l = append(l, js(x))
			}
			h.set(n, ja(l...))
		}
		x := elems.Vals[i]
		for k := len(x.Keys) - 1; k >= 0; k-- {
			if x.Keys[k] == "hinges" {
				x.dropIndex(k)
			}
		}
		x.set("hinges", h)
		return true
	case "material-value", "section-value":
		k := map[string]string{"section-value": "crosssection", "material-value": "material"}[d.Kind]
		p := sec(k).Vals[place(d.At, len(sec(k).Vals))].get("parameter")
		i := r.N(len(p.Keys))
		if p.Keys[i] == "roll" || p.Keys[i] == "Ixx" {
			return false
		}
		if r.P(0.5) {
			p.dropIndex(i)
		} else {
			p.Keys[i] = p.Keys[i] + "x"
		}
		return true
	case "coordinate":
		i := place(d.At, len(nodes.Vals))
		l := nodes.Vals[i]
		l.Vals = resized(r, l.Vals)
		return true
	case "spare-coordinate":
		// Of a node that nothing else refers to.
		nodes.set(misspell(r, nodes.Keys[0], isNode), ja(resized(r, []*J{jf(1), jf(0), jf(2)})...))
		return true
	case "kind-dropped":
		var l []*J
		for _, k := range []string{"elements", "material", "crosssection"} {
			l = append(l, sec(k).Vals...)
		}
		return l[place(d.At, len(l))].drop("kind")
	case "parameter-gone":
		l := append(append([]*J{}, sec("material").Vals...), sec("crosssection").Vals...)
		return l[place(d.At, len(l))].drop("parameter")
	case "nodes-gone", "elements-gone":
		if k := strings.TrimSuffix(d.Kind, "-gone"); r.P(0.5) {
			*sec(k) = *jo()
		} else {
			j.drop(k)
		}
		return true
	case "section-sign":
		p := sec("crosssection").Vals[place(d.At, len(sec("crosssection").Vals))].get("parameter")
		i := r.N(len(p.Keys))
		if k := p.Keys[i]; k == "roll" || k == "Ixx" {
			return false
		}
		if p.Vals[i].Lit = "-" + p.Vals[i].Lit; r.P(0.3) {
			p.Vals[i].Lit = "0"
		}
		return true
	case "value-type":
		// Something of another type than is expected in this place.
		var l []*J
		j.walk(func(x *J) { l = append(l, x) })
		x := l[1+place(d.At, len(l)-1)]
		if x.Kind != 'l' && r.P(0.7) {
			for n := range l {
				if y := l[(1+place(d.At, len(l)-1)+n)%len(l)]; y.Kind == 'l' {
					x = y
					break
				}
			}
		}
		c := x.clone()
		switch {
		case x.Kind == 'o':
			*x = *pick(r, ja(), ja(c), js("x"), jl("3"), jl("true"))
		case x.Kind == 'a':
			*x = *pick(r, jo(), js("x"), jl("3"), jl("false"))
			if len(c.Vals) > 0 && c.Vals[0].Kind == 'l' && r.P(0.4) {
				*x = *c.Vals[0]
			}
		case strings.HasPrefix(x.Lit, `"`):
			*x = *pick(r, jl("7"), jl("true"), ja(c), jo(), jl("0"))
		default:
			*x = *pick(r, js(x.Lit), js(x.Lit), ja(c), jo(), jl("true"), js(""), jl("1e999"))
		}
		return true
	case "support-node", "support-foreign-dof", "nodal-node", "nodal-foreign-dof":
		sect, name, other := dir, "dirichlet", "Ux"
		if strings.HasPrefix(d.Kind, "nodal") {
			sect, name, other = neumann, "neumann", "Fx"
		}
		if j.get(name) == nil {
			j.set(name, sect)
		}
		n := misspell(r, s.Nodes[place(d.At, len(s.Nodes))].ID, func(t string) bool { return isNode(t) || isElem(t) })
		if strings.HasSuffix(d.Kind, "dof") {
			n = s.Nodes[place(d.At, len(s.Nodes))].ID
			if isElem(n) {
				return false
			}
			var free []df.Dof
			for _, x := range []df.Dof{df.Uy, df.Phiy, df.Phix, df.Phiz} {
				if !used[df.Index{NodalID: n, Dof: x}] {
					free = append(free, x)
				}
			}
			x := free[r.N(len(free))]
			other = dofName(x)
			if name == "neumann" {
				other = forceName(x)
			}
		}
		e := jo()
		e.set(other, jf(pick(r, 10.0, 0.001, 0)))
		if l := sect.get(n); l != nil {
			l.Vals = append(l.Vals, e)
		} else {
			sect.set(n, ja(e))
		}
		return true
	case "load-member":
		if len(mload) == 0 {
			return false
		}
		k := mload[place(d.At, len(mload))].key
		to := misspell(r, k, isElem)
		if neumann.get(to) != nil {
			return false
		}
		return neumann.rename(k, to)
	case "link-node":
		if len(lrec) == 0 {
			return false
		}
		k := lrec[place(d.At, len(lrec))].key
		return links.rename(k, misspell(r, k, isNode))
	case "support-twice":
		if len(drec) == 0 {
			return false
		}
		x := drec[place(d.At, len(drec))]
		i := r.N(len(x.j.Keys))
		e := jo()
		e.set(x.j.Keys[i], jf(pick(r, 0, 0.001)))
		dir.get(x.key).Vals = append(dir.get(x.key).Vals, e)
		return true
	case "support-and-link":
		if len(lrec) == 0 {
			return false
		}
		x := lrec[place(d.At, len(lrec))]
		e := jo()
		e.set(x.j.get("to").str(), jf(0))
		if j.get("dirichlet") == nil {
			j.set("dirichlet", dir)
		}
		if l := dir.get(x.key); l != nil {
			l.Vals = append(l.Vals, e)
		} else {
			dir.set(x.key, ja(e))
		}
		return true
	case "link-twice":
		if len(lrec) == 0 {
			return false
		}
		x := lrec[place(d.At, len(lrec))]
		links.get(x.key).Vals = append(links.get(x.key).Vals, x.j.clone())
		return true
	case "no-supports":
		j.drop("dirichlet")
		j.drop("links")
		return true
	}
	return false
}

// ---- damage to the values of a document, and to its bytes

func (j *J) walk(f func(*J)) {
	f(j)
	for _, v := range j.Vals {
		v.walk(f)
	}
}

func valueDamage(j *J, d Damage) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false // nothing left to damage
		}
	}()
	r := NewRng(d.Seed, 22)
	var all, inner, lits, nums []*J
	j.walk(func(x *J) {
		all = append(all, x)
		if len(x.Vals) > 0 {
			inner = append(inner, x)
		}
		if x.Kind == 'l' {
			lits = append(lits, x)
			if !strings.HasPrefix(x.Lit, `"`) {
				nums = append(nums, x)
			}
		}
	})
	odd := func() *J {
		return pick(r, jl("null"), jl("true"), jl("1e308"), jl("-1e308"), jl("1e-320"), jl("0"), jl("-1"), jl(`""`), jl(`"Ux"`),
			jl("1e999"), jl("12345678901234567890"), jo(), ja(), ja(jl("1")), ja(jl("null")), jl(`"\u0000"`), jl("2147483648"), jl("0.1"))
	}
	switch d.Kind {
	case "v-drop":
		x := inner[place(d.At, len(inner))]
		x.dropIndex(r.N(len(x.Vals)))
	case "v-dup":
		x := inner[place(d.At, len(inner))]
		i := r.N(len(x.Vals))
		x.Vals = append(x.Vals, x.Vals[i].clone())
		if x.Kind == 'o' {
			x.Keys = append(x.Keys, x.Keys[i]+pick(r, "", "2", "x"))
		}
	case "v-swap":
		a, b := lits[place(d.At, len(lits))], lits[r.N(len(lits))]
		a.Lit, b.Lit = b.Lit, a.Lit
	case "v-swap-any":
		a, b := all[place(d.At, len(all))], all[r.N(len(all))].clone()
		*a = *b
	case "v-odd":
		x := all[place(d.At, len(all))]
		*x = *odd()
	case "v-num":
		if len(nums) == 0 {
			return false
		}
		x := nums[place(d.At, len(nums))]
		x.Lit = pick(r, "0", "-1", "1e300", "-1e300", "1e-300", "1e150", "-0", "null", "1e16", "-"+x.Lit, "0.0000000001")
		x.Lit = strings.Replace(x.Lit, "--", "", 1)
	case "v-key":
		x := inner[place(d.At, len(inner))]
		if x.Kind != 'o' {
			return false
		}
		i := r.N(len(x.Keys))
		x.Keys[i] = pick(r, "", "A", "AB", x.Keys[i]+"x", x.Keys[r.N(len(x.Keys))], "Ux", "kind", "\x00", "é", strings.ToUpper(x.Keys[i]))
	case "v-deep":
		x := all[place(d.At, len(all))]
		depth := pick(r, 3, 50, 9000)
		x.Kind, x.Lit, x.Keys, x.Vals = 'l', strings.Repeat(pick(r, "[", `{"a":`), depth), nil, nil
	default:
		return false
	}
	return true
}

var valueDamages = []string{"v-drop", "v-dup", "v-swap", "v-swap-any", "v-odd", "v-odd", "v-num", "v-num", "v-key", "v-deep"}
var byteDamages = []string{"cut", "flip", "flip", "zero", "repeat", "tear", "lose", "misplace", "garbage", "tail"}

// byteDamage changes the text. other is an earlier version of the document.
func byteDamage(t, other []byte, d Damage) []byte {
	if len(t) == 0 {
		return t
	}
	n := len(t)
	a := place(d.At, n)
	b := min(n, a+max(1, d.Len))
	t = bytes.Clone(t)
	switch d.Kind {
	case "cut":
		return t[:a]
	case "flip":
		t[a] ^= 1 << (d.Bit % 8)
	case "zero":
		for i := a; i < b; i++ {
			t[i] = 0
		}
	case "garbage":
		r := NewRng(d.Seed, 23)
		for i := a; i < b; i++ {
			t[i] = byte(r.U64())
		}
	case "repeat":
		return append(append(bytes.Clone(t[:b]), t[a:b]...), t[b:]...)
	case "lose":
		return append(t[:a], t[b:]...)
	case "tear":
		// The first part is new, the rest still old.
		if a < len(other) {
			return append(t[:a:a], other[a:]...)
		}
		return t[:a]
	case "tail":
		// The older version was longer and is still there behind the end.
		if len(other) > n {
			return append(t, other[n:]...)
		}
		return append(t, other...)
	case "misplace":
		// A block was written in the wrong place.
		r := NewRng(d.Seed, 24)
		copy(t[r.N(n):], bytes.Clone(t[a:b]))
	}
	return t
}

// ---- runs

// stage of a document's way through the library
type docOutcome struct {
	refused string // stage
	err     error
	snap    *Snap
}

// through takes a text all the way.
func (w *World) through(op *Op, text []byte, look bool) (o docOutcome, ok bool) {
	r := w.run
	buf := bytes.Clone(text)
	var prob df.Problem
	var err error
	if !w.try(op, "ProblemFromJSON", func() { prob, err = df.ProblemFromJSON(buf) }) {
		return o, false
	}
	if !bytes.Equal(buf, text) {
		r.viol("document-changed", "%v: ProblemFromJSON changed the document", w.at(op))
	}
	// What was read does not depend on the caller keeping the bytes.
	for i := range buf {
		buf[i] = '#'
	}
	if err != nil {
		_ = err.Error()
		return docOutcome{refused: "read", err: err}, true
	}
	return w.throughProblem(op, &prob, look)
}

func (w *World) throughProblem(op *Op, p *df.Problem, look bool) (o docOutcome, ok bool) {
	var err error
	var lay df.EqLayout
	if !w.try(op, "NewEqLayout", func() { lay, err = df.NewEqLayout(p) }) {
		return o, false
	}
	if err != nil {
		return docOutcome{refused: "layout", err: err}, true
	}
	var res df.ProblemResult
	if !w.try(op, "Solve", func() { res, err = df.NewLinearProblemSolver().Solve(p, lay, df.NewCholeskySolver()) }) {
		return o, false
	}
	if err != nil {
		_ = err.Error()
		return docOutcome{refused: "solve", err: err}, true
	}
	if !w.try(op, "querying the result", func() {
		o.snap = take(res, 0)
		if look {
			res.InterpolateAll(1e-6)
			for _, e := range p.Elements {
				for _, f := range allFcts {
					c, err := res.Interpolate(e.ID(), f, 0)
					if err == nil {
						for _, x := range c.Piecewise {
							x.Eval(x.X0)
							x.Eval((x.X0 + x.XE) / 2)
						}
					}
				}
			}
			for _, i := range o.snap.OrderP {
				res.Primary(i)
				res.Reaction(i)
			}
			res.Primary(df.Index{NodalID: "", Dof: 77})
			_, _ = res.Interpolate("", 0, 0)
		}
	}) {
		return o, false
	}
	return o, true
}

// textOf writes the document of a run: which of the ways to write it is decided by seed.
func textOf(s *Spec, seed uint64, damages []Damage) (*J, bool) {
	r := NewRng(seed, 30)
	j := document(s, r)
	// Values of another type come last: whatever looks for a place to spoil relies on the types.
	order := append([]Damage{}, damages...)
	sort.SliceStable(order, func(a, b int) bool { return order[a].Kind != "value-type" && order[b].Kind == "value-type" })
	for _, d := range order {
		if strings.HasPrefix(d.Kind, "v-") {
			if !valueDamage(j, d) {
				return j, false
			}
		} else if isRef(d.Kind) {
			if !spoilAny(j, s, d) {
				return j, false
			}
		}
	}
	return j, true
}

// spoilAny is spoilDoc for documents that may be damaged already: what has no place any more isn't done.
func spoilAny(j *J, s *Spec, d Damage) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return spoilDoc(j, s, d)
}

func isRef(k string) bool {
	for _, x := range refDamages {
		if x == k {
			return true
		}
	}
	return false
}

// reorderDoc writes the same records in another order. Several inclined supports on a node stay in
// sequence; so do two entries for the same thing.
func (j *J) reorderDoc(r *Rng) {
	j.shuffle(r)
	for _, k := range []string{"dirichlet", "neumann"} {
		if s := j.get(k); s != nil {
			for _, l := range s.Vals {
				l.Vals = shuffled(r, l.Vals)
			}
		}
	}
	if e := j.get("elements"); e != nil {
		for _, x := range e.Vals {
			if h := x.get("hinges"); h != nil {
				for _, l := range h.Vals {
					l.Vals = shuffled(r, l.Vals)
				}
			}
		}
	}
}

// runDocs is C01, C07 and C14.
func (r *Run) runDocs(w *World) {
	plan := r.plan
	spec := plan.Specs[0]
	switch plan.Prop {
	case "C01":
		r.runOrder(w)
	case "C07":
		op := &Op{K: "read damaged document"}
		j, ok := textOf(spec, plan.Seed2, plan.Damage)
		if !ok {
			r.count("damage without a place")
		}
		text := j.bytes(plan.Seed2%2 == 0)
		var other []byte
		if len(plan.Specs) > 1 {
			o, _ := textOf(plan.Specs[1], plan.Seed2, nil)
			other = o.bytes(plan.Seed2%2 == 0)
		}
		orig := text
		must := ""
		pure := true
		for i, d := range plan.Damage {
			n := len(text)
			if strings.HasPrefix(d.Kind, "v-") {
				pure = false
			}
			text = byteDamage(text, other, d)
			r.fault["document/"+d.Kind]++
			if len(plan.Damage) == 1 && i == 0 && pure && (d.Kind == "cut" && len(text) < n || d.Kind == "zero" && n > 0 || d.Kind == "tail" && len(text) > n) {
				must = d.Kind
			}
		}
		// Anything goes if damage made it the same text again, or cut off white space.
		if (must == "cut" || must == "tail") && strings.TrimSpace(string(orig)) == strings.TrimSpace(string(text)) {
			must = ""
		}
		r.noteS(string(text))
		o, ok := w.through(op, text, true)
		r.count("documents")
		if !ok {
			return
		}
		if o.refused != "" {
			r.count("refused at " + o.refused)
		} else {
			r.count("read and solved")
			r.note(o.snap.digest())
		}
		if must != "" && o.refused != "read" {
			r.viol("damage-accepted", "document with damage %v accepted:\n%q", must, text)
		}
	case "C14":
		op := &Op{K: "read document"}
		j, ok := textOf(spec, plan.Seed2, plan.Damage)
		if !ok {
			r.count("damage without a place")
			return
		}
		g := NewRng(plan.Seed2, 31)
		if g.P(0.5) {
			j.reorderDoc(g)
		}
		text := j.bytes(g.P(0.5))
		r.noteS(string(text))
		o, ok := w.through(op, text, false)
		r.count("documents")
		if !ok {
			return
		}
		if o.refused != "" {
			r.count("refused at " + o.refused)
		}
		if len(plan.Damage) > 0 {
			for _, d := range plan.Damage {
				r.fault["document/"+d.Kind]++
			}
			if o.refused == "" {
				r.viol("record-ignored", "document with %v is read and solved:\n%s", plan.Damage[0].Kind, text)
			}
			return
		}
		ref := r.ref(spec)
		if o.refused != "" {
			r.viol("refused", "intact document refused at %v: %v\n%s", o.refused, o.err, text)
			return
		}
		r.count("read and solved")
		r.note(o.snap.digest())
		if !usable(ref) {
			return
		}
		v := &viols{}
		o.snap.matches(ref, v)
		for _, x := range *v {
			r.viol(x.Class, "%v\n%s", x.Detail, text)
		}
	}
}

// runOrder is C01.
func (r *Run) runOrder(w *World) {
	plan := r.plan
	spec := plan.Specs[0]
	api := plan.Scenario == "lists"
	var first docOutcome
	var firstText string
	for i, v := range plan.Variants {
		op := &Op{K: fmt.Sprintf("variant %v", i)}
		w.n = i
		r.sched.perm = v.Perm
		var o docOutcome
		var ok bool
		text := ""
		if api {
			var b *Built
			bo := BuildOpts{}
			if v.Seed != 0 {
				bo.Order = NewRng(v.Seed, 33)
			}
			if !w.try(op, "building the problem", func() { b = build(spec, bo) }) {
				return
			}
			o, ok = w.throughProblem(op, b.P, false)
			text = fmt.Sprintf("lists in order %v", v.Seed)
		} else {
			j, k := textOf(spec, plan.Seed2, plan.Damage)
			if !k {
				return
			}
			if v.Seed != 0 {
				j.reorderDoc(NewRng(v.Seed, 32))
			}
			t := j.bytes(false)
			text = string(t)
			o, ok = w.through(op, t, false)
		}
		if !ok {
			return
		}
		r.count("variants")
		if o.refused != "" {
			r.count("refused at " + o.refused)
			r.noteS(o.refused)
		} else {
			r.note(o.snap.digest())
		}
		if i == 0 {
			first, firstText = o, text
			continue
		}
		what := fmt.Sprintf("variants 0 and %v\n%s\n%s\n", i, firstText, text)
		if (o.refused != "") != (first.refused != "") {
			r.viol("refusal-differs", "variant 0: %v, variant %v: %v\n%s", first.describe(), i, o.describe(), what)
			continue
		}
		if o.refused != "" {
			continue
		}
		r.count("pairs compared")
		for n := range first.snap.OrderP {
			if n >= len(o.snap.OrderP) || first.snap.OrderP[n] != o.snap.OrderP[n] || n >= len(o.snap.OrderR) || n >= len(first.snap.OrderR) || first.snap.OrderR[n] != o.snap.OrderR[n] {
				r.viol("sequence-differs", "values are listed as %v and %v: %s", first.snap.OrderP, o.snap.OrderP, what)
				break
			}
		}
		ref := r.ref(spec)
		if len(plan.Damage) > 0 || !usable(ref) {
			continue
		}
		x := &viols{}
		first.snap.same(o.snap, newScale(ref), x, what)
		for _, y := range *x {
			r.viol(y.Class, "%v", y.Detail)
		}
	}
}

func (o docOutcome) describe() string {
	if o.refused != "" {
		return fmt.Sprintf("refused at %v (%v)", o.refused, o.err)
	}
	return "solved"
}

func genOrder(r *Rng) *Plan {
	plan := &Plan{Scenario: "documents", Seed2: r.U64()}
	if r.P(0.25) {
		plan.Scenario = "lists"
	}
	plan.Specs = []*Spec{genSpec(r, GenOpts{JSON: plan.Scenario == "documents", MaxElems: pick(r, 2, 3, 5, 8), WantLink: r.P(0.3), WantSettle: r.P(0.3), WantHinge: r.P(0.3), Large: r.P(0.002)})}
	if plan.Scenario == "documents" && r.P(0.35) {
		for try := 0; try < 10; try++ {
			d := Damage{Kind: refDamages[r.N(len(refDamages))], At: r.F(), Seed: r.U64()}
			if _, ok := textOf(plan.Specs[0], plan.Seed2, []Damage{d}); ok {
				plan.Damage = []Damage{d}
				break
			}
		}
	}
	n := pick(r, 3, 4, 6)
	for i := 0; i < n; i++ {
		v := Variant{Perm: PermPlan{Mode: "seed", Seed: r.U64()}}
		switch {
		case i == 0:
			v.Perm = PermPlan{Mode: "sorted"}
		case i == 1 && r.P(0.5):
			v.Perm = PermPlan{Mode: "reversed"}
		default:
			if r.P(0.5) {
				v.Seed = r.U64() | 1
			}
		}
		plan.Variants = append(plan.Variants, v)
	}
	return plan
}

func genDamaged(r *Rng) *Plan {
	plan := &Plan{Scenario: "damaged document", Seed2: r.U64()}
	s := genSpec(r, GenOpts{JSON: true, MaxElems: pick(r, 2, 3, 5), WantHinge: r.P(0.4), WantLink: r.P(0.4), Large: r.P(0.001)})
	plan.Specs = []*Spec{s}
	n := pick(r, 1, 1, 1, 2, 3)
	add := func(k string) {
		plan.Damage = append(plan.Damage, Damage{Kind: k, At: r.F(), Len: pick(r, 1, 4, 16, 64, 512), Bit: r.N(8), Seed: r.U64()})
	}
	if r.P(0.5) {
		// Values first, then perhaps bytes.
		for i := 0; i < n; i++ {
			if r.P(0.25) {
				add(refDamages[r.N(len(refDamages))])
			} else {
				add(valueDamages[r.N(len(valueDamages))])
			}
		}
		if r.P(0.15) {
			add(byteDamages[r.N(len(byteDamages))])
		}
	} else {
		for i := 0; i < n; i++ {
			add(byteDamages[r.N(len(byteDamages))])
		}
	}
	// The earlier version: same structure with other numbers, or something else.
	if r.P(0.5) {
		plan.Specs = append(plan.Specs, genSpec(r, GenOpts{JSON: true, MaxElems: 3}))
	} else {
		c := s.clone()
		for i := range c.Elems {
			c.Elems[i].Loads = nil
		}
		c.Nodal = nil
		plan.Specs = append(plan.Specs, c)
	}
	return plan
}

func genRecords(r *Rng) *Plan {
	plan := &Plan{Scenario: "document", Seed2: r.U64()}
	s := genSpec(r, GenOpts{JSON: true, MaxElems: pick(r, 2, 3, 5, 8), WantHinge: r.P(0.4), WantLink: r.P(0.4), WantSettle: r.P(0.4), Large: r.P(0.002)})
	plan.Specs = []*Spec{s}
	// The same load twice is two loads.
	if r.P(0.3) {
		for i := range s.Elems {
			e := &s.Elems[i]
			if len(e.Loads) > 0 && r.P(0.5) {
				e.Loads = append(e.Loads, e.Loads[r.N(len(e.Loads))])
			}
		}
	}
	if len(s.Nodal) > 0 && r.P(0.3) {
		s.Nodal = append(s.Nodal, s.Nodal[r.N(len(s.Nodal))])
	}
	if r.P(0.15) && len(s.Nodes) > 0 {
		// A node nobody uses.
		s.Nodes = append(s.Nodes, NodeSpec{ID: "spare", X: 77, Y: 0, Z: 3})
	}
	if r.P(0.15) {
		// A material and section nobody uses.
		if len(s.Mats) > 1 {
			s.Mats = append(s.Mats, genMat(r))
		}
	}
	if r.P(0.6) {
		for try := 0; try < 10; try++ {
			d := Damage{Kind: refDamages[r.N(len(refDamages))], At: r.F(), Seed: r.U64()}
			if _, ok := textOf(s, plan.Seed2, []Damage{d}); ok {
				plan.Damage = []Damage{d}
				break
			}
		}
	}
	return plan
}
