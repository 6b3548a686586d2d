From 9e3b7ca601c99b51f018d80f89e489bcc32a0f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 01/19] fix: account for non-zero Dirichlet values in the right
 hand side

The test for non-zero prescribed values was inverted, so that prescribed
displacements were ignored unless another prescribed value was zero.
---
 deflect/linear_bvp_solver.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 89b54c6..74c541b 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -3,7 +3,6 @@ package deflect
 import (
 	"fmt"
 
-	"gonum.org/v1/gonum/floats/scalar"
 	"gonum.org/v1/gonum/mat"
 )
 
@@ -47,7 +46,7 @@ func (s *linearSolver) Solve(
 	var hasNonZeroDirichlet bool
 
 	for _, bc := range p.Dirichlet {
-		hasNonZeroDirichlet = hasNonZeroDirichlet || scalar.EqualWithinAbs(bc.Value, 0, 1e-12)
+		hasNonZeroDirichlet = hasNonZeroDirichlet || bc.Value != 0
 		d.SetVec(indices.mapOne(bc.Index), bc.Value)
 	}
 
-- 
2.43.0


From ee35de798ff5a503058424c9ae15241a60d0957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 02/19] fix: decouple results from the solver's buffers

A result referred to the vectors of the solver, so that solving a second
problem with the same solver changed the results of the first one.
---
 deflect/linear_bvp_solver.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 74c541b..25cefbf 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -2,6 +2,7 @@ package deflect
 
 import (
 	"fmt"
+	"slices"
 
 	"gonum.org/v1/gonum/mat"
 )
@@ -96,13 +97,14 @@ func (s *linearSolver) Solve(
 
 	err := indices.flushFailure()
 
+	// The solver's buffers are re-used for the next problem, the result must not refer to them.
 	return &solverResult{
 		total:    s.dim,
 		net:      s.dim - s.constrained,
-		d:        s.eqn.d,
-		r:        s.eqn.r,
+		d:        mat.VecDenseCopyOf(s.eqn.d),
+		r:        mat.VecDenseCopyOf(s.eqn.r),
 		indices:  indices,
-		elements: p.Elements,
+		elements: slices.Clone(p.Elements),
 	}, err
 }
 
-- 
2.43.0


From 21d4879478a501f8ee8d6e823b5a9d64ea19235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 03/19] fix: don't keep buffers in inclined supports

The buffers were sized for the first system of equations, and were shared
by everyone who solves a problem with the same support.
---
 deflect/inclined_support.go | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/deflect/inclined_support.go b/deflect/inclined_support.go
index 9d905a2..92b42a5 100644
--- a/deflect/inclined_support.go
+++ b/deflect/inclined_support.go
@@ -12,14 +12,13 @@ import (
 // index determines how the Transformer acts on the assembled tangent and vectors, and hence
 // returned by the same constructor(-like) function.
 func NewInclinedSupport(from, to Index, angle float64) (Transformer, NodalValue) {
-	return &inclinedSupport{from: from, to: to, c: math.Cos(angle), s: math.Sin(angle), irow: nil},
+	return &inclinedSupport{from: from, to: to, c: math.Cos(angle), s: math.Sin(angle)},
 		NodalValue{Index: to, Value: 0}
 }
 
 type inclinedSupport struct {
-	from, to   Index
-	c, s       float64
-	irow, jrow *mat.VecDense
+	from, to Index
+	c, s     float64
 }
 
 type angularLinkPhase uint8
@@ -30,15 +29,6 @@ const (
 )
 
 func (l *inclinedSupport) Pre(indices EqLayout, k *mat.SymDense, r, d *mat.VecDense) {
-	// Initialise the buffer if necessary. We might want to think about sharing the same buffer
-	// between multiple inclinedSupport instances at some point, since re-using the buffer would be
-	// more efficient.
-	if l.irow == nil {
-		dim := k.SymmetricDim()
-		l.irow = mat.NewVecDense(dim, nil)
-		l.jrow = mat.NewVecDense(dim, nil)
-	}
-
 	i, j := indices.mapTwo(l.from, l.to)
 
 	l.transformTangent(i, j, k)
@@ -47,8 +37,6 @@ func (l *inclinedSupport) Pre(indices EqLayout, k *mat.SymDense, r, d *mat.VecDe
 }
 
 func (l *inclinedSupport) Post(indices EqLayout, r, d *mat.VecDense) {
-	// No need to check for the initialisation of l's buffers, since l.Pre must have been called
-	// before l.Post, and l.Pre would initialise them.
 	i, j := indices.mapTwo(l.from, l.to)
 
 	l.transformVec(i, j, angularLinkPhasePost, r)
@@ -90,20 +78,23 @@ func (l *inclinedSupport) transformTangent(i, j int, k *mat.SymDense) {
 	kij := k.At(i, j)
 	kjj := k.At(j, j)
 
+	irow := mat.NewVecDense(dim, nil)
+	jrow := mat.NewVecDense(dim, nil)
+
 	for m := range dim {
 		if m == i || m == j {
 			continue
 		}
 		// Populate scratch buffers for the matrix-matrix multiplication that we carry out only for the
 		// two relevant rows.
-		l.irow.SetVec(m, c*k.At(m, i)+s*k.At(m, j))
-		l.jrow.SetVec(m, -s*k.At(m, i)+c*k.At(m, j))
+		irow.SetVec(m, c*k.At(m, i)+s*k.At(m, j))
+		jrow.SetVec(m, -s*k.At(m, i)+c*k.At(m, j))
 	}
 
 	// Spill scratch buffers into the destination matrix
 	for m := range dim {
-		k.SetSym(i, m, l.irow.AtVec(m))
-		k.SetSym(j, m, l.jrow.AtVec(m))
+		k.SetSym(i, m, irow.AtVec(m))
+		k.SetSym(j, m, jrow.AtVec(m))
 	}
 
 	// Finally, the diagonal terms
-- 
2.43.0


From 055ef149a617fca15a04b25f47b0c32d594b6be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 04/19] fix: remove loads from frame elements

Loads are stored by a frame's truss and beam, so removing them from the frame
itself had no effect.
---
 deflect/frame.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deflect/frame.go b/deflect/frame.go
index c69e2c4..c9cb490 100644
--- a/deflect/frame.go
+++ b/deflect/frame.go
@@ -70,6 +70,11 @@ func (f *frame) AddLoad(bc NeumannElementBC) bool {
 	return f.truss.AddLoad(bc) || f.beam.AddLoad(bc)
 }
 
+func (f *frame) RemoveLoad(bc NeumannElementBC) {
+	f.truss.RemoveLoad(bc)
+	f.beam.RemoveLoad(bc)
+}
+
 func (f *frame) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
 	s0 := f.truss.Interpolate(indices, which, d)
 	s1 := f.beam.Interpolate(indices, which, d)
-- 
2.43.0


From 14d4d4067d825f5513091d4d71609260b1d0baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 05/19] fix: don't report loads as reactions

The loads on free degrees of freedom were left in the vector of reactions, and
ended up in the reactions of inclined supports.
---
 deflect/linear_bvp_solver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 25cefbf..e5fa277 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -91,6 +91,10 @@ func (s *linearSolver) Solve(
 	scratch.MulVec(k11, d1)
 	r1.AddVec(r1, scratch)
 
+	// There are no reactions for free degrees of freedom, but r still has the loads there, and
+	// transformations would mix them with the reactions.
+	r2.Zero()
+
 	for _, transform := range p.EqTransforms {
 		transform.Post(indices, r, d)
 	}
-- 
2.43.0


From 6ccab450051264974ca4101eb4c165fb3e3b591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 06/19] fix: revert transformations in reverse order

Transformations that refer to the same degree of freedom don't commute.
---
 deflect/linear_bvp_solver.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index e5fa277..8f2394d 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -95,8 +95,9 @@ func (s *linearSolver) Solve(
 	// transformations would mix them with the reactions.
 	r2.Zero()
 
-	for _, transform := range p.EqTransforms {
-		transform.Post(indices, r, d)
+	// The transformation that was applied last must be reverted first.
+	for i := len(p.EqTransforms) - 1; i >= 0; i-- {
+		p.EqTransforms[i].Post(indices, r, d)
 	}
 
 	err := indices.flushFailure()
-- 
2.43.0


From 17b010e01434eaf2aed49411859353598e4e65b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 07/19] fix: report failed lookups of elements and transformers

Elements and transformers receive a copy of the layout, so that their failed
lookups were lost, and the first equation was used instead.
---
 deflect/eq_layout.go         | 21 ++++++++++++++++-----
 deflect/linear_bvp_solver.go |  9 +++++++--
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/deflect/eq_layout.go b/deflect/eq_layout.go
index afa78c8..542de61 100644
--- a/deflect/eq_layout.go
+++ b/deflect/eq_layout.go
@@ -16,8 +16,14 @@ import (
 // populated with the erroneous index mapping can't be used. In the context of tangent/residual
 // assembly, the solver process should probably be aborted.
 type EqLayout struct {
-	indices  map[Index]int
-	inverse  []Index
+	indices map[Index]int
+	inverse []Index
+	// An EqLayout is passed by value, and failures must be visible to the caller nonetheless. It is
+	// allocated upon the first failure, or by whoever needs to know about failures in callees.
+	*lookupFailures
+}
+
+type lookupFailures struct {
 	failures int
 	failed   []string
 }
@@ -59,6 +65,10 @@ func (el *EqLayout) unmap(i int) (isym Index) {
 
 func (el *EqLayout) saveFailure(ok bool, symbolic Index) {
 	if !ok {
+		if el.lookupFailures == nil {
+			el.lookupFailures = &lookupFailures{}
+		}
+
 		el.failures++
 
 		if len(el.failed) < 5 {
@@ -71,7 +81,7 @@ func (el *EqLayout) saveFailure(ok bool, symbolic Index) {
 // error state is _not_ flushed. In order to clear the error too, use [EqLayout.flushFailure]
 // instead.
 func (el *EqLayout) failure() error {
-	if el.failures == 0 {
+	if el.lookupFailures == nil || el.failures == 0 {
 		return nil
 	}
 
@@ -89,8 +99,9 @@ func (el *EqLayout) failure() error {
 func (el *EqLayout) flushFailure() error {
 	failure := el.failure()
 
-	el.failures = 0
-	el.failed = nil
+	if el.lookupFailures != nil {
+		*el.lookupFailures = lookupFailures{}
+	}
 
 	return failure
 }
diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 8f2394d..091a9b1 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -31,6 +31,9 @@ func (s *linearSolver) Solve(
 	indices EqLayout,
 	strategy EquationSolver,
 ) (ProblemResult, error) {
+	// Collect lookup failures of elements and transformers, which receive a copy of the layout
+	indices.lookupFailures = &lookupFailures{}
+
 	if err := s.initialise(indices.eqSize(), len(p.Dirichlet)); err != nil {
 		return nil, err
 	}
@@ -100,7 +103,9 @@ func (s *linearSolver) Solve(
 		p.EqTransforms[i].Post(indices, r, d)
 	}
 
-	err := indices.flushFailure()
+	if err := indices.flushFailure(); err != nil {
+		return nil, fmt.Errorf("failed to transform the solution: %w", err)
+	}
 
 	// The solver's buffers are re-used for the next problem, the result must not refer to them.
 	return &solverResult{
@@ -110,7 +115,7 @@ func (s *linearSolver) Solve(
 		r:        mat.VecDenseCopyOf(s.eqn.r),
 		indices:  indices,
 		elements: slices.Clone(p.Elements),
-	}, err
+	}, nil
 }
 
 func (s *linearSolver) initialise(dim, constrained int) error {
-- 
2.43.0


From fdd3da3e113a973f042e955940091f7e6c8ee6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 08/19] fix: refuse to solve with a layout of another problem

A layout that was created before the supports or elements were changed was used
as if it matched, with wrong results.
---
 deflect/eq_layout.go         | 35 +++++++++++++++++++++++++++++++++++
 deflect/linear_bvp_solver.go |  4 ++++
 2 files changed, 39 insertions(+)

diff --git a/deflect/eq_layout.go b/deflect/eq_layout.go
index 542de61..6c04b9e 100644
--- a/deflect/eq_layout.go
+++ b/deflect/eq_layout.go
@@ -113,6 +113,41 @@ func NewEqLayout(p *Problem) (EqLayout, error) {
 	return newEqLayoutDirect(indices), err
 }
 
+// verify returns an error if the layout doesn't match the given problem, e.g., because elements or
+// Dirichlet boundary conditions have been changed since the layout was created.
+func (el *EqLayout) verify(p *Problem) error {
+	current := map[Index]struct{}{}
+
+	for _, element := range p.Elements {
+		element.Indices(current)
+	}
+
+	for index := range current {
+		if _, ok := el.indices[index]; !ok {
+			return fmt.Errorf("no equation for %v/%v", index.NodalID, index.Dof)
+		}
+	}
+
+	if len(current) != len(el.indices) {
+		return fmt.Errorf("%v equations for %v indices", len(el.indices), len(current))
+	}
+
+	constrained := map[Index]struct{}{}
+
+	for _, d := range p.Dirichlet {
+		if i, ok := el.indices[d.Index]; !ok || i >= len(p.Dirichlet) {
+			return fmt.Errorf("no constrained equation for %v/%v", d.NodalID, d.Dof)
+		}
+		constrained[d.Index] = struct{}{}
+	}
+
+	if len(constrained) != len(p.Dirichlet) {
+		return errors.New("duplicate Dirichlet BCs")
+	}
+
+	return nil
+}
+
 func newEqLayoutDirect(indices map[Index]int) EqLayout {
 	return EqLayout{indices: indices, inverse: invertIndexMap(indices)}
 }
diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 091a9b1..8b65f71 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -34,6 +34,10 @@ func (s *linearSolver) Solve(
 	// Collect lookup failures of elements and transformers, which receive a copy of the layout
 	indices.lookupFailures = &lookupFailures{}
 
+	if err := indices.verify(p); err != nil {
+		return nil, fmt.Errorf("layout doesn't match the problem: %w", err)
+	}
+
 	if err := s.initialise(indices.eqSize(), len(p.Dirichlet)); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 9c9ce2df47dbd84c6647ee501c21fc684e6f7c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 09/19] fix: return an error for problems with no Dirichlet BC

The solver panicked when slicing the system of equations.
---
 deflect/linear_bvp_solver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 8b65f71..e84e707 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -1,6 +1,7 @@
 package deflect
 
 import (
+	"errors"
 	"fmt"
 	"slices"
 
@@ -123,7 +124,9 @@ func (s *linearSolver) Solve(
 }
 
 func (s *linearSolver) initialise(dim, constrained int) error {
-	if dim == constrained {
+	if constrained == 0 {
+		return errors.New("can't solve a problem with no Dirichlet BC")
+	} else if dim == constrained {
 		return fmt.Errorf("all %v degrees of freedom have Dirichlet BC, no need to solve this", dim)
 	}
 
-- 
2.43.0


From 7a17b2dc1a09e7d95de7365061bda4bc212634ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 10/19] fix: refuse to evaluate polynomials beyond the end of
 their domain

---
 deflect/polynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deflect/polynomial.go b/deflect/polynomial.go
index aa7c587..cc5cad3 100644
--- a/deflect/polynomial.go
+++ b/deflect/polynomial.go
@@ -26,7 +26,7 @@ func (p *PolyPiece) Degree() int {
 
 // Eval evaluates the polynomial at x. If x is outside of the domain, an error is returned.
 func (p *PolyPiece) Eval(x float64) (float64, error) {
-	if x+1e-10 < p.X0 || x-1e10 > p.XE {
+	if x+1e-10 < p.X0 || x-1e-10 > p.XE {
 		return 0, fmt.Errorf("%v outside of domain [%v, %v]", x, p.X0, p.XE)
 	}
 
-- 
2.43.0


From 2a6652a5582e6b373511615dc4e77051c0bc5e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 11/19] fix: refuse concentrated loads beyond the end of an
 element

---
 deflect/one_dim_element.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/deflect/one_dim_element.go b/deflect/one_dim_element.go
index b72988f..446f0ad 100644
--- a/deflect/one_dim_element.go
+++ b/deflect/one_dim_element.go
@@ -3,6 +3,8 @@ package deflect
 import (
 	"fmt"
 	"slices"
+
+	"gonum.org/v1/gonum/floats/scalar"
 )
 
 func newOneDimElement(id string, n0, n1 *Node, material *Material) (oneDimElement, error) {
@@ -27,6 +29,14 @@ type oneDimElement struct {
 }
 
 func (e *oneDimElement) AddLoad(bc NeumannElementBC) bool {
+	if load, ok := bc.(*neumannConcentrated); ok {
+		l := length(e.n0, e.n1)
+
+		if load.position > l && !scalar.EqualWithinAbsOrRel(load.position, l, 1e-10, 1e-10) {
+			return false
+		}
+	}
+
 	e.loads = append(e.loads, bc)
 	return true
 }
-- 
2.43.0


From 5160943228c4a16dcdd188b8e528a6ad97c36882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 12/19] fix: refuse unknown kinds of loads on trusses

Anything that isn't a known load was taken for a load in the direction of the
element, and was accepted with no effect.
---
 deflect/truss2d.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/deflect/truss2d.go b/deflect/truss2d.go
index 88bc1a9..b708a4f 100644
--- a/deflect/truss2d.go
+++ b/deflect/truss2d.go
@@ -122,19 +122,15 @@ func (t *truss2d) indicesAsArray() *[4]Index {
 }
 
 func (t *truss2d) AddLoad(bc NeumannElementBC) bool {
-	var kind Dof
+	supported := false
 
 	loadDispatch(bc,
-		func(load *neumannConcentrated) { kind = load.kind },
-		func(load *neumannConstant) { kind = load.kind },
-		func(load *neumannLinear) { kind = load.kind },
+		func(load *neumannConcentrated) { supported = load.kind == Ux },
+		func(load *neumannConstant) { supported = load.kind == Ux },
+		func(load *neumannLinear) { supported = load.kind == Ux },
 	)
 
-	if kind == Ux {
-		return t.oneDimElement.AddLoad(bc)
-	}
-
-	return false
+	return supported && t.oneDimElement.AddLoad(bc)
 }
 
 func (t *truss2d) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
-- 
2.43.0


From d79a0eacc356763cd05f359bc2415ced065d79e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 13/19] fix: refuse unknown kinds of materials

---
 deflect/problem_from_json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 7a91aa7..afcdac7 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -312,6 +312,10 @@ func translateMaterials(from map[string]matDescription) (map[string]LinearElasti
 	}
 
 	for id, desc := range from {
+		if desc.Kind != "linelast" {
+			return materials, fmt.Errorf("unsupported material '%v'", desc.Kind)
+		}
+
 		E, found0 := desc.Parameter["E"]
 		nu, found1 := desc.Parameter["nu"]
 		rho, found2 := desc.Parameter["rho"]
-- 
2.43.0


From 26255713105c969f9c70d2ca206a2785a496ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:51 +0000
Subject: [PATCH 14/19] fix: refuse nodes that don't have 3 coordinates

---
 deflect/problem_from_json.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index afcdac7..c6b761c 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -72,7 +72,7 @@ type elmtDescription struct {
 // ProblemFromJSON parses the given JSON data and constructs a boundary value problem from it.
 func ProblemFromJSON(data []byte) (Problem, error) {
 	var tmp struct {
-		Nodes        map[string][3]float64
+		Nodes        map[string][]float64
 		Material     map[string]matDescription
 		Crosssection map[string]csDescription
 		Elements     map[string]elmtDescription
@@ -124,9 +124,13 @@ func ProblemFromJSON(data []byte) (Problem, error) {
 	return result, nil
 }
 
-func translateNodes(from map[string][3]float64) ([]Node, error) {
+func translateNodes(from map[string][]float64) ([]Node, error) {
 	nodes := make([]Node, 0, len(from))
 	for id, coor := range from {
+		if len(coor) != 3 {
+			return nodes, fmt.Errorf("node '%v' needs 3 coordinates, got %v", id, len(coor))
+		}
+
 		nodes = append(nodes, Node{ID: id, X: coor[0], Y: coor[1], Z: coor[2]})
 	}
 
-- 
2.43.0


From a396de7bb8fede5f9741fd0548b96573c1c4d8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 15/19] fix: refuse inclined supports without an angle

---
 deflect/problem_from_json.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index c6b761c..594a31f 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -22,7 +22,7 @@ type nodalValues map[string]float64
 type dirichletAngularLink struct {
 	From  string
 	To    string
-	Angle float64
+	Angle *float64
 }
 
 // neumannDescription is a simplistic sum type, where nothing enforces that is isn't used as a
@@ -568,11 +568,14 @@ func translateAngularLinks(
 
 			if !(okFrom && okTo) {
 				continue
+			} else if desc.Angle == nil {
+				dofs.err = errors.Join(dofs.err, fmt.Errorf("%v: no angle given at node '%v'", dofs.context, nodeID))
+				continue
 			}
 
 			fromIndex := Index{NodalID: nodeID, Dof: dofFrom}
 			toIndex := Index{NodalID: nodeID, Dof: dofTo}
-			transformer, bc := NewInclinedSupport(fromIndex, toIndex, desc.Angle)
+			transformer, bc := NewInclinedSupport(fromIndex, toIndex, *desc.Angle)
 			links = append(links, transformer)
 			bcs = append(bcs, bc)
 		}
-- 
2.43.0


From 3a45baeeacc5a7c2c0d20d789db9143275850d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:08 +0000
Subject: [PATCH 16/19] fix: infer nodes from element IDs with characters
 beyond ASCII

---
 deflect/problem_from_json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 594a31f..bc1f757 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -254,14 +254,16 @@ func determineNodes(
 		return nil, nil, fmt.Errorf("expected node ID slice of length 0 or 2, got %v IDs", len(nodeIDs))
 	}
 
-	if len(elmtID) != 2 {
+	chars := []rune(elmtID)
+
+	if len(chars) != 2 {
 		return nil, nil, fmt.Errorf(
 			"can't infer connected node IDs from element ID '%v' (need 2 chars)",
 			elmtID,
 		)
 	}
 
-	n0, n1 := string(elmtID[0]), string(elmtID[1])
+	n0, n1 := string(chars[0]), string(chars[1])
 	return determineNodes(elmtID, []string{n0, n1}, nodes)
 }
 
-- 
2.43.0


From 0a61f518d63771876c71a01043bb524f31faf647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 17/19] fix: refuse inclined supports between a direction and
 itself

---
 deflect/problem_from_json.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index bc1f757..83c9245 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -570,6 +570,12 @@ func translateAngularLinks(
 
 			if !(okFrom && okTo) {
 				continue
+			} else if dofFrom == dofTo {
+				dofs.err = errors.Join(
+					dofs.err,
+					fmt.Errorf("%v: needs two directions at node '%v', not %v only", dofs.context, nodeID, desc.From),
+				)
+				continue
 			} else if desc.Angle == nil {
 				dofs.err = errors.Join(dofs.err, fmt.Errorf("%v: no angle given at node '%v'", dofs.context, nodeID))
 				continue
-- 
2.43.0


From ac9cf977d2a077680a8c43dd676799730b2f4cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:57 +0000
Subject: [PATCH 18/19] fix: don't return the internal lists of a result

PrimaryAll and ReactionAll handed out the very slice that later calls return again, such that a
caller who sorts, scales or overwrites it changes what the result tells everyone else.
---
 deflect/solver_result.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/deflect/solver_result.go b/deflect/solver_result.go
index 4f85aa8..2b991bb 100644
--- a/deflect/solver_result.go
+++ b/deflect/solver_result.go
@@ -14,8 +14,6 @@ type solverResult struct {
 	d, r       *mat.VecDense
 	indices    EqLayout
 	elements   []Element
-	// Group solution/reaction with symbolic index:
-	dIndexed, rIndexed []NodalValue
 }
 
 func (sr *solverResult) Primary(i Index) (NodalValue, error) {
@@ -29,21 +27,17 @@ func (sr *solverResult) Reaction(i Index) (NodalValue, error) {
 }
 
 func (sr *solverResult) PrimaryAll() []NodalValue {
-	sr.dIndexed = sr.indexPaired(sr.dIndexed, sr.d)
-	return sr.dIndexed
+	return sr.indexPaired(sr.d)
 }
 
 func (sr *solverResult) ReactionAll() []NodalValue {
-	sr.rIndexed = sr.indexPaired(sr.rIndexed, sr.r)
-	return sr.rIndexed
+	return sr.indexPaired(sr.r)
 }
 
-func (sr *solverResult) indexPaired(paired []NodalValue, raw *mat.VecDense) []NodalValue {
-	if paired != nil {
-		return paired
-	}
-
-	paired = make([]NodalValue, sr.total)
+// indexPaired groups the values of raw with their symbolic index. The returned slice belongs to the
+// caller, who is free to sort or overwrite it.
+func (sr *solverResult) indexPaired(raw *mat.VecDense) []NodalValue {
+	paired := make([]NodalValue, sr.total)
 
 	for i := 0; i < sr.total; i++ {
 		symbolic := sr.indices.unmap(i)
-- 
2.43.0


From 56386a63c15fbbab4f8455f7f0d789d90607808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:12 +0000
Subject: [PATCH 19/19] fix: don't share the record of failures between queries
 of a result

Queries read a result, but all of them kept their failed lookups in the same record. Hence, of two
concurrent queries, one could report (or clear) the failure of the other.
---
 deflect/solver_result.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/deflect/solver_result.go b/deflect/solver_result.go
index 2b991bb..46e3178 100644
--- a/deflect/solver_result.go
+++ b/deflect/solver_result.go
@@ -16,14 +16,27 @@ type solverResult struct {
 	elements   []Element
 }
 
+// layout returns the index layout with a separate record of lookup failures. Every query must use
+// its own, because queries don't change a result and hence can run concurrently.
+func (sr *solverResult) layout() EqLayout {
+	indices := sr.indices
+	indices.lookupFailures = &lookupFailures{}
+
+	return indices
+}
+
 func (sr *solverResult) Primary(i Index) (NodalValue, error) {
-	plain := sr.indices.mapOne(i)
-	return NodalValue{Index: i, Value: sr.d.AtVec(plain)}, sr.indices.flushFailure()
+	indices := sr.layout()
+	plain := indices.mapOne(i)
+
+	return NodalValue{Index: i, Value: sr.d.AtVec(plain)}, indices.failure()
 }
 
 func (sr *solverResult) Reaction(i Index) (NodalValue, error) {
-	plain := sr.indices.mapOne(i)
-	return NodalValue{Index: i, Value: sr.r.AtVec(plain)}, sr.indices.flushFailure()
+	indices := sr.layout()
+	plain := indices.mapOne(i)
+
+	return NodalValue{Index: i, Value: sr.r.AtVec(plain)}, indices.failure()
 }
 
 func (sr *solverResult) PrimaryAll() []NodalValue {
@@ -44,10 +57,6 @@ func (sr *solverResult) indexPaired(raw *mat.VecDense) []NodalValue {
 		paired[i] = NodalValue{Index: symbolic, Value: raw.AtVec(i)}
 	}
 
-	if err := sr.indices.flushFailure(); err != nil {
-		log.Panicf("This is a bug, unmapping 0...%v to symbolic indices failed: %v", sr.total, err)
-	}
-
 	return paired
 }
 
@@ -62,7 +71,8 @@ func (sr *solverResult) Interpolate(
 		return Interpolation{}, fmt.Errorf("no element with ID '%v' found", elmtID)
 	}
 
-	interpolation := sr.elements[idx].Interpolate(sr.indices, quantity, sr.d)
+	indices := sr.layout()
+	interpolation := sr.elements[idx].Interpolate(indices, quantity, sr.d)
 	interpolation.TrimTrailingZeros(zeroTol)
 	interpolation = interpolation.CompactIdentical(zeroTol)
 
@@ -72,7 +82,7 @@ func (sr *solverResult) Interpolate(
 		Piecewise: interpolation,
 	}
 
-	return result, sr.indices.flushFailure()
+	return result, indices.failure()
 }
 
 func (sr *solverResult) InterpolateAll(zeroTol float64) []Interpolation {
-- 
2.43.0

