From c1db0bb505903499da4d0be10ba41a9fd33378c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 01/60] fix: register each derived field under its own storage

The loop variable was captured by reference, so every registered name pointed
to the last derived field.
---
 pf/model.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pf/model.go b/pf/model.go
index 140d220..c803222 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -336,6 +336,7 @@ func (m *Model) registerTerm(name string, t PureTerm, dFields []DerivedField, te
 func (m *Model) registerDerivedFields(dFields []DerivedField) {
 	if dFields != nil {
 		for _, f := range dFields {
+			f := f
 			if !m.IsFieldName(f.Name) {
 				m.DerivedFields = append(m.DerivedFields, f)
 				m.Bricks[f.Name] = &f
-- 
2.43.0


From 2a30a35dd1ddacde5dfce7f7dcdebcf4ab228221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 02/60] fix: advance the RK4 clock in Step

Solver.Propagate calls Step directly, so the time never advanced.
---
 pf/rk4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/rk4.go b/pf/rk4.go
index 72b1299..bd8f571 100644
--- a/pf/rk4.go
+++ b/pf/rk4.go
@@ -71,6 +71,7 @@ func (rk *RK4) Step(m *Model) {
 		rk.FT.IFFT(f.Data)
 		pfutil.DivRealScalar(f.Data, float64(len(f.Data)))
 	}
+	rk.CurrentStep++
 }
 
 // PrepareNextCorrection updates the final fields and rests the fields of the model to the original
@@ -130,7 +131,6 @@ func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
 func (rk *RK4) Propagate(nsteps int, m *Model) {
 	for i := 0; i < nsteps; i++ {
 		rk.Step(m)
-		rk.CurrentStep++
 	}
 }
 
-- 
2.43.0


From 0533c884dda1b626e70e13c719785d841748288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 03/60] fix: evaluate the RK4 stages at the documented time

---
 pf/rk4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/rk4.go b/pf/rk4.go
index bd8f571..edb72f2 100644
--- a/pf/rk4.go
+++ b/pf/rk4.go
@@ -123,7 +123,7 @@ func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
 	}
 
 	for i := range m.Fields {
-		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t)
+		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor*rk.Dt)
 	}
 }
 
-- 
2.43.0


From 89b4b5fcb42d22a69b648857db325e2f2ff0fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 04/60] fix: let Euler evaluate all equations before updating
 any field

---
 pf/euler.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pf/euler.go b/pf/euler.go
index 1730189..91304fe 100644
--- a/pf/euler.go
+++ b/pf/euler.go
@@ -24,13 +24,18 @@ func (eu *Euler) Step(m *Model) {
 	}
 
 	t := eu.GetTime()
+	rhs := make([][]complex128, len(m.Fields))
+	denum := make([][]complex128, len(m.Fields))
+	for i := range m.Fields {
+		rhs[i] = m.GetRHS(i, eu.FT.Freq, t)
+		denum[i] = m.GetDenum(i, eu.FT.Freq, t)
+	}
+
 	for i := range m.Fields {
-		rhs := m.GetRHS(i, eu.FT.Freq, t)
-		denum := m.GetDenum(i, eu.FT.Freq, t)
 		d := m.Fields[i].Data
 		// Apply semi implicit scheme
 		for j := range d {
-			d[j] = (d[j] + cDt*rhs[j]) / (complex(1.0, 0.0) - cDt*denum[j])
+			d[j] = (d[j] + cDt*rhs[i][j]) / (complex(1.0, 0.0) - cDt*denum[i][j])
 		}
 
 		if eu.Filter != nil {
-- 
2.43.0


From fb2295e3b7ec0976ca9352d5f37f6100769d61a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 05/60] fix: use the right hand side of the active field in SDD

---
 pf/sdd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/sdd.go b/pf/sdd.go
index 14325a1..22f04b4 100644
--- a/pf/sdd.go
+++ b/pf/sdd.go
@@ -209,7 +209,7 @@ func (sdd *SDD) Step(m *Model) {
 		w1 := complex(sdd.Alpha, 0.0)
 		w2 := complex(1.0-sdd.Alpha, 0.0)
 		for j := range work {
-			work[j] = w1*rhsStart[j] + w2*rhsEnd[j]
+			work[j] = w1*rhsStart[i*m.NumNodes()+j] + w2*rhsEnd[i*m.NumNodes()+j]
 		}
 		d := m.Fields[i].Data
 		activeFtOrient := ftOrientation[i*m.NumNodes() : (i+1)*m.NumNodes()]
-- 
2.43.0


From 49c4c37bb24379b4f1eb01d8d75e5f9b78ded8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 06/60] fix: plan 3D transforms in the storage order of the
 grid

Nodes are numbered depth-row-column, so the slowest dimension is the last one
in the domain size.
---
 pfutil/fftWrap.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pfutil/fftWrap.go b/pfutil/fftWrap.go
index 6595fef..f71ade0 100644
--- a/pfutil/fftWrap.go
+++ b/pfutil/fftWrap.go
@@ -16,8 +16,12 @@ type FFTWWrapper struct {
 func NewFFTW(n []int) *FFTWWrapper {
 	var transform FFTWWrapper
 	transform.Data = make([]complex128, ProdInt(n))
-	transform.PlanFFT = fftw.PlanZ2Z(n, transform.Data, transform.Data, -1, fftw.MEASURE)
-	transform.PlanIFFT = fftw.PlanZ2Z(n, transform.Data, transform.Data, 1, fftw.MEASURE)
+	order := n
+	if len(n) == 3 {
+		order = []int{n[2], n[0], n[1]}
+	}
+	transform.PlanFFT = fftw.PlanZ2Z(order, transform.Data, transform.Data, -1, fftw.MEASURE)
+	transform.PlanIFFT = fftw.PlanZ2Z(order, transform.Data, transform.Data, 1, fftw.MEASURE)
 	transform.Dimensions = n
 	return &transform
 }
-- 
2.43.0


From 71379383a51166477fcb152b9ed758b6b803925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 07/60] fix: let Scalar.SetFloat modify the scalar

---
 pf/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/model.go b/pf/model.go
index c803222..f25f5c0 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -98,7 +98,7 @@ func NewScalar(name string, value complex128) Scalar {
 }
 
 // SetFloat sets a new value
-func (s Scalar) SetFloat(v float64) {
+func (s *Scalar) SetFloat(v float64) {
 	s.Value = complex(v, 0.0)
 }
 
-- 
2.43.0


From 5769a3a1941e0b8d548543711e019215e120ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 08/60] fix: include the prefactor in the non-linear part of
 IdealMixtureTerm

---
 pf/pairCorrelationTerm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/pairCorrelationTerm.go b/pf/pairCorrelationTerm.go
index 7ede0ff..462d6ef 100644
--- a/pf/pairCorrelationTerm.go
+++ b/pf/pairCorrelationTerm.go
@@ -150,7 +150,7 @@ func (idt *IdealMixtureTerm) DerivedField(numNodes int, bricks map[string]Brick)
 			b := bricks[idt.Field]
 			for i := range out {
 				v := real(b.Get(i))
-				out[i] = complex(3.0*idt.IdealMix.ThirdOrderPrefactor()*v*v+4.0*idt.IdealMix.FourthOrderPrefactor()*v*v*v, 0.0)
+				out[i] = complex(idt.Prefactor*(3.0*idt.IdealMix.ThirdOrderPrefactor()*v*v+4.0*idt.IdealMix.FourthOrderPrefactor()*v*v*v), 0.0)
 			}
 		},
 	}
-- 
2.43.0


From a2d02e9cf75cace4151d4b332e5da2f21a05d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 09/60] fix: give CubicMaterial the minor symmetries

---
 elasticity/rank4.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elasticity/rank4.go b/elasticity/rank4.go
index 8426b08..8a5b2d3 100644
--- a/elasticity/rank4.go
+++ b/elasticity/rank4.go
@@ -122,6 +122,8 @@ func CubicMaterial(c11 float64, c12 float64, c44 float64) Rank4 {
 
 			tensor.Set(i, j, i, j, c44)
 			tensor.Set(j, i, j, i, c44)
+			tensor.Set(i, j, j, i, c44)
+			tensor.Set(j, i, i, j, c44)
 		}
 	}
 	return tensor
-- 
2.43.0


From 5f0574a75a3ebcdf9c09d156228e91e668f132df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 10/60] fix: contract the perturbed stress with its own wave
 vector component

---
 elasticity/perturbation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elasticity/perturbation.go b/elasticity/perturbation.go
index 7808a63..b21145c 100644
--- a/elasticity/perturbation.go
+++ b/elasticity/perturbation.go
@@ -54,8 +54,8 @@ func PerturbedForce(ft FourierTransform, misfit *mat.Dense, ftDisp [][]complex12
 			for k := range force {
 				f := ft.Freq(k)
 				for comp := 0; comp < dim; comp++ {
-					for q := 0; q < 3; q++ {
-						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[comp]) * strain[k]
+					for q := 0; q < dim; q++ {
+						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[q]) * strain[k]
 					}
 				}
 			}
-- 
2.43.0


From 7edb8e565ec17701864b7a621827f539e9032a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 11/60] fix: count planes with |H| = |L| correctly in
 NumEquivalent3D

---
 pfc/miller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfc/miller.go b/pfc/miller.go
index 0a7d334..e7d90d8 100644
--- a/pfc/miller.go
+++ b/pfc/miller.go
@@ -60,7 +60,7 @@ func NumEquivalent3D(miller Miller) int {
 	if abs(miller.K) == abs(miller.H) {
 		numEqual++
 	}
-	if abs(miller.L) == abs(miller.K) {
+	if abs(miller.L) == abs(miller.K) || abs(miller.L) == abs(miller.H) {
 		numEqual++
 	}
 
-- 
2.43.0


From 8be6c983b75f3b3421ad45944272cb745178999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 12/60] fix: no penalty gradient for even exponents, where
 |x|^n equals x^n

---
 pf/negative_value_penalty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/negative_value_penalty.go b/pf/negative_value_penalty.go
index c6de7f5..14b6727 100644
--- a/pf/negative_value_penalty.go
+++ b/pf/negative_value_penalty.go
@@ -17,7 +17,7 @@ func (nvp *NegativeValuePenalty) Penalty(x float64) float64 {
 		return 0.0
 	}
 	p := float64(nvp.Exponent)
-	return -2.0*nvp.Prefactor*p*math.Pow(x, p-1.0)
+	return -nvp.Prefactor*p*(math.Pow(-x, p-1.0) + math.Pow(x, p-1.0))
 }
 
 // Evaluate can be registered as a function in any model
-- 
2.43.0


From bcd02e830114cb62025ab9d64d34935b742e9510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 13/60] fix: give Advection, DivGrad and WeightedLaplacian the
 PureTerm interface

They could not be registered in a model.
---
 pf/advection.go          | 2 +-
 pf/gradientCalculator.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pf/advection.go b/pf/advection.go
index 9408dfc..b8f20cd 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -95,4 +95,4 @@ func (ad *Advection) Construct(bricks map[string]Brick) Term {
 }
 
 // OnStepFinished does nothing as we don't need any updates in between steps
-func (ad *Advection) OnStepFinished(t float64) {}
+func (ad *Advection) OnStepFinished(t float64, bricks map[string]Brick) {}
diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 60ab932..7c76f6b 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -106,7 +106,7 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 }
 
 // OnStepFinished does nothing as we don't need any updates in between steps
-func (dg *DivGrad) OnStepFinished(t float64) {}
+func (dg *DivGrad) OnStepFinished(t float64, bricks map[string]Brick) {}
 
 // WeightedLaplacian is a type used to represent terms of the form
 // F(c) LAP <field>, where F is a function of all the fields.
@@ -158,3 +158,6 @@ func (wl *WeightedLaplacian) Construct(bricks map[string]Brick) Term {
 		wl.FT.FFT(field)
 	}
 }
+
+// OnStepFinished does nothing as we don't need any updates in between steps
+func (wl *WeightedLaplacian) OnStepFinished(t float64, bricks map[string]Brick) {}
-- 
2.43.0


From 6aec67ec2cdd4983c160d399bd399c9a5f84ae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 14/60] fix: restart every pixel position in Draw

In 2D the transformed third component of one pixel leaked into the next.
---
 pfutil/shapes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfutil/shapes.go b/pfutil/shapes.go
index d916d33..83ccf4a 100644
--- a/pfutil/shapes.go
+++ b/pfutil/shapes.go
@@ -110,6 +110,9 @@ func Draw(shape Shape, grid *Grid, transformation *Affine, value float64) {
 		for j := range pos {
 			floatPos[j] = float64(pos[j])
 		}
+		for j := dim; j < 3; j++ {
+			floatPos[j] = 0.0
+		}
 		transformation.Apply(floatPos)
 		if shape.InteriorPoint(floatPos[:dim]) {
 			grid.Data[i] = value
-- 
2.43.0


From 896cfab9f1ee02f70bdf524cf2d4b45982ac8cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:05 +0000
Subject: [PATCH 15/60] fix: RK4 evaluates the implicit coefficients of all
 equations on one state

---
 pf/rk4.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pf/rk4.go b/pf/rk4.go
index edb72f2..c7d75a1 100644
--- a/pf/rk4.go
+++ b/pf/rk4.go
@@ -42,23 +42,21 @@ func (rk *RK4) Step(m *Model) {
 		kFactor[i] = m.Fields[i].Copy()
 	}
 
-	rk.firstCorrection(m, kFactor)
+	denum := rk.firstCorrection(m, kFactor)
 	rk.PrepareNextCorrection(initial, final, kFactor, m, 1.0/6.0)
-	rk.correction(m, kFactor, 0.5)
+	rk.correction(m, kFactor, denum, 0.5)
 	rk.PrepareNextCorrection(initial, final, kFactor, m, 1.0/3.0)
-	rk.correction(m, kFactor, 0.5)
+	rk.correction(m, kFactor, denum, 0.5)
 	rk.PrepareNextCorrection(initial, final, kFactor, m, 1.0/3.0)
-	rk.correction(m, kFactor, 1.0)
+	rk.correction(m, kFactor, denum, 1.0)
 	rk.PrepareNextCorrection(initial, final, kFactor, m, 1.0/6.0)
 
 	// NOTE: If there are implicit terms, the scheme is only accurate to
 	// first order. But the stability of RK4 should be better than the Euler
 	// scheme
-	t := rk.GetTime()
 	for i := range m.Fields {
-		denum := m.GetDenum(i, rk.FT.Freq, t)
 		for j := range final[i].Data {
-			final[i].Data[j] /= (complex(1.0, 0.0) - cDt*denum[j])
+			final[i].Data[j] /= (complex(1.0, 0.0) - cDt*denum[i][j])
 		}
 		copy(m.Fields[i].Data, final[i].Data)
 
@@ -84,31 +82,34 @@ func (rk *RK4) PrepareNextCorrection(initial []Field, final []Field, kFactor []F
 	}
 }
 
-// Calculates the first correction factor
-func (rk *RK4) firstCorrection(m *Model, kFactor []Field) {
+// Calculates the first correction factor. The implicit coefficients of all
+// equations at the beginning of the time step are returned.
+func (rk *RK4) firstCorrection(m *Model, kFactor []Field) [][]complex128 {
 	for _, f := range m.DerivedFields {
 		rk.FT.FFT(f.Data)
 	}
 
 	t := rk.GetTime()
+	denum := make([][]complex128, len(m.Fields))
 	for i := range m.Fields {
 		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t)
+		denum[i] = m.GetDenum(i, rk.FT.Freq, t)
 	}
+	return denum
 }
 
 // correction calculates a general RK correction. If the equation is given by
 // dy/dt = A*y + N(t, y), this function returns N(t + factor*dt, (y + factor*kFactor)/(1 - factor*dt*A)).
 // In RK4 factor=0.5 for the middle steps and 1 for the last
-func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
+func (rk *RK4) correction(m *Model, kFactor []Field, denum [][]complex128, factor float64) {
 	t := rk.GetTime()
 	for i, f := range m.Fields {
-		denum := m.GetDenum(i, rk.FT.Freq, t)
 		for j := range f.Data {
 			f.Data[j] += complex(factor*rk.Dt, 0.0) * kFactor[i].Data[j]
 
 			// NOTE: We use backward scheme for the linear part. This leads to a
 			// first order accurate scheme
-			f.Data[j] /= (complex(1.0, 0.0) - complex(factor*rk.Dt, 0.0)*denum[j])
+			f.Data[j] /= (complex(1.0, 0.0) - complex(factor*rk.Dt, 0.0)*denum[i][j])
 		}
 		rk.FT.IFFT(f.Data)
 		pfutil.DivRealScalar(f.Data, float64(len(f.Data)))
-- 
2.43.0


From 41e870b9ad2cd8f47c0606a9b53372e089cf52a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:16 +0000
Subject: [PATCH 16/60] fix: SDD evaluates the implicit coefficients of all
 equations on one state

---
 pf/sdd.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pf/sdd.go b/pf/sdd.go
index 22f04b4..1f88ff9 100644
--- a/pf/sdd.go
+++ b/pf/sdd.go
@@ -203,6 +203,12 @@ func (sdd *SDD) Step(m *Model) {
 	sdd.Monitor.ForcePowerSpectrum = 0.0
 	cDt := complex(sdd.Dt, 0.0)
 
+	// Implicit coefficients of all equations at the center
+	denum := make([][]complex128, len(m.Fields))
+	for i := range m.Fields {
+		denum[i] = m.GetDenum(i, sdd.ft.Freq, sdd.GetTime())
+	}
+
 	for i := range m.Fields {
 		copy(origField, m.Fields[i].Data)
 		// Fill the work array with the weighted average of the field values
@@ -219,8 +225,7 @@ func (sdd *SDD) Step(m *Model) {
 		for j := range d {
 			d[j] = (d[j] + cDt*work[j])
 		}
-		work = m.GetDenum(i, sdd.ft.Freq, sdd.GetTime())
-		dsm := sdd.householderDenum(work, activeFtOrient, 2.0)
+		dsm := sdd.householderDenum(denum[i], activeFtOrient, 2.0)
 		dsm.dot(d)
 
 		for j := range d {
@@ -247,9 +252,8 @@ func (sdd *SDD) Step(m *Model) {
 	// F(k)*(x - alpha*l*v) - F(k)*(x + (1-alpha)*l*v) = -F(k)*v*l
 	outerIdx := 0
 	for i := range m.Fields {
-		denum := m.GetDenum(i, sdd.ft.Freq, sdd.GetTime())
-		for j := range denum {
-			torque[outerIdx] -= denum[j] * ftOrientation[outerIdx] * complex(l, 0.0)
+		for j := range denum[i] {
+			torque[outerIdx] -= denum[i][j] * ftOrientation[outerIdx] * complex(l, 0.0)
 			outerIdx++
 		}
 	}
-- 
2.43.0


From c5fc29b3efd724fefec72fb63a9875dba20a9772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:58 +0000
Subject: [PATCH 17/60] fix: let GetRHS and GetDenum use the equation of the
 field

---
 pf/model.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pf/model.go b/pf/model.go
index f25f5c0..e879830 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -279,34 +279,46 @@ func (m *Model) AllVariableNames() []string {
 	return names
 }
 
-// GetRHS evaluates the right hand side of one of the equations
+// eqNoOfField returns the number of the equation that evolves the passed field. Equations
+// can be added in a different order than the fields
+func (m *Model) eqNoOfField(fieldNo int) int {
+	for i, eq := range m.Equations {
+		if strings.HasPrefix(eq, "d"+m.Fields[fieldNo].Name+"/dt=") {
+			return i
+		}
+	}
+	return fieldNo
+}
+
+// GetRHS evaluates the right hand side of the equation of the passed field
 func (m *Model) GetRHS(fieldNo int, freq Frequency, t float64) []complex128 {
 	data := make([]complex128, len(m.Fields[fieldNo].Data))
 	tmp := make([]complex128, len(m.Fields[fieldNo].Data))
-	for _, f := range m.RHS[fieldNo].Terms {
+	eqNo := m.eqNoOfField(fieldNo)
+	for _, f := range m.RHS[eqNo].Terms {
 		f(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
 
-	for _, s := range m.AllSources[fieldNo] {
+	for _, s := range m.AllSources[eqNo] {
 		s.Eval(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
 
 	// Apply eventual modifiers
 	for i := range m.RHSModifiers {
-		if m.RHSModifiers[i].EqNo == fieldNo {
+		if m.RHSModifiers[i].EqNo == eqNo {
 			m.RHSModifiers[i].RHSModifier(data)
 		}
 	}
 	return data
 }
 
-// GetDenum evaluates the denuminator
+// GetDenum evaluates the denuminator of the equation of the passed field
 func (m *Model) GetDenum(fieldNo int, freq Frequency, t float64) []complex128 {
 	data := make([]complex128, len(m.Fields[fieldNo].Data))
 	tmp := make([]complex128, len(m.Fields[fieldNo].Data))
-	for _, f := range m.RHS[fieldNo].Denum {
+	for _, f := range m.RHS[m.eqNoOfField(fieldNo)].Denum {
 		f(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
-- 
2.43.0


From 5ecedbfe84e49540636451c92370e41a9cfe452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:58 +0000
Subject: [PATCH 18/60] fix: match whole factor names when parsing equation
 terms

---
 pf/rhsBuilder.go | 88 ++++++++++++++++++++++++++++++++++++++----------
 pf/util.go       |  9 ++---
 2 files changed, 76 insertions(+), 21 deletions(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 16b2ca8..2263747 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -44,7 +44,7 @@ func Build(eq string, m *Model) RHS {
 			rhs.Denum = append(rhs.Denum, constructFunc(m.MixedTerms[name].ConstructLinear(m.Bricks), prefixes))
 			rhs.Terms = append(rhs.Terms, constructFunc(m.MixedTerms[name].ConstructNonLinear(m.Bricks), prefixes))
 		} else if isBilinear(t.SubString, field, m.AllFieldNames()) {
-			t.SubString = strings.Replace(t.SubString, field, "", -1)
+			t.SubString = removeFactor(t.SubString, field)
 			rhs.Denum = append(rhs.Denum, ConcreteTerm(t, m))
 		} else {
 			rhs.Terms = append(rhs.Terms, ConcreteTerm(t, m))
@@ -65,8 +65,61 @@ func fieldNameFromLeibniz(leibniz string) string {
 	return leibniz[1 : len(leibniz)-3]
 }
 
+// termFactor is a factor in a term
+type termFactor struct {
+	Name string // Name of the quantity (e.g. conc)
+	Expr string // Name including the power (e.g. conc^2)
+}
+
+// splitFactors splits a term into its factors. Laplacian operators are not
+// included among the factors. Their total power is returned separately
+func splitFactors(term string) ([]termFactor, int) {
+	factors := []termFactor{}
+	lapPower := 0
+	lapReg := regexp.MustCompile("^LAP(\\^\\d+)?")
+	for _, expr := range strings.Split(strings.Replace(term, " ", "", -1), "*") {
+		lap := lapReg.FindString(expr)
+		if lap != "" {
+			lapPower += int(GetPower(lap))
+			expr = expr[len(lap):]
+		}
+		name := strings.Split(expr, "^")[0]
+		if name != "" {
+			factors = append(factors, termFactor{Name: name, Expr: expr})
+		}
+	}
+	return factors, lapPower
+}
+
+// removeFactor removes the factor with the passed name from a term
+func removeFactor(term string, name string) string {
+	splitted := strings.Split(term, "*")
+	for i := range splitted {
+		factors, _ := splitFactors(splitted[i])
+		if len(factors) == 1 && factors[0].Name == name {
+			splitted[i] = strings.TrimSuffix(splitted[i], factors[0].Expr)
+		}
+	}
+	return strings.Join(splitted, "*")
+}
+
+// isFactor returns true if one of the factors in the term is a power of the passed quantity
+func isFactor(term string, name string) bool {
+	factors, _ := splitFactors(term)
+	for _, f := range factors {
+		if f.Name == name {
+			return true
+		}
+	}
+	return false
+}
+
 // isBilinear checks if the term given is bilinear in the passed field
 func isBilinear(term string, field string, fieldNames []string) bool {
+	if !isFactor(term, field) {
+		return false
+	}
+
 	fieldReg := regexp.MustCompile(field)
 	resCount := fieldReg.FindAllStringIndex(term, -1)
 	if len(resCount) != 1 {
@@ -129,32 +182,33 @@ func ConcreteTerm(termDelim SubStringDelimiter, m *Model) Term {
 		sign = -1.0
 	}
 
-	fieldReg := regexp.MustCompile("[^\\*]*")
-	res := fieldReg.FindAllStringSubmatch(term, -1)
+	factors, lapPower := splitFactors(term)
 
 	brickNames := []string{}
 	powers := []float64{}
+	fieldFactors := []string{}
 
-	nameNoPow := regexp.MustCompile("^[^\\^]*")
-	for i := range res {
-		name := nameNoPow.FindString(res[i][0])
-
-		if !m.IsFieldName(name) && m.IsBrickName(name) {
-			brickNames = append(brickNames, name)
-			powers = append(powers, GetPower(res[i][0]))
-		} else if !ValidName(name, m) {
-			msg := fmt.Sprintf("rhsBuilder: Name %s is not defined!", name)
+	for _, f := range factors {
+		if m.IsFieldName(f.Name) {
+			fieldFactors = append(fieldFactors, f.Expr)
+		} else if m.IsBrickName(f.Name) {
+			brickNames = append(brickNames, f.Name)
+			powers = append(powers, GetPower(f.Expr))
+		} else {
+			msg := fmt.Sprintf("rhsBuilder: Name %s is not defined!", f.Name)
 			panic(msg)
 		}
 	}
 
-	fieldName := GetFieldName(SortFactors(term), m.AllFieldNames())
+	fieldName := SortFactors(strings.Join(fieldFactors, "*"))
+	if fieldName != "" && !m.IsFieldName(fieldName) {
+		msg := fmt.Sprintf("rhsBuilder: No field is registered for the product %s!", fieldName)
+		panic(msg)
+	}
 
-	if strings.Contains(term, "LAP") {
+	if lapPower > 0 {
 		// Term with Laplace operator
-		lapWithPowReg := regexp.MustCompile("LAP*[^a-zA-Z]*")
-		res := lapWithPowReg.FindString(term)
-		lap := LaplacianN{Power: int(GetPower(res))}
+		lap := LaplacianN{Power: lapPower}
 		return func(freq Frequency, t float64, field []complex128) {
 			for i := range field {
 				field[i] = complex(sign, 0.0)
diff --git a/pf/util.go b/pf/util.go
index 20af17b..4a30bd6 100644
--- a/pf/util.go
+++ b/pf/util.go
@@ -16,14 +16,15 @@ import (
 // that if the expression is bilinear in field, field is omitted from the returned expression
 func GetNonLinearFieldExpressions(pattern string, field string, fieldNames []string) string {
 	expr := ""
+	factors, _ := splitFactors(pattern)
 	for i := range fieldNames {
 		if fieldNames[i] == field && isBilinear(pattern, field, fieldNames) {
 			continue
 		}
-		regField := regexp.MustCompile(fieldNames[i] + "[^\\*]*")
-		res := regField.FindString(pattern)
-		if res != "" {
-			expr += res + "*"
+		for _, f := range factors {
+			if f.Name == fieldNames[i] {
+				expr += f.Expr + "*"
+			}
 		}
 	}
 
-- 
2.43.0


From c78ca82c0b397a0b7ec29255ce31e2851640c46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:21 +0000
Subject: [PATCH 19/60] fix: DivGrad drops the Nyquist component so real fields
 stay real

---
 pf/gradientCalculator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 7c76f6b..8aa3efa 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -99,6 +99,10 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 			brick := bricks[dg.FuncName()+dg.GradName(d)]
 			for i := range field {
 				f := freq(i)[d]
+				// The Nyquist frequency has no conjugate partner
+				if math.Abs(math.Abs(f)-0.5) < 1e-10 {
+					f = 0.0
+				}
 				field[i] += complex(0.0, 2.0*math.Pi*f) * brick.Get(i)
 			}
 		}
-- 
2.43.0


From d749cdd697e9cb60d14174cc50e0e5441599b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:03 +0000
Subject: [PATCH 20/60] fix: mixed derivatives of TensorialHessian vanish at
 the Nyquist frequency

---
 pf/tensorialHessian.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pf/tensorialHessian.go b/pf/tensorialHessian.go
index 188f575..f3303e7 100644
--- a/pf/tensorialHessian.go
+++ b/pf/tensorialHessian.go
@@ -50,9 +50,13 @@ func (th *TensorialHessian) Construct(bricks map[string]Brick) Term {
 				field[i] += complex(preFactor, 0.0)
 			}
 
-			// Off-diagonal terms
+			// Off-diagonal terms. They are odd in each of the two components, and
+			// thus vanish at the Nyquist frequency
 			for j := 0; j < dim; j++ {
 				for k := j + 1; k < dim; k++ {
+					if math.Abs(math.Abs(f[j])-0.5) < 1e-10 || math.Abs(math.Abs(f[k])-0.5) < 1e-10 {
+						continue
+					}
 					preFactor := -8.0 * math.Pi * math.Pi * f[j] * f[k] * th.GetCoeff(j, k)
 					field[i] += complex(preFactor, 0.0)
 				}
-- 
2.43.0


From 42c64d14e346311bcbef8dab2f3ad05e5e4488b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:03 +0000
Subject: [PATCH 21/60] fix: elastic driving force of a real field is real at
 the Nyquist frequency

---
 pf/homoLinElast.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pf/homoLinElast.go b/pf/homoLinElast.go
index 02c90ae..1d4d04f 100644
--- a/pf/homoLinElast.go
+++ b/pf/homoLinElast.go
@@ -1,6 +1,8 @@
 package pf
 
 import (
+	"math"
+
 	"github.com/davidkleiven/gopf/elasticity"
 	"github.com/davidkleiven/gopf/pfutil"
 	"gonum.org/v1/gonum/mat"
@@ -99,14 +101,17 @@ func (h *HomogeneousModulusLinElast) Construct(bricks map[string]Brick) Term {
 }
 
 // Freq wraps the passed frequency method such that the length of the returned frequency
-// is always 3
+// is always 3. Components at the Nyquist frequency have no conjugate partner and are
+// set to zero, otherwise the strains of a real field would not be real
 func (h *HomogeneousModulusLinElast) Freq(i int) []float64 {
-	if h.Dim == 3 {
-		return h.FT.Freq(i)
-	}
 	res := make([]float64, 3)
 	f := h.FT.Freq(i)
 	copy(res[:h.Dim], f)
+	for d := range res {
+		if math.Abs(math.Abs(res[d])-0.5) < 1e-10 {
+			res[d] = 0.0
+		}
+	}
 	return res
 }
 
-- 
2.43.0


From bd687a55dcb15149df711a822e966efc4c866147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:59 +0000
Subject: [PATCH 22/60] fix: report failed statements when tables, simulation
 IDs and comments are written

---
 pf/database.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 160a9d9..50747cb 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -86,13 +86,17 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare("CREATE TABLE IF NOT EXISTS positions (id INTEGER PRIMARY KEY, X INTEGER, Y INTEGER, Z INTEGER)")
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS fields (id INTEGER PRIMARY KEY, name TEXT, " +
@@ -103,14 +107,18 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS simAttributes (key TEXT, value REAL, simID INTEGER, FOREIGN KEY(simID) REFERENCES fields(simID))")
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS comments (simID INTEGER, value TEXT, " +
@@ -119,7 +127,9 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS simTextAttributes (key TEXT, value TEXT, " +
@@ -128,7 +138,9 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS timeseries (key TEXT, value REAL, " +
@@ -137,7 +149,9 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	if fdb.simID == 0 {
 		source := rand.NewSource(time.Now().UnixNano())
@@ -149,7 +163,9 @@ func (fdb *FieldDB) initialize() {
 		if err != nil {
 			panic(err)
 		}
-		statement.Exec(fdb.simID)
+		if _, err = statement.Exec(fdb.simID); err != nil {
+			panic(err)
+		}
 	}
 
 	fdb.initialized = true
@@ -253,7 +269,9 @@ func (fdb *FieldDB) Comment(comment string) {
 		log.Fatal(err)
 		return
 	}
-	statement.Exec(fdb.simID, comment)
+	if _, err = statement.Exec(fdb.simID, comment); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // SetAttr adds a set of key-value pairs associated with the current simID
-- 
2.43.0


From e7f7f38cba0ed352dd51754ca7edad8022862e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:03 +0000
Subject: [PATCH 23/60] fix: report transactions that cannot be started or
 committed

---
 pf/database.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 50747cb..3ea3572 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -200,16 +200,18 @@ func (fdb *FieldDB) populatePositionsTable() {
 
 		if err != nil {
 			tx.Rollback()
-			return
+			panic(err)
 		}
 		_, err = statement.Exec(pos3[0], pos3[1], pos3[2])
 
 		if err != nil {
 			tx.Rollback()
-			return
+			panic(err)
 		}
 	}
-	tx.Commit()
+	if err := tx.Commit(); err != nil {
+		panic(err)
+	}
 }
 
 // insertRealPart inserts the real part of a set of field values into the database
@@ -221,7 +223,11 @@ func (fdb *FieldDB) insertRealPart(name string, timestep int, values []complex12
 	if len(values) != pfutil.ProdInt(fdb.DomainSize) {
 		panic("FieldDB: The passed array does not match the specified domain size")
 	}
-	tx, _ := fdb.DB.Begin()
+	tx, err := fdb.DB.Begin()
+	if err != nil {
+		log.Fatal(err)
+		return
+	}
 	for i := range values {
 		statement, err := tx.Prepare("INSERT INTO fields (name, value, positionId, timestep, simID) VALUES (?, ?, ?, ?, ?)")
 
@@ -239,7 +245,9 @@ func (fdb *FieldDB) insertRealPart(name string, timestep int, values []complex12
 			return
 		}
 	}
-	tx.Commit()
+	if err := tx.Commit(); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // SaveFields stores all the field to the database. This function satisfies the
@@ -300,7 +308,9 @@ func (fdb *FieldDB) SetAttr(attr map[string]float64) {
 			return
 		}
 	}
-	tx.Commit()
+	if err := tx.Commit(); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // SetTextAttr sets text attributes associated with the current simulation
@@ -329,7 +339,9 @@ func (fdb *FieldDB) SetTextAttr(attr map[string]string) {
 			return
 		}
 	}
-	tx.Commit()
+	if err := tx.Commit(); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // TimeSeries inserts data into the timeseries table
@@ -357,7 +369,9 @@ func (fdb *FieldDB) TimeSeries(data map[string]float64, timestep int) {
 			return
 		}
 	}
-	tx.Commit()
+	if err := tx.Commit(); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // domainSizeOk returns true if the domain size stored locally matches the one
-- 
2.43.0


From 6ecab185715391e14299e26b0dcf05d08cf2bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:09 +0000
Subject: [PATCH 24/60] fix: report failed reads from the field database

---
 pf/database.go | 55 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 3ea3572..50a063a 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -179,7 +179,12 @@ func (fdb *FieldDB) positionTableIsPopulated() bool {
 	}
 	var numRows int
 	for result.Next() {
-		result.Scan(&numRows)
+		if err := result.Scan(&numRows); err != nil {
+			panic(err)
+		}
+	}
+	if err := result.Err(); err != nil {
+		panic(err)
 	}
 	return numRows > 1
 }
@@ -391,11 +396,17 @@ func (fdb *FieldDB) domainSizeOk() bool {
 			return false
 		}
 
-		var maxval int
+		// The maximum is NULL if there are no positions
+		var maxval sql.NullInt64
 		for rows.Next() {
-			rows.Scan(&maxval)
+			if err := rows.Scan(&maxval); err != nil {
+				log.Fatal(err)
+			}
 		}
-		if maxval != fdb.DomainSize[i]-1 {
+		if err := rows.Err(); err != nil {
+			log.Fatal(err)
+		}
+		if int(maxval.Int64) != fdb.DomainSize[i]-1 {
 			return false
 		}
 	}
@@ -414,9 +425,14 @@ func (fdb *FieldDB) Load(simID int, timestep int) []Field {
 	}
 	var name string
 	for rows.Next() {
-		rows.Scan(&name)
+		if err := rows.Scan(&name); err != nil {
+			panic(err)
+		}
 		fieldNames = append(fieldNames, name)
 	}
+	if err := rows.Err(); err != nil {
+		panic(err)
+	}
 
 	var numNodes int
 	rows, err = fdb.DB.Query("SELECT COUNT(*) FROM positions")
@@ -424,7 +440,12 @@ func (fdb *FieldDB) Load(simID int, timestep int) []Field {
 		panic(err)
 	}
 	for rows.Next() {
-		rows.Scan(&numNodes)
+		if err := rows.Scan(&numNodes); err != nil {
+			panic(err)
+		}
+	}
+	if err := rows.Err(); err != nil {
+		panic(err)
 	}
 	fields := make(map[string]Field)
 	for _, key := range fieldNames {
@@ -433,12 +454,20 @@ func (fdb *FieldDB) Load(simID int, timestep int) []Field {
 
 	rows, err = fdb.DB.Query("SELECT name, value, positionId FROM fields "+
 		"WHERE simID=? AND timestep=?", simID, timestep)
+	if err != nil {
+		panic(err)
+	}
 	var value float64
 	var positionID int
 	for rows.Next() {
-		rows.Scan(&name, &value, &positionID)
+		if err := rows.Scan(&name, &value, &positionID); err != nil {
+			panic(err)
+		}
 		fields[name].Data[positionID] = complex(value, 0.0)
 	}
+	if err := rows.Err(); err != nil {
+		panic(err)
+	}
 
 	fieldArray := make([]Field, len(fieldNames))
 	for i, fieldName := range fieldNames {
@@ -454,9 +483,15 @@ func (fdb *FieldDB) LoadLast(simID int) []Field {
 	if err != nil {
 		panic(err)
 	}
-	var maxTs int
+	// The maximum is NULL if nothing is stored for the simulation
+	var maxTs sql.NullInt64
 	for rows.Next() {
-		rows.Scan(&maxTs)
+		if err := rows.Scan(&maxTs); err != nil {
+			panic(err)
+		}
+	}
+	if err := rows.Err(); err != nil {
+		panic(err)
 	}
-	return fdb.Load(simID, maxTs)
+	return fdb.Load(simID, int(maxTs.Int64))
 }
-- 
2.43.0


From 59163db44b252c3cb1c82eae9dd24ebce8687493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 25/60] fix: store the node number as the ID of a position, as
 the fields table refers to it

---
 pf/database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 50a063a..b0b7aea 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -201,13 +201,13 @@ func (fdb *FieldDB) populatePositionsTable() {
 	for i := 0; i < numNodes; i++ {
 		pos := pfutil.Pos(fdb.DomainSize, i)
 		copy(pos3, pos)
-		statement, err := tx.Prepare("INSERT INTO positions (X, Y, Z) VALUES (?, ?, ?)")
+		statement, err := tx.Prepare("INSERT INTO positions (id, X, Y, Z) VALUES (?, ?, ?, ?)")
 
 		if err != nil {
 			tx.Rollback()
 			panic(err)
 		}
-		_, err = statement.Exec(pos3[0], pos3[1], pos3[2])
+		_, err = statement.Exec(i, pos3[0], pos3[1], pos3[2])
 
 		if err != nil {
 			tx.Rollback()
-- 
2.43.0


From 221a0d2bfedf4ccfe595ee9122e2e3fd9cdffaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:18 +0000
Subject: [PATCH 26/60] fix: do not fill the positions table again for a domain
 with one node

---
 pf/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/database.go b/pf/database.go
index b0b7aea..4f448db 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -186,7 +186,7 @@ func (fdb *FieldDB) positionTableIsPopulated() bool {
 	if err := result.Err(); err != nil {
 		panic(err)
 	}
-	return numRows > 1
+	return numRows > 0
 }
 
 // populatePositionTables inserts values into the position table
-- 
2.43.0


From 4ead367298a4dff9b1fcff8f87103722d15b9f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 27/60] fix: show the value of a single text attribute

---
 cmd/attr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index 3a21063..73ebe77 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -221,7 +221,7 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 
 	var txtValue string
 	for rows.Next() {
-		rows.Scan(&value, &simID)
+		rows.Scan(&txtValue, &simID)
 		fmt.Printf("Sim id %-10d %-20s = %12s\n", simID, name, txtValue)
 	}
 }
-- 
2.43.0


From fbefb9e948b1c76cbd084d869f8f3767814a14c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:23 +0000
Subject: [PATCH 28/60] fix: do not list the comment of another simulation

---
 cmd/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/list.go b/cmd/list.go
index 75e0061..8793175 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -124,8 +124,8 @@ func showComments(db *sql.DB, max int) {
 	}
 
 	sql = "SELECT value from comments WHERE simID=?"
-	var comment string
 	for _, v := range simIds {
+		var comment string
 		rows, err = db.Query(sql, v)
 		if err != nil {
 			fmt.Printf("%s\n", err)
-- 
2.43.0


From b4d7082a8ed3c66fca44f0ec76b600fa653c6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 29/60] fix: comment uses the newest simulation when no ID is
 given, as documented

---
 cmd/comment.go | 44 +-------------------------------------------
 cmd/util.go    | 14 --------------
 2 files changed, 1 insertion(+), 57 deletions(-)

diff --git a/cmd/comment.go b/cmd/comment.go
index 306d6f0..8e3b877 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -3,7 +3,6 @@ package cmd
 import (
 	"database/sql"
 	"fmt"
-	"log"
 
 	"github.com/spf13/cobra"
 )
@@ -52,8 +51,7 @@ is used.
 		}
 
 		if simid < 0 {
-			printAllComments(sqlDB)
-			return
+			simid = newestSimulationID(sqlDB)
 		}
 
 		if newMsg != "" {
@@ -80,46 +78,6 @@ is used.
 	},
 }
 
-func printAllComments(db *sql.DB) {
-	rows, err := db.Query("SELECT simId, value FROM comments")
-	if err != nil {
-		log.Fatalf("%s\n", err)
-		return
-	}
-
-	header := fmt.Sprintf("| %-*s | %-*s |", SimIDWidth, "Sim ID.", CommentWidth, "Comment")
-	width := len(header)
-	fmt.Printf("%s\n", singleLine(width))
-	fmt.Printf("%s\n", header)
-	fmt.Printf("%s\n", singleLine(width))
-
-	var simID int
-	var comment string
-	for rows.Next() {
-		rows.Scan(&simID, &comment)
-
-		numLines := len(comment)/CommentWidth + 1
-		var currentComment string
-		start := 0
-		for lineNum := 0; lineNum < numLines; lineNum++ {
-			idString := " "
-			if lineNum == 0 {
-				idString = fmt.Sprintf("%d", simID)
-			}
-
-			if start+CommentWidth > len(comment) {
-				currentComment = comment[start:]
-			} else {
-				end := closestWhiteSpace(comment, start+CommentWidth)
-				currentComment = comment[start:end]
-				start = end + 1
-			}
-			fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, currentComment)
-		}
-	}
-	fmt.Printf("%s\n", singleLine(width))
-}
-
 func init() {
 	dbCmd.AddCommand(commentCmd)
 	commentCmd.Flags().IntP("simid", "i", -1, "Simulation ID. If negative, the last simulation will be shown.")
diff --git a/cmd/util.go b/cmd/util.go
index cf503fb..c1ebb5c 100644
--- a/cmd/util.go
+++ b/cmd/util.go
@@ -14,9 +14,6 @@ const ColWidth = 10
 // MaxCols is the maximum number number of columns per line
 const MaxCols = 10
 
-// CommentWidth is the width of the comments field
-const CommentWidth = 96
-
 // singleLine produce a line with "-"
 func singleLine(length int) string {
 	singleLine := ""
@@ -40,14 +37,3 @@ func newestSimulationID(db *sql.DB) int {
 	}
 	return simID
 }
-
-// closestWhiteSpace returns the position of the first white space
-// to the left of target
-func closestWhiteSpace(line string, target int) int {
-	for i := target; i >= 0; i-- {
-		if line[i] == ' ' {
-			return i
-		}
-	}
-	return 0
-}
-- 
2.43.0


From 2a15557ecb1a10f6895aee086db1913442f80d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 30/60] fix: the database commands report failed reads and
 updates

---
 cmd/attr.go    | 50 ++++++++++++++++++++++---
 cmd/comment.go | 14 ++++++-
 cmd/export.go  | 99 +++++++++++++++++++++++++++++++++++++++++++-------
 cmd/info.go    | 77 ++++++++++++++++++++++++++++++++++-----
 cmd/list.go    | 53 ++++++++++++++++++++++++---
 cmd/time.go    | 14 ++++++-
 cmd/util.go    | 13 +++++--
 7 files changed, 281 insertions(+), 39 deletions(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index 73ebe77..2441769 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -94,9 +94,16 @@ func listUniqueAttributes(db *sql.DB) {
 	fmt.Printf("Unique attribute names:\n")
 	var key string
 	for rows.Next() {
-		rows.Scan(&key)
+		if err := rows.Scan(&key); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 		fmt.Printf("%s\n", key)
 	}
+	if err := rows.Err(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 }
 
 // listAttributes lists the attributes. If simulationID is greater than 0, only attributes
@@ -129,13 +136,20 @@ func listAttributes(db *sql.DB, simulationID int) {
 	var value float64
 	var simID int
 	for rows.Next() {
-		rows.Scan(&key, &value, &simID)
+		if err := rows.Scan(&key, &value, &simID); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 		if _, ok := kvp[simID]; !ok {
 			kvp[simID] = make(map[string]string)
 		}
 		kvp[simID][key] = fmt.Sprintf("%f", value)
 		header[key] = true
 	}
+	if err := rows.Err(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 
 	// Go through the text attributes
 	var txtVal string
@@ -152,13 +166,20 @@ func listAttributes(db *sql.DB, simulationID int) {
 	}
 
 	for rows.Next() {
-		rows.Scan(&key, &txtVal, &simID)
+		if err := rows.Scan(&key, &txtVal, &simID); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 		header[key] = true
 		if _, ok := kvp[simID]; !ok {
 			kvp[simID] = make(map[string]string)
 		}
 		kvp[simID][key] = txtVal
 	}
+	if err := rows.Err(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 
 	headerKeys := set2slice(header)
 	for tableIdx := 0; tableIdx <= len(headerKeys)/MaxCols; tableIdx++ {
@@ -209,9 +230,16 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 	var value float64
 	var simID int
 	for rows.Next() {
-		rows.Scan(&value, &simID)
+		if err := rows.Scan(&value, &simID); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 		fmt.Printf("Sim id %-10d %-20s = %6.6f\n", simID, name, value)
 	}
+	if err := rows.Err(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 
 	if simulationID > 0 {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=? AND simId=?", name, simulationID)
@@ -219,11 +247,23 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=?", name)
 	}
 
+	if err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
+
 	var txtValue string
 	for rows.Next() {
-		rows.Scan(&txtValue, &simID)
+		if err := rows.Scan(&txtValue, &simID); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 		fmt.Printf("Sim id %-10d %-20s = %12s\n", simID, name, txtValue)
 	}
+	if err := rows.Err(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 }
 
 func set2slice(set map[string]bool) []string {
diff --git a/cmd/comment.go b/cmd/comment.go
index 8e3b877..4f863a6 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -60,7 +60,10 @@ is used.
 				fmt.Printf("%s\n", err)
 				return
 			}
-			statement.Exec(newMsg, simid)
+			if _, err = statement.Exec(newMsg, simid); err != nil {
+				fmt.Printf("%s\n", err)
+				return
+			}
 			fmt.Printf("Comment of id %d was successfully updated\n", simid)
 		} else {
 			rows, err := sqlDB.Query("SELECT value FROM comments WHERE simId=?", simid)
@@ -70,7 +73,14 @@ is used.
 			}
 			var comment string
 			for rows.Next() {
-				rows.Scan(&comment)
+				if err := rows.Scan(&comment); err != nil {
+					fmt.Printf("%s\n", err)
+					return
+				}
+			}
+			if err := rows.Err(); err != nil {
+				fmt.Printf("%s\n", err)
+				return
 			}
 			fmt.Printf("Sim id %d:\n%s\n", simid, comment)
 		}
diff --git a/cmd/export.go b/cmd/export.go
index 65e9dd1..f689ec9 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -130,9 +130,16 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 	keys := []string{}
 	var key string
 	for rows.Next() {
-		rows.Scan(&key)
+		if err := rows.Scan(&key); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 		keys = append(keys, key)
 	}
+	if err := rows.Err(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 
 	// Extract maximum number timestep
 	rows, err = db.Query("SELECT MAX(timestep) FROM timeseries WHERE simId=?", simid)
@@ -141,12 +148,20 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 		return
 	}
 
-	var maxStep int
+	// The maximum is NULL if there are no entries
+	var maxStep sql.NullInt64
 	for rows.Next() {
-		rows.Scan(&maxStep)
+		if err := rows.Scan(&maxStep); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
+	}
+	if err := rows.Err(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
 	}
 
-	dataArray := make([]map[string]float64, maxStep+1)
+	dataArray := make([]map[string]float64, maxStep.Int64+1)
 	for i := range dataArray {
 		dataArray[i] = make(map[string]float64)
 	}
@@ -160,9 +175,16 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 	var value float64
 
 	for rows.Next() {
-		rows.Scan(&key, &value, &timestep)
+		if err := rows.Scan(&key, &value, &timestep); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 		dataArray[timestep][key] = value
 	}
+	if err := rows.Err(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 
 	out, err := os.Create(outfile)
 	if err != nil {
@@ -190,9 +212,20 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 		log.Printf("Negative timestep provided. Exporting data for the largest timestep instead (=%d)\n", ts)
 	}
 	rows, err := db.Query("SELECT COUNT (*) FROM fields WHERE simId=? AND timestep=?", simid, ts)
+	if err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 	var numRows int
 	for rows.Next() {
-		rows.Scan(&numRows)
+		if err := rows.Scan(&numRows); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
+	}
+	if err := rows.Err(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
 	}
 	if numRows == 0 {
 		fmt.Printf("No entries in DB for id: %d and timestep %d\n", simid, ts)
@@ -207,17 +240,35 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 	keys := []string{}
 	var key string
 	for rows.Next() {
-		rows.Scan(&key)
+		if err := rows.Scan(&key); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 		keys = append(keys, key)
 	}
+	if err := rows.Err(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 
 	positions := [][]int{}
 	rows, err = db.Query("SELECT X,Y,Z FROM positions ORDER BY id")
+	if err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 	var x, y, z int
 	for rows.Next() {
-		rows.Scan(&x, &y, &z)
+		if err := rows.Scan(&x, &y, &z); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 		positions = append(positions, []int{x, y, z})
 	}
+	if err := rows.Err(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 
 	data := make([]map[string]float64, len(positions))
 	for i := range data {
@@ -233,9 +284,16 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 	var value float64
 	var positionID int
 	for rows.Next() {
-		rows.Scan(&name, &value, &positionID)
+		if err := rows.Scan(&name, &value, &positionID); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 		data[positionID][name] = value
 	}
+	if err := rows.Err(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 
 	out, err := os.Create(outfile)
 	if err != nil {
@@ -272,11 +330,19 @@ func largestTimestep(db *sql.DB, simid int) int {
 		log.Fatalf("Could not determine maximum timestep: %s\n", err)
 		return 0
 	}
-	var maxts int
+	// The maximum is NULL if there are no entries
+	var maxts sql.NullInt64
 	for rows.Next() {
-		rows.Scan(&maxts)
+		if err := rows.Scan(&maxts); err != nil {
+			log.Fatalf("Could not determine maximum timestep: %s\n", err)
+			return 0
+		}
+	}
+	if err := rows.Err(); err != nil {
+		log.Fatalf("Could not determine maximum timestep: %s\n", err)
+		return 0
 	}
-	return maxts
+	return int(maxts.Int64)
 }
 
 func allTimeSteps(db *sql.DB, simid int) []int {
@@ -289,8 +355,15 @@ func allTimeSteps(db *sql.DB, simid int) []int {
 
 	var step int
 	for rows.Next() {
-		rows.Scan(&step)
+		if err := rows.Scan(&step); err != nil {
+			log.Fatalf("Could not select timesteps: %s\n", err)
+			return timesteps
+		}
 		timesteps = append(timesteps, step)
 	}
+	if err := rows.Err(); err != nil {
+		log.Fatalf("Could not select timesteps: %s\n", err)
+		return timesteps
+	}
 	return timesteps
 }
diff --git a/cmd/info.go b/cmd/info.go
index d92fddc..a6a20cb 100644
--- a/cmd/info.go
+++ b/cmd/info.go
@@ -60,7 +60,14 @@ the name of all timeseries that are tracked.
 		}
 		var numCalc int
 		for rows.Next() {
-			rows.Scan(&numCalc)
+			if err := rows.Scan(&numCalc); err != nil {
+				log.Fatalf("%s\n", err)
+				return
+			}
+		}
+		if err := rows.Err(); err != nil {
+			log.Fatalf("%s\n", err)
+			return
 		}
 
 		// Extract the names of the fields
@@ -72,19 +79,34 @@ the name of all timeseries that are tracked.
 		fields := []string{}
 		var fieldName string
 		for rows.Next() {
-			rows.Scan(&fieldName)
+			if err := rows.Scan(&fieldName); err != nil {
+				log.Fatalf("%s\n", err)
+				return
+			}
 			fields = append(fields, fieldName)
 		}
+		if err := rows.Err(); err != nil {
+			log.Fatalf("%s\n", err)
+			return
+		}
 
 		// Extract the dimension of the data
 		rows, err = db.Query("SELECT MAX(X) FROM positions")
-		var nx, ny, nz int
+		// The maximum is NULL if there are no positions
+		var nx, ny, nz sql.NullInt64
 		if err != nil {
 			log.Fatalf("%s\n", err)
 			return
 		}
 		for rows.Next() {
-			rows.Scan(&nx)
+			if err := rows.Scan(&nx); err != nil {
+				log.Fatalf("%s\n", err)
+				return
+			}
+		}
+		if err := rows.Err(); err != nil {
+			log.Fatalf("%s\n", err)
+			return
 		}
 
 		rows, err = db.Query("SELECT MAX(Y) FROM positions")
@@ -93,7 +115,14 @@ the name of all timeseries that are tracked.
 			return
 		}
 		for rows.Next() {
-			rows.Scan(&ny)
+			if err := rows.Scan(&ny); err != nil {
+				log.Fatalf("%s\n", err)
+				return
+			}
+		}
+		if err := rows.Err(); err != nil {
+			log.Fatalf("%s\n", err)
+			return
 		}
 
 		rows, err = db.Query("SELECT MAX(Z) FROM positions")
@@ -102,7 +131,14 @@ the name of all timeseries that are tracked.
 			return
 		}
 		for rows.Next() {
-			rows.Scan(&nz)
+			if err := rows.Scan(&nz); err != nil {
+				log.Fatalf("%s\n", err)
+				return
+			}
+		}
+		if err := rows.Err(); err != nil {
+			log.Fatalf("%s\n", err)
+			return
 		}
 
 		// Extract attributes
@@ -114,9 +150,16 @@ the name of all timeseries that are tracked.
 		attrs := []string{}
 		var attr string
 		for rows.Next() {
-			rows.Scan(&attr)
+			if err := rows.Scan(&attr); err != nil {
+				log.Fatalf("%s\n", err)
+				return
+			}
 			attrs = append(attrs, attr)
 		}
+		if err := rows.Err(); err != nil {
+			log.Fatalf("%s\n", err)
+			return
+		}
 
 		rows, err = db.Query("SELECT DISTINCT key FROM simTextAttributes")
 		if err != nil {
@@ -124,9 +167,16 @@ the name of all timeseries that are tracked.
 			return
 		}
 		for rows.Next() {
-			rows.Scan(&attr)
+			if err := rows.Scan(&attr); err != nil {
+				log.Fatalf("%s\n", err)
+				return
+			}
 			attrs = append(attrs, attr)
 		}
+		if err := rows.Err(); err != nil {
+			log.Fatalf("%s\n", err)
+			return
+		}
 
 		// Extract the timeseries
 		rows, err = db.Query("SELECT DISTINCT key FROM timeseries")
@@ -138,9 +188,16 @@ the name of all timeseries that are tracked.
 		var tname string
 		tnames := []string{}
 		for rows.Next() {
-			rows.Scan(&tname)
+			if err := rows.Scan(&tname); err != nil {
+				log.Fatalf("%s\n", err)
+				return
+			}
 			tnames = append(tnames, tname)
 		}
+		if err := rows.Err(); err != nil {
+			log.Fatalf("%s\n", err)
+			return
+		}
 
 		width := DescWidth + ValueWidth + 7
 		// Print the summary
@@ -148,7 +205,7 @@ the name of all timeseries that are tracked.
 		fmt.Printf("| %-*s | %-*s |\n", DescWidth, "Desc.", ValueWidth, "Value")
 		fmt.Printf("%s\n", singleLine(width))
 		fmt.Printf("| %-*s | %*d |\n", DescWidth, "Num calc.", ValueWidth, numCalc)
-		fmt.Printf("| %-*s | %*s |\n", DescWidth, "Dims", ValueWidth, dimString(nx+1, ny+1, nz+1))
+		fmt.Printf("| %-*s | %*s |\n", DescWidth, "Dims", ValueWidth, dimString(int(nx.Int64)+1, int(ny.Int64)+1, int(nz.Int64)+1))
 		printList("Fields", fields)
 		printList("Attributes", attrs)
 		printList("Timeseries", tnames)
diff --git a/cmd/list.go b/cmd/list.go
index 8793175..400692f 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -45,6 +45,10 @@ such that the newest entries appear first.
 		}
 
 		sqlDB, err := sql.Open("sqlite3", args[0])
+		if err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 
 		switch content {
 		case "simId", "simid", "id":
@@ -71,7 +75,14 @@ func showSimulationIds(db *sql.DB, max int) {
 	}
 	var numRows int
 	for rows.Next() {
-		rows.Scan(&numRows)
+		if err := rows.Scan(&numRows); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
+	}
+	if err := rows.Err(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
 	}
 	if max < numRows {
 		fmt.Printf("Showing %d of %d rows\n", max, numRows)
@@ -80,6 +91,10 @@ func showSimulationIds(db *sql.DB, max int) {
 	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC LIMIT "
 	sql += fmt.Sprintf("%d", max)
 	rows, err = db.Query(sql)
+	if err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 
 	fmt.Printf("-----------------------------------------------------------\n")
 	fmt.Printf("| Sim Id                  | Creation time                 |\n")
@@ -87,9 +102,16 @@ func showSimulationIds(db *sql.DB, max int) {
 	var simID int
 	var timestamp string
 	for rows.Next() {
-		rows.Scan(&simID, &timestamp)
+		if err := rows.Scan(&simID, &timestamp); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 		fmt.Printf("| %-23d | %-29s |\n", simID, timestamp)
 	}
+	if err := rows.Err(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 	fmt.Printf("-----------------------------------------------------------\n")
 }
 
@@ -101,7 +123,14 @@ func showComments(db *sql.DB, max int) {
 	}
 	var numRows int
 	for rows.Next() {
-		rows.Scan(&numRows)
+		if err := rows.Scan(&numRows); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
+	}
+	if err := rows.Err(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
 	}
 	if max < numRows {
 		fmt.Printf("Showing %d of %d rows\n", max, numRows)
@@ -119,9 +148,16 @@ func showComments(db *sql.DB, max int) {
 	var creationTime string
 
 	for rows.Next() {
-		rows.Scan(&simID, &creationTime)
+		if err := rows.Scan(&simID, &creationTime); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 		simIds = append(simIds, simID)
 	}
+	if err := rows.Err(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 
 	sql = "SELECT value from comments WHERE simID=?"
 	for _, v := range simIds {
@@ -132,7 +168,14 @@ func showComments(db *sql.DB, max int) {
 			return
 		}
 		for rows.Next() {
-			rows.Scan(&comment)
+			if err := rows.Scan(&comment); err != nil {
+				fmt.Printf("%s\n", err)
+				return
+			}
+		}
+		if err := rows.Err(); err != nil {
+			fmt.Printf("%s\n", err)
+			return
 		}
 
 		fmt.Printf("Sim Id %d:\n%s\n\n", v, comment)
diff --git a/cmd/time.go b/cmd/time.go
index eb8e67a..ee6e7ad 100644
--- a/cmd/time.go
+++ b/cmd/time.go
@@ -28,6 +28,7 @@ prints the creation time of the simulation with ID 456.
 		db, err := sql.Open("sqlite3", args[0])
 		if err != nil {
 			fmt.Printf("%s\n", err)
+			return
 		}
 		simid, err := cmd.Flags().GetInt("simid")
 		if err != nil {
@@ -39,9 +40,20 @@ prints the creation time of the simulation with ID 456.
 		}
 
 		rows, err := db.Query("SELECT creationTime FROM simIds WHERE simId=?", simid)
+		if err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 		var creationTime string
 		for rows.Next() {
-			rows.Scan(&creationTime)
+			if err := rows.Scan(&creationTime); err != nil {
+				fmt.Printf("%s\n", err)
+				return
+			}
+		}
+		if err := rows.Err(); err != nil {
+			fmt.Printf("%s\n", err)
+			return
 		}
 		fmt.Printf("Simulation %d was created at %s\n", simid, creationTime)
 	},
diff --git a/cmd/util.go b/cmd/util.go
index c1ebb5c..3a7fb18 100644
--- a/cmd/util.go
+++ b/cmd/util.go
@@ -2,7 +2,7 @@ package cmd
 
 import (
 	"database/sql"
-	"fmt"
+	"log"
 )
 
 // SimIDWidth is the width of the simulation ID field
@@ -27,13 +27,20 @@ func singleLine(length int) string {
 func newestSimulationID(db *sql.DB) int {
 	rows, err := db.Query("SELECT simId FROM simIds ORDER BY creationTime DESC LIMIT 1")
 	if err != nil {
-		fmt.Printf("%s\n", err)
+		log.Fatalf("Could not determine the newest simulation: %s\n", err)
 		return 0
 	}
 
 	var simID int
 	for rows.Next() {
-		rows.Scan(&simID)
+		if err := rows.Scan(&simID); err != nil {
+			log.Fatalf("Could not determine the newest simulation: %s\n", err)
+			return 0
+		}
+	}
+	if err := rows.Err(); err != nil {
+		log.Fatalf("Could not determine the newest simulation: %s\n", err)
+		return 0
 	}
 	return simID
 }
-- 
2.43.0


From 1316293e3f6a6150710d05388b3083c947279d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:17 +0000
Subject: [PATCH 31/60] fix: export accepts the data type used in its help

---
 cmd/export.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/export.go b/cmd/export.go
index f689ec9..e921d10 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -88,7 +88,7 @@ and have names dataset0.csv, dataset1.csv, dataset2.csv and so on.
 		switch ftype {
 		case "timeseries", "ts":
 			exportTimeseries(db, outfile, simid)
-		case "field", "fieldData", "fd":
+		case "field", "fieldData", "fielddata", "fd":
 			if all {
 				steps := allTimeSteps(db, simid)
 				for _, step := range steps {
-- 
2.43.0


From 9e7c596b3135e756e0519876831efe9ea5c89259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 32/60] fix: export the time step of time series, as documented

---
 cmd/export.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmd/export.go b/cmd/export.go
index e921d10..dcd4e38 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -195,11 +195,15 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 	writer := csv.NewWriter(out)
 	defer writer.Flush()
 
-	writer.Write(keys)
-	record := make([]string, len(keys))
-	for _, item := range dataArray {
+	header := make([]string, 1+len(keys))
+	header[0] = "timestep"
+	copy(header[1:], keys)
+	writer.Write(header)
+	record := make([]string, len(keys)+1)
+	for i, item := range dataArray {
+		record[0] = fmt.Sprintf("%d", i)
 		for j, k := range keys {
-			record[j] = fmt.Sprintf("%f", item[k])
+			record[1+j] = fmt.Sprintf("%f", item[k])
 		}
 		writer.Write(record)
 	}
-- 
2.43.0


From 909dfde77a37b81cf946e42aeddc38adf5e3e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:30 +0000
Subject: [PATCH 33/60] fix: export values with full precision

---
 cmd/export.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/export.go b/cmd/export.go
index dcd4e38..a125ef5 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"strconv"
 
 	"github.com/spf13/cobra"
 )
@@ -203,7 +204,7 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 	for i, item := range dataArray {
 		record[0] = fmt.Sprintf("%d", i)
 		for j, k := range keys {
-			record[1+j] = fmt.Sprintf("%f", item[k])
+			record[1+j] = strconv.FormatFloat(item[k], 'g', -1, 64)
 		}
 		writer.Write(record)
 	}
@@ -320,7 +321,7 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 			record[j] = fmt.Sprintf("%d", v)
 		}
 		for j, k := range keys {
-			record[3+j] = fmt.Sprintf("%f", item[k])
+			record[3+j] = strconv.FormatFloat(item[k], 'g', -1, 64)
 		}
 		writer.Write(record)
 	}
-- 
2.43.0


From 25bbff585293558b327fa249a256f56e7a7db8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 34/60] fix: report exports that could not be written

---
 cmd/export.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/export.go b/cmd/export.go
index a125ef5..1e74f8d 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -194,7 +194,6 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 	}
 	defer out.Close()
 	writer := csv.NewWriter(out)
-	defer writer.Flush()
 
 	header := make([]string, 1+len(keys))
 	header[0] = "timestep"
@@ -208,6 +207,11 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 		}
 		writer.Write(record)
 	}
+	writer.Flush()
+	if err := writer.Error(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 	fmt.Printf("Timeseries written to %s\n", outfile)
 }
 
@@ -307,7 +311,6 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 	}
 	defer out.Close()
 	writer := csv.NewWriter(out)
-	defer writer.Flush()
 
 	header := make([]string, 3+len(keys))
 	header[0] = "X"
@@ -325,6 +328,11 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 		}
 		writer.Write(record)
 	}
+	writer.Flush()
+	if err := writer.Error(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 	fmt.Printf("Field data written to %s\n", outfile)
 }
 
-- 
2.43.0


From af4593c361225df92eb8dfe9144a21108584b8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:42 +0000
Subject: [PATCH 35/60] fix: contour plots do not depend on the order of the
 rows

---
 cmd/contour.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/contour.go b/cmd/contour.go
index dc70504..a917f53 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -207,7 +207,7 @@ func (h HeatMapData) Y(r int) float64 {
 
 // Z returns the value of the field
 func (h HeatMapData) Z(c, r int) float64 {
-	return h.rows[index(c, r, h.Nx)].Value
+	return h.rows[h.index[index(c, r, h.Nx)]].Value
 }
 
 func getColIndex(header []string, column string) int {
-- 
2.43.0


From 3f31191f95aad276a323fff89473b0b8c79a7aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:48 +0000
Subject: [PATCH 36/60] fix: lineplot plots the fields that are selected

---
 cmd/lineplot.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/lineplot.go b/cmd/lineplot.go
index f195efd..8aca41f 100644
--- a/cmd/lineplot.go
+++ b/cmd/lineplot.go
@@ -93,16 +93,17 @@ To plot data along a line, at least two of -x, -y and -z must be specified.
 			return
 		}
 
-		fields, err := cmd.Flags().GetString("fields")
+		fields, err := cmd.Flags().GetString("data")
+		if err != nil {
+			log.Fatalf("Could not read the field names: %s\n", err)
+			return
+		}
 
 		var fieldArray []string
 		if fields == "" {
 			fieldArray = readHeader(fname)[3:]
 		} else {
-			splitted := strings.Split(fields, ",")
-			for i := 4; i < len(splitted); i++ {
-				fieldArray = append(fieldArray, splitted[i])
-			}
+			fieldArray = strings.Split(fields, ",")
 		}
 
 		plt := plot.New()
-- 
2.43.0


From 890a540e8cf09e71419c01d50bd18332e04d3187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:54 +0000
Subject: [PATCH 37/60] fix: report input files of the energy calculator that
 are not valid

---
 cmd/energy.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/energy.go b/cmd/energy.go
index 0cb9798..611e9db 100644
--- a/cmd/energy.go
+++ b/cmd/energy.go
@@ -35,7 +35,10 @@ passed via a JSON file. See gopf elast templatate for further information.
 		}
 
 		var params elasticity.StrainEnergyInput
-		json.Unmarshal(byteValue, &params)
+		if err := json.Unmarshal(byteValue, &params); err != nil {
+			log.Fatalf("%s\n", err)
+			return
+		}
 		energy := elasticity.CalculateStrainEnergy(params)
 		log.Printf("Elastic energy per volume inclusion: %f\n", energy)
 	},
-- 
2.43.0


From 6ac5c1af3a4d9dadb9421744a86a0f70eeaacacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:16 +0000
Subject: [PATCH 38/60] fix: contour plots are not upside down

---
 cmd/contour.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/contour.go b/cmd/contour.go
index a917f53..b35796d 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -327,7 +327,8 @@ func fillImage(data HeatMapData, cmap palette.ColorMap) *image.RGBA64 {
 				log.Fatalf("%s\n", err)
 				return img
 			}
-			img.Set(i, j, color)
+			// The first row of an image is at the top
+			img.Set(i, m-1-j, color)
 		}
 	}
 	return img
-- 
2.43.0


From baad1de2b274ed3e05a381dd63c93c6148f76f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:35 +0000
Subject: [PATCH 39/60] fix: write CSV values with all digits

SaveCsv wrote six decimals, so small values were lost when the file was loaded
---
 pf/fileIO.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/fileIO.go b/pf/fileIO.go
index df1c779..ac8837e 100644
--- a/pf/fileIO.go
+++ b/pf/fileIO.go
@@ -202,7 +202,7 @@ func SaveCsv(fname string, data []CsvData, domainSize []int) {
 			record[j] = fmt.Sprintf("%d", pos[j])
 		}
 		for j, f := range data {
-			record[j+3] = fmt.Sprintf("%f", f.Data.Get(i))
+			record[j+3] = strconv.FormatFloat(f.Data.Get(i), 'g', -1, 64)
 		}
 		writer.Write(record)
 	}
-- 
2.43.0


From bd2425f6d4b1e31de0832b5ce274279ddef421c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:42 +0000
Subject: [PATCH 40/60] fix: report when a CSV file could not be written

---
 pf/fileIO.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pf/fileIO.go b/pf/fileIO.go
index ac8837e..6007314 100644
--- a/pf/fileIO.go
+++ b/pf/fileIO.go
@@ -190,7 +190,6 @@ func SaveCsv(fname string, data []CsvData, domainSize []int) {
 	defer out.Close()
 
 	writer := csv.NewWriter(out)
-	defer writer.Flush()
 
 	writer.Write(header)
 	record := make([]string, len(header))
@@ -206,4 +205,8 @@ func SaveCsv(fname string, data []CsvData, domainSize []int) {
 		}
 		writer.Write(record)
 	}
+	writer.Flush()
+	if err := writer.Error(); err != nil {
+		log.Fatalf("Could not write to file: %s\n", err)
+	}
 }
-- 
2.43.0


From fcfa6eedbe3254f68ebe1815c551ae7291482545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:48 +0000
Subject: [PATCH 41/60] fix: report CSV values that are not numbers

LoadCSV replaced them by zero
---
 pf/fileIO.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pf/fileIO.go b/pf/fileIO.go
index 6007314..e9e75a0 100644
--- a/pf/fileIO.go
+++ b/pf/fileIO.go
@@ -144,7 +144,10 @@ func LoadCSV(fname string) []Field {
 		}
 
 		for i := 0; i < len(fields); i++ {
-			v, _ := strconv.ParseFloat(record[i+3], 64)
+			v, err := strconv.ParseFloat(record[i+3], 64)
+			if err != nil {
+				log.Fatalf("Could not convert string to float: %s\n", err)
+			}
 			fields[i].Data = append(fields[i].Data, complex(v, 0.0))
 		}
 	}
-- 
2.43.0


From 58f533ad04f19668c20a9b30cf2176b0154ab552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:54 +0000
Subject: [PATCH 42/60] fix: report failures when reading and writing binary
 files

---
 pf/fileIO.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pf/fileIO.go b/pf/fileIO.go
index e9e75a0..bd1d009 100644
--- a/pf/fileIO.go
+++ b/pf/fileIO.go
@@ -36,7 +36,9 @@ func (u *Uint8IO) SaveFields(s *Solver, epoch int) {
 		if err != nil {
 			panic(err)
 		}
-		binary.Write(out, binary.BigEndian, uint8Rep)
+		if err := binary.Write(out, binary.BigEndian, uint8Rep); err != nil {
+			panic(err)
+		}
 		out.Close()
 	}
 }
@@ -78,7 +80,9 @@ func LoadFloat64(fname string) []float64 {
 	bytes := make([]byte, size)
 
 	data := make([]float64, len(bytes)/8)
-	binary.Read(infile, binary.BigEndian, data)
+	if err := binary.Read(infile, binary.BigEndian, data); err != nil {
+		panic(err)
+	}
 	return data
 }
 
@@ -91,7 +95,9 @@ func SaveFloat64(fname string, data []float64) {
 		return
 	}
 	defer out.Close()
-	binary.Write(out, binary.BigEndian, data)
+	if err := binary.Write(out, binary.BigEndian, data); err != nil {
+		fmt.Printf("%s\n", err)
+	}
 }
 
 // CsvIO writes data to text csv text files
-- 
2.43.0


From c7fa039cf3bfb44e32ccbce549f0319811f6fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:00 +0000
Subject: [PATCH 43/60] fix: report when the XDMF file could not be written

---
 pf/xdmf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pf/xdmf.go b/pf/xdmf.go
index 76fa426..dc5b4a5 100644
--- a/pf/xdmf.go
+++ b/pf/xdmf.go
@@ -168,6 +168,8 @@ func WriteXDMF(xdmfFile string, fields []string, prefix string, num int, domainS
 	}
 	enc := xml.NewEncoder(writer)
 	enc.Indent("", "    ")
-	enc.Encode(CreateXDMF(fields, prefix, num, domainSize))
+	if err := enc.Encode(CreateXDMF(fields, prefix, num, domainSize)); err != nil {
+		panic(err)
+	}
 	writer.Close()
 }
-- 
2.43.0


From 730d58aa8a5de3395dab6c07b2de0271b38423a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:06 +0000
Subject: [PATCH 44/60] fix: XDMF dimensions of three dimensional domains

Dimensions are listed from the slowest to the fastest varying one. The nodes are
stored as z*nx*ny + x*ny + y, so domains with different sides were garbled
---
 pf/xdmf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/xdmf.go b/pf/xdmf.go
index dc5b4a5..0f8c9eb 100644
--- a/pf/xdmf.go
+++ b/pf/xdmf.go
@@ -88,7 +88,7 @@ func CreateXDMF(fieldNames []string, prefix string, num int, domainSize []int) X
 		dimensions = fmt.Sprintf("%d %d", domainSize[0], domainSize[1])
 		geoType = "ORIGIN_DXDY"
 	} else if len(domainSize) == 3 {
-		dimensions = fmt.Sprintf("%d %d %d", domainSize[0], domainSize[1], domainSize[2])
+		dimensions = fmt.Sprintf("%d %d %d", domainSize[2], domainSize[0], domainSize[1])
 		geoType = "ORIGIN_DXDYDZ"
 	} else {
 		panic("Length of domain size to be either 2 or 3")
-- 
2.43.0


From bdf5469aa5a83dc93b3c4b416b54ca5324b25fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 45/60] fix: XDMF time values

A hyperslab consists of the start, the stride and the count. All times were listed,
which is only the same thing for two steps
---
 pf/xdmf.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pf/xdmf.go b/pf/xdmf.go
index 0f8c9eb..0d373df 100644
--- a/pf/xdmf.go
+++ b/pf/xdmf.go
@@ -116,11 +116,8 @@ func CreateXDMF(fieldNames []string, prefix string, num int, domainSize []int) X
 		},
 	}
 
-	timeStr := ""
-	for i := 0; i < num; i++ {
-		timeStr += fmt.Sprintf("%f ", float64(i)/float64(num))
-	}
-	timeStr += fmt.Sprintf("%d", num)
+	// A hyperslab is given by the start, the stride and the number of values
+	timeStr := fmt.Sprintf("%f %f %d", 0.0, 1.0/float64(num), num)
 
 	xdmf.Domain.Grid = XDMFGrid{
 		Name:           "TimeSeries",
@@ -128,7 +125,7 @@ func CreateXDMF(fieldNames []string, prefix string, num int, domainSize []int) X
 		CollectionType: "Temporal",
 		Grids:          make([]XDMFGrid, num),
 		Time: &XDMFTime{Type: "HyperSlab",
-			DataItem: XDMFDataItem{Format: "XML", NumberType: "Float", Dimensions: fmt.Sprintf("%d", dim), Value: timeStr},
+			DataItem: XDMFDataItem{Format: "XML", NumberType: "Float", Dimensions: "3", Value: timeStr},
 		},
 	}
 
-- 
2.43.0


From 6b405780dd175b4b5110bd3b5970d5c73084c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:54 +0000
Subject: [PATCH 46/60] fix: write the values of a grid with all digits

---
 pfutil/grid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfutil/grid.go b/pfutil/grid.go
index 3baacd9..6789992 100644
--- a/pfutil/grid.go
+++ b/pfutil/grid.go
@@ -97,7 +97,7 @@ func (g Grid) SaveCsv(fname string) {
 			posString = append(posString, strconv.Itoa(pos[j]))
 		}
 		text := strings.Join(posString, ",")
-		text += fmt.Sprintf(",%f\n", g.Data[i])
+		text += "," + strconv.FormatFloat(g.Data[i], 'g', -1, 64) + "\n"
 		f.WriteString(text)
 	}
 }
-- 
2.43.0


From efbdfd797b456d2a8bf229a7dde96ae20bf2eefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 47/60] fix: report when a grid could not be written

---
 pfutil/grid.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pfutil/grid.go b/pfutil/grid.go
index 6789992..53886b6 100644
--- a/pfutil/grid.go
+++ b/pfutil/grid.go
@@ -81,6 +81,7 @@ func (g Grid) SaveCsv(fname string) {
 	f, err := os.Create(fname)
 	if err != nil {
 		fmt.Printf("%s\n", err)
+		return
 	}
 	defer f.Close()
 
@@ -89,7 +90,10 @@ func (g Grid) SaveCsv(fname string) {
 	if dim == 3 {
 		header = "x,y,z,value\n"
 	}
-	f.WriteString(header)
+	if _, err := f.WriteString(header); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 	for i := range g.Data {
 		pos := g.Pos(i)
 		posString := []string{}
@@ -98,7 +102,10 @@ func (g Grid) SaveCsv(fname string) {
 		}
 		text := strings.Join(posString, ",")
 		text += "," + strconv.FormatFloat(g.Data[i], 'g', -1, 64) + "\n"
-		f.WriteString(text)
+		if _, err := f.WriteString(text); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 	}
 }
 
-- 
2.43.0


From 9809ac5f50ed4c9549f13ed2c183b7d513fd015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 48/60] fix: simulation ID 0 selects one simulation in the
 attribute listing

---
 cmd/attr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index 2441769..e95c6fe 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -111,7 +111,7 @@ func listUniqueAttributes(db *sql.DB) {
 func listAttributes(db *sql.DB, simulationID int) {
 	var rows *sql.Rows
 	var err error
-	if simulationID > 0 {
+	if simulationID >= 0 {
 		rows, err = db.Query("SELECT key, value, simId FROM simAttributes WHERE simId=?", simulationID)
 	} else {
 		rows, err = db.Query("SELECT key, value, simId FROM simAttributes")
@@ -216,7 +216,7 @@ func listAttributes(db *sql.DB, simulationID int) {
 func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 	var rows *sql.Rows
 	var err error
-	if simulationID > 0 {
+	if simulationID >= 0 {
 		rows, err = db.Query("SELECT value, simId FROM simAttributes WHERE key=? AND simId=?", name, simulationID)
 	} else {
 		rows, err = db.Query("SELECT value, simId FROM simAttributes WHERE key=?", name)
@@ -241,7 +241,7 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 		return
 	}
 
-	if simulationID > 0 {
+	if simulationID >= 0 {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=? AND simId=?", name, simulationID)
 	} else {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=?", name)
-- 
2.43.0


From f540afd7223506c33cac7623d74b2a5e23407aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:59 +0000
Subject: [PATCH 49/60] fix: transpose the real space change in the change of
 the reciprocal cell

---
 pfc/lattice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfc/lattice.go b/pfc/lattice.go
index 60962bd..2ddb2ec 100644
--- a/pfc/lattice.go
+++ b/pfc/lattice.go
@@ -47,7 +47,7 @@ func (rc *ReciprocalCell) HKLVector(miller Miller) []float64 {
 func (rc *ReciprocalCell) CellChange(realSpaceChange *mat.Dense) *mat.Dense {
 	r, c := realSpaceChange.Dims()
 	change := mat.NewDense(r, c, nil)
-	change.Product(rc.CellVec, realSpaceChange, rc.CellVec)
+	change.Product(rc.CellVec, realSpaceChange.T(), rc.CellVec)
 	change.Scale(-1.0/(2.0*math.Pi), change)
 	return change
 }
-- 
2.43.0


From 37bdbb93f377bca5e7f8689c125942ad00a83c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:14 +0000
Subject: [PATCH 50/60] fix: SaveCsv checks the length of every column before
 the file is created

---
 pf/fileIO.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pf/fileIO.go b/pf/fileIO.go
index bd1d009..7351dd2 100644
--- a/pf/fileIO.go
+++ b/pf/fileIO.go
@@ -179,11 +179,12 @@ func SaveCsv(fname string, data []CsvData, domainSize []int) {
 		return
 	}
 
-	numNodes := data[0].Data.Len()
-
-	if pfutil.ProdInt(domainSize) != numNodes {
-		msg := fmt.Sprintf("Inconsistent domain size. Expected %d nodes, got %d\n", numNodes, pfutil.ProdInt(domainSize))
-		panic(msg)
+	numNodes := pfutil.ProdInt(domainSize)
+	for _, f := range data {
+		if f.Data.Len() != numNodes {
+			msg := fmt.Sprintf("Inconsistent domain size. Expected %d nodes, got %d\n", f.Data.Len(), numNodes)
+			panic(msg)
+		}
 	}
 
 	header := []string{"X", "Y", "Z"}
-- 
2.43.0


From a77016a1da5b3fc9a61e8b57e3457c972d75261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:28 +0000
Subject: [PATCH 51/60] fix: a database with more axes than the domain does not
 match it

---
 pf/database.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 4f448db..a59ee5f 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -388,7 +388,12 @@ func (fdb *FieldDB) domainSizeOk() bool {
 
 	columns := []string{"X", "Y", "Z"}
 
-	for i := 0; i < len(fdb.DomainSize); i++ {
+	for i := range columns {
+		// Axes that are not used have one position
+		size := 1
+		if i < len(fdb.DomainSize) {
+			size = fdb.DomainSize[i]
+		}
 		sqlStr := fmt.Sprintf("SELECT MAX(%s) FROM positions", columns[i])
 		rows, err := fdb.DB.Query(sqlStr)
 		if err != nil {
@@ -406,7 +411,7 @@ func (fdb *FieldDB) domainSizeOk() bool {
 		if err := rows.Err(); err != nil {
 			log.Fatal(err)
 		}
-		if int(maxval.Int64) != fdb.DomainSize[i]-1 {
+		if int(maxval.Int64) != size-1 {
 			return false
 		}
 	}
-- 
2.43.0


From 96db65bd431f1b127063b53279f5255df58a28fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:44 +0000
Subject: [PATCH 52/60] fix: the two phase correlation function leaves the
 passed concentration untouched

---
 pfc/twoPhaseCorrFunc.go | 150 ++++++++++++++++++++--------------------
 1 file changed, 76 insertions(+), 74 deletions(-)

diff --git a/pfc/twoPhaseCorrFunc.go b/pfc/twoPhaseCorrFunc.go
index 8a90840..1b03a40 100644
--- a/pfc/twoPhaseCorrFunc.go
+++ b/pfc/twoPhaseCorrFunc.go
@@ -1,75 +1,77 @@
-package pfc
-
-import (
-	"math"
-	"github.com/davidkleiven/gopf/pfutil"
-)
-
-// 3*x^2 - 2x^3
-func Indicator(x float64) float64 {
-	if x < 0.0 {
-		return 0.0
-	} else if x > 1{
-		return 1.0
-	} 
-	return 3 * x * x - 2 * x * x * x
-}
-
-func IndicatorDeriv(x float64) float64 {
-	if x < 0.0 || x > 1.0 {
-		return 0.0
-	}
-	return 6 * x - 6 * x * x
-}
-
-type TwoPhaseCorrFunc struct {
-	CorrFunc []ReciprocalSpacePairCorrelation
-}
-
-func Dot(x []float64, y []float64) float64 {
-	res := 0.0
-	for i := range x {
-		res += x[i]*y[i]
-	}
-	return res
-}
-
-func (tpcf *TwoPhaseCorrFunc) Evaluate(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
-	if len(tpcf.CorrFunc) != 2 {
-		panic("Length of CorrFunc must be 2\n")
-	}
-
-	// Calcualte real space correlation functions
-	corrFunc1FT := make([]complex128, len(cFT))
-	corrFunc2FT := make([]complex128, len(cFT))
-	twoPi := 2.0*math.Pi
-	for i := range corrFunc1FT {
-		freq := fft.Freq(i)
-		k := twoPi*math.Sqrt(Dot(freq, freq))
-		corrFunc1FT[i] = complex(tpcf.CorrFunc[0].Eval(k), 0.0)
-		corrFunc2FT[i] = complex(tpcf.CorrFunc[1].Eval(k), 0.0)
-	}
-
-	corrFunc1 := fft.IFFT(corrFunc1FT)
-	corrFunc2 := fft.IFFT(corrFunc2FT)
-	pfutil.DivRealScalar(corrFunc1, float64(len(corrFunc1)))
-	pfutil.DivRealScalar(corrFunc2, float64(len(corrFunc2)))
-
-	// Calculate real space concentration
-	conc := fft.IFFT(cFT)
-	pfutil.DivRealScalar(conc, float64(len(conc)))
-	
-	// C_eff = Indicator(conc)*CorrFunc1 + (1-Indicator(conc))*CorrFunc2
-	C_eff := corrFunc1FT // Overwrite corrFunc1FT
-	for i := range C_eff {
-		x := real(conc[i])
-		C_eff[i] = complex(Indicator(x), 0.0) * corrFunc1[i] + complex(1-Indicator(x), 0.0)*corrFunc2[i]
-	}
-	return C_eff
-}
-
-func (tpcf *TwoPhaseCorrFunc) EvaluateFT(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
-	Ceff := tpcf.Evaluate(cFT, fft)
-	fft.FFT(Ceff)
-	return Ceff
+package pfc
+
+import (
+	"math"
+	"github.com/davidkleiven/gopf/pfutil"
+)
+
+// 3*x^2 - 2x^3
+func Indicator(x float64) float64 {
+	if x < 0.0 {
+		return 0.0
+	} else if x > 1{
+		return 1.0
+	} 
+	return 3 * x * x - 2 * x * x * x
+}
+
+func IndicatorDeriv(x float64) float64 {
+	if x < 0.0 || x > 1.0 {
+		return 0.0
+	}
+	return 6 * x - 6 * x * x
+}
+
+type TwoPhaseCorrFunc struct {
+	CorrFunc []ReciprocalSpacePairCorrelation
+}
+
+func Dot(x []float64, y []float64) float64 {
+	res := 0.0
+	for i := range x {
+		res += x[i]*y[i]
+	}
+	return res
+}
+
+func (tpcf *TwoPhaseCorrFunc) Evaluate(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
+	if len(tpcf.CorrFunc) != 2 {
+		panic("Length of CorrFunc must be 2\n")
+	}
+
+	// Calcualte real space correlation functions
+	corrFunc1FT := make([]complex128, len(cFT))
+	corrFunc2FT := make([]complex128, len(cFT))
+	twoPi := 2.0*math.Pi
+	for i := range corrFunc1FT {
+		freq := fft.Freq(i)
+		k := twoPi*math.Sqrt(Dot(freq, freq))
+		corrFunc1FT[i] = complex(tpcf.CorrFunc[0].Eval(k), 0.0)
+		corrFunc2FT[i] = complex(tpcf.CorrFunc[1].Eval(k), 0.0)
+	}
+
+	corrFunc1 := fft.IFFT(corrFunc1FT)
+	corrFunc2 := fft.IFFT(corrFunc2FT)
+	pfutil.DivRealScalar(corrFunc1, float64(len(corrFunc1)))
+	pfutil.DivRealScalar(corrFunc2, float64(len(corrFunc2)))
+
+	// Calculate real space concentration
+	conc := make([]complex128, len(cFT))
+	copy(conc, cFT)
+	fft.IFFT(conc)
+	pfutil.DivRealScalar(conc, float64(len(conc)))
+	
+	// C_eff = Indicator(conc)*CorrFunc1 + (1-Indicator(conc))*CorrFunc2
+	C_eff := corrFunc1FT // Overwrite corrFunc1FT
+	for i := range C_eff {
+		x := real(conc[i])
+		C_eff[i] = complex(Indicator(x), 0.0) * corrFunc1[i] + complex(1-Indicator(x), 0.0)*corrFunc2[i]
+	}
+	return C_eff
+}
+
+func (tpcf *TwoPhaseCorrFunc) EvaluateFT(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
+	Ceff := tpcf.Evaluate(cFT, fft)
+	fft.FFT(Ceff)
+	return Ceff
 }
\ No newline at end of file
-- 
2.43.0


From a0f864e4f57eac4af95170882f9cd268a7e74e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:26 +0000
Subject: [PATCH 53/60] fix: the elastic energy leaves the passed indicator
 untouched

---
 elasticity/linearElasticity.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/elasticity/linearElasticity.go b/elasticity/linearElasticity.go
index 72f457e..c92276d 100644
--- a/elasticity/linearElasticity.go
+++ b/elasticity/linearElasticity.go
@@ -106,14 +106,16 @@ func HomogeneousModulusEnergy(indicator []complex128, domainSize []int, misfit *
 
 	effForce := NewEffectiveForceFromMisfit(matProp, misfit)
 	ft := pfutil.NewFFTW(domainSize)
-	ft.FFT(indicator)
+	ftIndicator := make([]complex128, len(indicator))
+	copy(ftIndicator, indicator)
+	ft.FFT(ftIndicator)
 	force := make([][]complex128, len(indicator))
 	for k := range force {
 		force[k] = make([]complex128, 3)
 	}
 
 	for comp := 0; comp < 3; comp++ {
-		fComp := effForce.Get(comp, ft.Freq, indicator)
+		fComp := effForce.Get(comp, ft.Freq, ftIndicator)
 		for k := range force {
 			force[k][comp] = fComp[k]
 		}
@@ -131,11 +133,6 @@ func HomogeneousModulusEnergy(indicator []complex128, domainSize []int, misfit *
 	}
 
 	disp := Displacements(force, freq, &matProp)
-	// Inservse FFT such that we can use it distinguish regions
-	ft.IFFT(indicator)
-	for i := range indicator {
-		indicator[i] /= complex(float64(len(indicator)), 0.0)
-	}
 
 	energy := 0.0
 	strains := make([]*mat.Dense, len(disp))
-- 
2.43.0


From db833c0a9429e418758ffe891ac9b337f576c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:44 +0000
Subject: [PATCH 54/60] fix: check the length of all fields before the first
 one is stored

---
 pf/database.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pf/database.go b/pf/database.go
index a59ee5f..837080f 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -258,6 +258,12 @@ func (fdb *FieldDB) insertRealPart(name string, timestep int, values []complex12
 // SaveFields stores all the field to the database. This function satisfies the
 // SolverCB type, and can thus be attached as a callback to a solver
 func (fdb *FieldDB) SaveFields(s *Solver, epoch int) {
+	for _, f := range s.Model.Fields {
+		if len(f.Data) != pfutil.ProdInt(fdb.DomainSize) {
+			panic("FieldDB: The length of field " + f.Name + " does not match the specified domain size")
+		}
+	}
+
 	if !fdb.initialized {
 		fdb.initialize()
 	}
-- 
2.43.0


From 01695cdcde3f237b23415558c33f9f98de8225cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:10 +0000
Subject: [PATCH 55/60] fix: keep the line endings of twoPhaseCorrFunc.go

---
 pfc/twoPhaseCorrFunc.go | 152 ++++++++++++++++++++--------------------
 1 file changed, 76 insertions(+), 76 deletions(-)

diff --git a/pfc/twoPhaseCorrFunc.go b/pfc/twoPhaseCorrFunc.go
index 1b03a40..c63e9b9 100644
--- a/pfc/twoPhaseCorrFunc.go
+++ b/pfc/twoPhaseCorrFunc.go
@@ -1,77 +1,77 @@
-package pfc
-
-import (
-	"math"
-	"github.com/davidkleiven/gopf/pfutil"
-)
-
-// 3*x^2 - 2x^3
-func Indicator(x float64) float64 {
-	if x < 0.0 {
-		return 0.0
-	} else if x > 1{
-		return 1.0
-	} 
-	return 3 * x * x - 2 * x * x * x
-}
-
-func IndicatorDeriv(x float64) float64 {
-	if x < 0.0 || x > 1.0 {
-		return 0.0
-	}
-	return 6 * x - 6 * x * x
-}
-
-type TwoPhaseCorrFunc struct {
-	CorrFunc []ReciprocalSpacePairCorrelation
-}
-
-func Dot(x []float64, y []float64) float64 {
-	res := 0.0
-	for i := range x {
-		res += x[i]*y[i]
-	}
-	return res
-}
-
-func (tpcf *TwoPhaseCorrFunc) Evaluate(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
-	if len(tpcf.CorrFunc) != 2 {
-		panic("Length of CorrFunc must be 2\n")
-	}
-
-	// Calcualte real space correlation functions
-	corrFunc1FT := make([]complex128, len(cFT))
-	corrFunc2FT := make([]complex128, len(cFT))
-	twoPi := 2.0*math.Pi
-	for i := range corrFunc1FT {
-		freq := fft.Freq(i)
-		k := twoPi*math.Sqrt(Dot(freq, freq))
-		corrFunc1FT[i] = complex(tpcf.CorrFunc[0].Eval(k), 0.0)
-		corrFunc2FT[i] = complex(tpcf.CorrFunc[1].Eval(k), 0.0)
-	}
-
-	corrFunc1 := fft.IFFT(corrFunc1FT)
-	corrFunc2 := fft.IFFT(corrFunc2FT)
-	pfutil.DivRealScalar(corrFunc1, float64(len(corrFunc1)))
-	pfutil.DivRealScalar(corrFunc2, float64(len(corrFunc2)))
-
-	// Calculate real space concentration
-	conc := make([]complex128, len(cFT))
-	copy(conc, cFT)
-	fft.IFFT(conc)
-	pfutil.DivRealScalar(conc, float64(len(conc)))
-	
-	// C_eff = Indicator(conc)*CorrFunc1 + (1-Indicator(conc))*CorrFunc2
-	C_eff := corrFunc1FT // Overwrite corrFunc1FT
-	for i := range C_eff {
-		x := real(conc[i])
-		C_eff[i] = complex(Indicator(x), 0.0) * corrFunc1[i] + complex(1-Indicator(x), 0.0)*corrFunc2[i]
-	}
-	return C_eff
-}
-
-func (tpcf *TwoPhaseCorrFunc) EvaluateFT(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
-	Ceff := tpcf.Evaluate(cFT, fft)
-	fft.FFT(Ceff)
-	return Ceff
+package pfc
+
+import (
+	"math"
+	"github.com/davidkleiven/gopf/pfutil"
+)
+
+// 3*x^2 - 2x^3
+func Indicator(x float64) float64 {
+	if x < 0.0 {
+		return 0.0
+	} else if x > 1{
+		return 1.0
+	} 
+	return 3 * x * x - 2 * x * x * x
+}
+
+func IndicatorDeriv(x float64) float64 {
+	if x < 0.0 || x > 1.0 {
+		return 0.0
+	}
+	return 6 * x - 6 * x * x
+}
+
+type TwoPhaseCorrFunc struct {
+	CorrFunc []ReciprocalSpacePairCorrelation
+}
+
+func Dot(x []float64, y []float64) float64 {
+	res := 0.0
+	for i := range x {
+		res += x[i]*y[i]
+	}
+	return res
+}
+
+func (tpcf *TwoPhaseCorrFunc) Evaluate(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
+	if len(tpcf.CorrFunc) != 2 {
+		panic("Length of CorrFunc must be 2\n")
+	}
+
+	// Calcualte real space correlation functions
+	corrFunc1FT := make([]complex128, len(cFT))
+	corrFunc2FT := make([]complex128, len(cFT))
+	twoPi := 2.0*math.Pi
+	for i := range corrFunc1FT {
+		freq := fft.Freq(i)
+		k := twoPi*math.Sqrt(Dot(freq, freq))
+		corrFunc1FT[i] = complex(tpcf.CorrFunc[0].Eval(k), 0.0)
+		corrFunc2FT[i] = complex(tpcf.CorrFunc[1].Eval(k), 0.0)
+	}
+
+	corrFunc1 := fft.IFFT(corrFunc1FT)
+	corrFunc2 := fft.IFFT(corrFunc2FT)
+	pfutil.DivRealScalar(corrFunc1, float64(len(corrFunc1)))
+	pfutil.DivRealScalar(corrFunc2, float64(len(corrFunc2)))
+
+	// Calculate real space concentration
+	conc := make([]complex128, len(cFT))
+	copy(conc, cFT)
+	fft.IFFT(conc)
+	pfutil.DivRealScalar(conc, float64(len(conc)))
+	
+	// C_eff = Indicator(conc)*CorrFunc1 + (1-Indicator(conc))*CorrFunc2
+	C_eff := corrFunc1FT // Overwrite corrFunc1FT
+	for i := range C_eff {
+		x := real(conc[i])
+		C_eff[i] = complex(Indicator(x), 0.0) * corrFunc1[i] + complex(1-Indicator(x), 0.0)*corrFunc2[i]
+	}
+	return C_eff
+}
+
+func (tpcf *TwoPhaseCorrFunc) EvaluateFT(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
+	Ceff := tpcf.Evaluate(cFT, fft)
+	fft.FFT(Ceff)
+	return Ceff
 }
\ No newline at end of file
-- 
2.43.0


From 1ae9cf5e32ad92a33edd9d271a7f1ad6a2999d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:19 +0000
Subject: [PATCH 56/60] fix: powers of a field with a one letter name were lost
 in terms with another leading factor

---
 pf/rhsBuilder.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 2263747..7a049f9 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -139,9 +139,14 @@ func isBilinear(term string, field string, fieldNames []string) bool {
 		}
 	}
 
-	// Match the field name until * or / is found
-	regIncludingPowers := regexp.MustCompile(field + "*[^/\\*]*")
-	res := regIncludingPowers.FindString(term)
+	// Find the factor (including its power) that is the field
+	res := ""
+	factors, _ := splitFactors(term)
+	for _, f := range factors {
+		if f.Name == field {
+			res = f.Expr
+		}
+	}
 
 	// Extract an power (if exists) (the number after ^)
 	regPower := regexp.MustCompile("\\^(-?\\d+\\.?\\d*)")
-- 
2.43.0


From 1dc7992e7ab0c4a38a4f55f8fe8668fd8124d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:42 +0000
Subject: [PATCH 57/60] fix: the second of two successive signs in an equation
 was dropped

---
 pf/rhsBuilder.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 7a049f9..3ef9f2a 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -30,7 +30,7 @@ func Build(eq string, m *Model) RHS {
 	}
 
 	field := fieldNameFromLeibniz(sides[0])
-	termsStr := SplitOnMany(sides[1], []string{"+", "-"})
+	termsStr := SplitOnMany(mergeSigns(sides[1]), []string{"+", "-"})
 	var rhs RHS
 	for _, t := range termsStr {
 		name := removeKnownPrefixes(t.SubString)
@@ -53,6 +53,24 @@ func Build(eq string, m *Model) RHS {
 	return rhs
 }
 
+// mergeSigns replaces successive signs by one (e.g. a + -b becomes a-b). A sign
+// inside a product can not be attributed to a term.
+func mergeSigns(expr string) string {
+	expr = strings.Replace(expr, " ", "", -1)
+	if strings.Contains(expr, "*-") || strings.Contains(expr, "*+") {
+		panic("build: a sign can only occur in front of a term")
+	}
+	merged := ""
+	for merged != expr {
+		merged = expr
+		expr = strings.Replace(expr, "++", "+", -1)
+		expr = strings.Replace(expr, "--", "+", -1)
+		expr = strings.Replace(expr, "+-", "-", -1)
+		expr = strings.Replace(expr, "-+", "-", -1)
+	}
+	return expr
+}
+
 // fieldNameFromLeibniz extracts a field name from a Leibniz formatted
 // differnetation operation (e.g dkappa/dt)
 func fieldNameFromLeibniz(leibniz string) string {
-- 
2.43.0


From dca0cf131bf899b90c4c09b6da63532f78eed6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:29 +0000
Subject: [PATCH 58/60] fix: field names were used as regular expressions when
 linear terms were recognised

---
 pf/rhsBuilder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 3ef9f2a..96b34d5 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -138,7 +138,7 @@ func isBilinear(term string, field string, fieldNames []string) bool {
 		return false
 	}
 
-	fieldReg := regexp.MustCompile(field)
+	fieldReg := regexp.MustCompile(regexp.QuoteMeta(field))
 	resCount := fieldReg.FindAllStringIndex(term, -1)
 	if len(resCount) != 1 {
 		return false
@@ -150,7 +150,7 @@ func isBilinear(term string, field string, fieldNames []string) bool {
 		if f == field {
 			continue
 		}
-		r := regexp.MustCompile(f)
+		r := regexp.MustCompile(regexp.QuoteMeta(f))
 		count := r.FindAllStringIndex(term, -1)
 		if len(count) > 0 {
 			return false
-- 
2.43.0


From 00bf6c4076a550a0ccb6ca001876c9b4f46a9942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:35 +0000
Subject: [PATCH 59/60] fix: report failures when the dimer log is written

---
 pf/sdd.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pf/sdd.go b/pf/sdd.go
index 1f88ff9..2abff70 100644
--- a/pf/sdd.go
+++ b/pf/sdd.go
@@ -66,7 +66,6 @@ func (sddm *SDDMonitor) Log(s *Solver, epoch int) {
 	size := stat.Size()
 	header := []string{"MaxForce", "MaxTorque", "ForcePowerSpect", "FieldNorm", "FieldNormChange"}
 	writer := csv.NewWriter(sddm.LogFile)
-	defer writer.Flush()
 
 	if size == 0 {
 		writer.Write(header)
@@ -80,6 +79,10 @@ func (sddm *SDDMonitor) Log(s *Solver, epoch int) {
 		fmt.Sprintf("%f", sddm.FieldNormChange),
 	}
 	writer.Write(record)
+	writer.Flush()
+	if err := writer.Error(); err != nil {
+		log.Fatalf("Could not write to log file: %s\n", err)
+	}
 }
 
 // SDD implements Shrinking-Dimer-Dynamics
-- 
2.43.0


From a6f1fe2a9a527a932e6684922c8a27ab52e1f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:35 +0000
Subject: [PATCH 60/60] fix: state the order in which the conductivity tensor
 is read

---
 pf/chargeTransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/chargeTransport.go b/pf/chargeTransport.go
index 89f5839..c20b4fb 100644
--- a/pf/chargeTransport.go
+++ b/pf/chargeTransport.go
@@ -32,7 +32,7 @@ import (
 // and r is the real space position vector. E_ext is the external electric field
 type ChargeTransport struct {
 	// Conductivity return the conductivity tensor at node i. If 3D
-	// the order should be s_xx, s_yy, s_zz, s_xz, s_yz, s_xy and if 2D
+	// the order should be s_xx, s_yy, s_zz, s_yz, s_xz, s_xy and if 2D
 	// it should be s_xx, s_yy, s_xy. The vacuum permittivity should be embeded
 	// in the conductivity. Thus, if the "normal" conductiviy in Ohm's law is
 	// labeled sigma, the current density is given by j = sigma*E, this function
-- 
2.43.0

