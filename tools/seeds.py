SEEDS = []
def seed(id, prop, pkg, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, needs=needs, breaks=breaks, demo=demo))

seed('c11-ideal-sqgrad-factor', 'C11', 'pf',
 [('pf/squareGradientTerm.go', '''work[i] = cmplx.Pow(work[i]/complex(float64(len(work)), 0.0), 2.0)''',
   '''work[i] = cmplx.Pow(work[i]*complex(s.Factor/float64(len(work)), 0.0), 2.0)'''),
  ('pf/squareGradientTerm.go', '''field[i] += work[i] * complex(s.Factor, 0.0)''', '''field[i] += work[i]''')],
 'a factor that is neither 0 nor 1 (the shipped tests use 1)',
 'the factor of a squared gradient enters squared',
 '''
package pf

import (
	"math/cmplx"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

func TestPlantedDemo(t *testing.T) {
	ft := pfutil.NewFFTW([]int{4, 4})
	eval := func(fac float64) []complex128 {
		f := NewField("c", 16, nil)
		for i := range f.Data {
			f.Data[i] = complex(float64(i*i%7), 0)
		}
		ft.FFT(f.Data)
		s := SquaredGradient{Field: "c", FT: ft, Factor: fac}
		out := make([]complex128, 16)
		s.Construct(map[string]Brick{"c": f})(ft.Freq, 0, out)
		return out
	}
	a, b := eval(1), eval(-3)
	for i := range a {
		if cmplx.Abs(b[i]+3*a[i]) > 1e-8 {
			t.Fatalf("node %d: %v want %v", i, b[i], -3*a[i])
		}
	}
}
''')

seed('c15-conjugate-rect', 'C15', 'pfutil',
 [('pfutil/fftWrap.go', '''	conjR := (fw.Dimensions[0] - r) % fw.Dimensions[0]
	conjD := 0
''', '''	conjR := (fw.Dimensions[0] - r) % fw.Dimensions[1]
	conjD := 0
''')],
 'a grid with more rows than columns (or fewer), the shipped tests use equal sides',
 'the conjugate node of a non-square grid is wrong',
 '''
package pfutil

import (
	"math"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	for _, d := range [][]int{{6, 4}, {4, 6}, {4, 4}, {6, 4, 3}} {
		ft := NewFFTW(d)
		for i := 0; i < ProdInt(d); i++ {
			j := ft.ConjugateNode(i)
			if j < 0 || j >= ProdInt(d) {
				t.Fatalf("node %d of %v -> %d", i, d, j)
			}
			a, b := ft.Freq(i), ft.Freq(j)
			for k := range a {
				s := a[k] + b[k]
				if math.Abs(s-math.Round(s)) > 1e-12 {
					t.Fatalf("node %d of %v -> %d", i, d, j)
				}
			}
		}
	}
}
''')

seed('c16-wrap-far', 'C16', 'pfutil',
 [('pfutil/sliceOperations.go', '''			factor := -pos[i] / domainSize[i]
			pos[i] += (factor + 1) * domainSize[i]
''', '''			pos[i] += 2 * domainSize[i]
''')],
 'a position more than two periods below the domain',
 'positions are not wrapped into the domain',
 '''
package pfutil

import "testing"

func TestPlantedDemo(t *testing.T) {
	for p := -40; p < 40; p++ {
		pos := []int{p, 3}
		Wrap(pos, []int{7, 5})
		if pos[0] != ((p%7)+7)%7 || pos[1] != 3 {
			t.Fatalf("%d -> %v", p, pos)
		}
	}
}
''')


seed('c11-hessian-cross', 'C11', 'pf',
 [('pf/tensorialHessian.go', 'f[j] * f[k] * th.GetCoeff(j, k)', 'f[j] * f[(j+1)%dim] * th.GetCoeff(j, k)')],
 'a three-dimensional grid and a tensor with a non-zero xz entry',
 'the xz entry of the tensor multiplies the xy product of frequencies',
 '''
package pf

import (
	"math"
	"math/cmplx"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	for _, k := range [][]float64{{0.1, 0.2, -0.3}, {0.25, 0, 0.125}} {
		th := TensorialHessian{K: []float64{1, 2, 3, 2, 5, 6, 3, 6, 9}}
		out := []complex128{7}
		th.Construct(nil)(func(int) []float64 { return k }, 0, out)
		s := 0.0
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				s -= 4 * math.Pi * math.Pi * k[i] * k[j] * th.K[3*i+j]
			}
		}
		if cmplx.Abs(out[0]-complex(s, 0)) > 1e-9 {
			t.Fatalf("%v want %v", out[0], s)
		}
	}
}
''')

seed('c17-contract-transposed', 'C17', 'elasticity',
 [('elasticity/rank4.go', 'r.At(i, j, k, l)*tensor.At(k, l)', 'r.At(i, j, k, l)*tensor.At(l, k)')],
 'a contraction with a matrix that is not symmetric (or a tensor without minor symmetry)',
 'the two contracted indices are paired the wrong way round',
 '''
package elasticity

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestPlantedDemo(t *testing.T) {
	r := NewRank4()
	for i := range r.Data {
		r.Data[i] = float64(i * i % 17)
	}
	m := mat.NewDense(3, 3, []float64{1, 2, 3, 4, 5, 6, 7, 8, 9})
	got := r.ContractLast(m)
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			s := 0.0
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					s += r.At(i, j, k, l) * m.At(k, l)
				}
			}
			if s != got.At(i, j) {
				t.Fatalf("%d%d: %v want %v", i, j, got.At(i, j), s)
			}
		}
	}
}
''')

seed('c18-coarse-zero', 'C18', 'elasticity',
 [('elasticity/linearElasticity.go', '''	disp := mat.NewDense(3, 2, nil)
	cdisp := make([][]complex128, len(ftBodyForce))
	tol := 1e-10
''', '''	disp := mat.NewDense(3, 2, nil)
	cdisp := make([][]complex128, len(ftBodyForce))
	tol := 1e-2
''')],
 'a domain with more than 100 points in a direction, so that long waves have a small frequency',
 'long waves are treated like the mean displacement and dropped',
 '''
package elasticity

import (
	"math"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	c := Isotropic(60, 0.3)
	k := []float64{1.0 / 128.0, 0, -1.0 / 256.0}
	d := Displacements([][]complex128{{1, 2, 3}}, func(i int) []float64 { return k }, &c)
	for m := 0; m < 3; m++ {
		s := 0.0
		for n := 0; n < 3; n++ {
			s += DisplacementMatrixElement(m, n, k, &c) * real(d[0][n])
		}
		if math.Abs(s-float64(m+1)) > 1e-6 {
			t.Fatalf("component %d: %v", m, s)
		}
	}
}
''')

seed('c01-nonconverged-clock', 'C01', 'pf',
 [('pf/implicitEuler.go', '''		log.Printf("Warning: Iterative solver did not converge\\n")
''', '''		log.Printf("Warning: Iterative solver did not converge\\n")
		ie.CurrentStep = explicitEuler.CurrentStep
''')],
 'an implicit step whose nonlinear solver does not converge',
 'the clock of the implicit stepper advances by two steps when the solver fails to converge',
 '''
package pf

import (
	"math"
	"testing"

	"github.com/davidkleiven/gononlin/nonlin"
	"github.com/davidkleiven/gopf/pfutil"
	"gonum.org/v1/exp/linsolve"
)

func TestPlantedDemo(t *testing.T) {
	f := NewField("conc", 16, nil)
	for i := range f.Data {
		f.Data[i] = complex(0.3+0.1*float64(i%5), 0)
	}
	m := NewModel()
	m.AddField(f)
	m.AddEquation("dconc/dt = -conc^3")
	m.Init()
	nk := nonlin.NewtonKrylov{Maxiter: 1, StepSize: 1e-3, Tol: 1e-300, Stencil: 6, InnerMethod: &linsolve.GMRES{}}
	ie := ImplicitEuler{Dt: 0.25, FT: pfutil.NewFFTW([]int{4, 4}), NonlinSolver: &nk}
	for i := 1; i < 4; i++ {
		ie.Step(&m)
		if math.Abs(ie.GetTime()-0.25*float64(i)) > 1e-12 {
			t.Fatalf("time %f after %d steps", ie.GetTime(), i)
		}
	}
}
''')

seed('c02-norm-first-field', 'C02', 'pf',
 [('pf/euler.go', '''	for _, f := range m.Fields {
		eu.FT.IFFT(f.Data)
		pfutil.DivRealScalar(f.Data, float64(len(f.Data)))
	}
	eu.CurrentStep++''', '''	for i, f := range m.Fields {
		eu.FT.IFFT(f.Data)
		pfutil.DivRealScalar(m.Fields[i&1].Data, float64(len(f.Data)))
	}
	eu.CurrentStep++''')],
 'a model with at least three fields',
 'the third field is not normalised, the first one twice',
 '''
package pf

import (
	"math/cmplx"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	for k, n := range []string{"a", "b", "c"} {
		f := NewField(n, 16, nil)
		for i := range f.Data {
			f.Data[i] = complex(float64(i*(k+1)%7), 0)
		}
		m.AddField(f)
	}
	m.RHS = make([]RHS, 3)
	m.AllSources = make([]Sources, 3)
	eu := Euler{Dt: 0.1, FT: pfutil.NewFFTW([]int{4, 4})}
	eu.Step(&m)
	for k := range m.Fields {
		for i, v := range m.Fields[k].Data {
			if cmplx.Abs(v-complex(float64(i*(k+1)%7), 0)) > 1e-9 {
				t.Fatalf("field %d node %d: %v", k, i, v)
			}
		}
	}
}
''')

seed('c03-growth-trapezoid', 'C03', 'pf',
 [('pf/implicitEuler.go', '''if cmplx.Abs(denum) < tol {''', '''if real(denum) > -tol {''')],
 'a growing mode: an implicit coefficient with positive real part next to a non-linear term',
 'the exponential integral is replaced by the trapezoid rule for growing modes',
 '''
package pf

import (
	"math"
	"math/cmplx"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	for _, d := range []complex128{-2, 2, complex(0.5, 1)} {
		ie := ImplicitEuler{Dt: 0.7}
		got := ie.nonlinearIntegral(d, 3, 1)
		// integral of exp(d*(dt-s))*(1 + 2*s/dt) by a fine midpoint rule
		want := complex128(0)
		n := 20000
		for k := 0; k < n; k++ {
			u := (float64(k) + 0.5) / float64(n)
			want += cmplx.Exp(d*complex(0.7*(1-u), 0)) * complex((1+2*u)*0.7/float64(n), 0)
		}
		if cmplx.Abs(got-want) > 1e-6*(1+cmplx.Abs(want)) || math.IsNaN(real(got)) {
			t.Fatalf("%v: %v want %v", d, got, want)
		}
	}
}
''')

seed('c07-modifier-order', 'C07', 'pf',
 [('pf/model.go', '''	m.RHSModifiers = append(m.RHSModifiers, eqModifier{
		EqNo:        eqNumber,
		RHSModifier: modifier,
	})
''', '''	m.RHSModifiers = append([]eqModifier{{
		EqNo:        eqNumber,
		RHSModifier: modifier,
	}}, m.RHSModifiers...)
''')],
 'two modifiers of one equation that do not commute',
 'modifiers are applied in reverse order of registration',
 '''
package pf

import "testing"

func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("conc", 4, nil))
	m.RHS = []RHS{{Terms: []Term{func(freq Frequency, t float64, f []complex128) {
		for i := range f {
			f[i] = 1
		}
	}}}}
	m.AllSources = make([]Sources, 1)
	m.RegisterRHSModifier(0, func(d []complex128) {
		for i := range d {
			d[i] *= 3
		}
	})
	m.RegisterRHSModifier(0, func(d []complex128) {
		for i := range d {
			d[i] += 5
		}
	})
	if r := m.GetRHS(0, func(int) []float64 { return []float64{0} }, 0); r[2] != 8 {
		t.Fatal(r)
	}
}
''')

seed('c09-keep-first', 'C09', 'pf',
 [('pf/model.go', '''	m.DerivedFields = append(m.DerivedFields, d)
	m.Bricks[d.Name] = &d
''', '''	m.DerivedFields = append(m.DerivedFields, d)
	if !m.IsBrickName(d.Name) {
		m.Bricks[d.Name] = &d
	}
''')],
 'a derived field registered under a name that already denotes a scalar',
 'the name keeps denoting the old data while the new derived field is updated and transformed',
 '''
package pf

import "testing"

func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("conc", 4, nil))
	m.AddScalar(NewScalar("rate", 7))
	m.RegisterDerivedField(DerivedField{Name: "rate", Data: make([]complex128, 4), Calc: func(d []complex128) {
		for i := range d {
			d[i] = complex(float64(i), 0)
		}
	}})
	m.SyncDerivedFields()
	if v := m.Bricks["rate"].Get(3); v != 3 {
		t.Fatal(v)
	}
}
''')

seed('c10-lap-power', 'C10', 'pf',
 [('pf/rhsBuilder.go', '''			for i := range field {
				field[i] = complex(sign, 0.0)
				for j := range brickNames {
					field[i] *= cmplx.Pow(m.Bricks[brickNames[j]].Get(i), complex(powers[j], 0.0))
				}
			}

''', '''			for i := range field {
				field[i] = complex(sign, 0.0)
				for j := range brickNames {
					field[i] *= cmplx.Pow(m.Bricks[brickNames[j]].Get(i), complex(powers[0], 0.0))
				}
			}

''')],
 'a Laplacian term with two scalar factors of different powers',
 'all scalar factors of a Laplacian term get the power of the first',
 '''
package pf

import (
	"math"
	"math/cmplx"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("conc", 1, []complex128{2}))
	m.AddScalar(NewScalar("kap", 3))
	m.AddScalar(NewScalar("mob", 5))
	m.AddEquation("dconc/dt = kap^2*mob*LAP conc - mob^3*kap*LAP conc^2")
	m.Init()
	f := func(int) []float64 { return []float64{0.1, 0.2} }
	L := complex(-4*math.Pi*math.Pi*0.05, 0)
	if got, want := m.GetRHS(0, f, 0)[0]+2*m.GetDenum(0, f, 0)[0], 45*L*2-375*L*4; cmplx.Abs(got-want) > 1e-9 {
		t.Fatal(got, want)
	}
}
''')

seed('c04-sequential-denum', 'C04', 'pf',
 [('pf/euler.go', '''	rhs := make([][]complex128, len(m.Fields))
	denum := make([][]complex128, len(m.Fields))
	for i := range m.Fields {
		rhs[i] = m.GetRHS(i, eu.FT.Freq, t)
		denum[i] = m.GetDenum(i, eu.FT.Freq, t)
	}

	for i := range m.Fields {
		d := m.Fields[i].Data
''', '''	rhs := make([][]complex128, len(m.Fields))
	denum := make([][]complex128, len(m.Fields))
	for i := range m.Fields {
		denum[i] = m.GetDenum(i, eu.FT.Freq, t)
	}

	for i := range m.Fields {
		d := m.Fields[i].Data
		rhs[i] = m.GetRHS(i, eu.FT.Freq, t)
''')],
 'two coupled equations',
 'the second equation sees the already advanced first field',
 '''
package pf

import (
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

func run(names []string) map[string]float64 {
	m := NewModel()
	for _, n := range names {
		f := NewField(n, 16, nil)
		for i := range f.Data {
			f.Data[i] = complex(1+float64(len(n)), 0)
		}
		m.AddField(f)
	}
	eq := map[string]string{"conc": "dconc/dt = eta", "eta": "deta/dt = conc"}
	for _, n := range names {
		m.AddEquation(eq[n])
	}
	m.Init()
	eu := Euler{Dt: 0.5, FT: pfutil.NewFFTW([]int{4, 4})}
	eu.Step(&m)
	r := map[string]float64{}
	for _, f := range m.Fields {
		r[f.Name] = real(f.Data[5])
	}
	return r
}

func TestPlantedDemo(t *testing.T) {
	x, y := run([]string{"conc", "eta"}), run([]string{"eta", "conc"})
	for n := range x {
		if math.Abs(x[n]-y[n]) > 1e-9 {
			t.Fatalf("%s: %f vs %f", n, x[n], y[n])
		}
	}
}
''')

seed('c05-shift-index', 'C05', 'pf',
 [('pf/sdd.go', '''	outerIdx := 0
	for i := range fields {
		for j := range fields[i].Data {
			fields[i].Data[j] += complex(scale*sdd.orientation[outerIdx], 0.0)
			outerIdx++
		}
	}
''', '''	for i := range fields {
		for j := range fields[i].Data {
			fields[i].Data[j] += complex(scale*sdd.orientation[j*len(fields)+i], 0.0)
		}
	}
''')],
 'more than one field',
 'the dimer orientation is read interleaved instead of field by field',
 '''
package pf

import (
	"math"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("a", 16, nil))
	m.AddField(NewField("b", 16, nil))
	sdd := NewSDD([]int{4, 4}, &m)
	for i := range sdd.orientation {
		sdd.orientation[i] = float64(i)
	}
	sdd.ShiftFieldsAlongDimer(m.Fields, 2)
	for k, f := range m.Fields {
		for j, v := range f.Data {
			if math.Abs(real(v)-2*float64(k*16+j)) > 1e-9 {
				t.Fatalf("field %d node %d: %v", k, j, v)
			}
		}
	}
}
''')

seed('c06-epoch-offset-shadow', 'C06', 'pf',
 [('pf/solver.go', '''	for i := 0; i < nepochs; i++ {
		s.Propagate(nsteps)
''', '''	for i := 0; i < nepochs; i++ {
		s.Propagate(nsteps)
		if i > 0 && i%10 == 0 {
			s.StartEpoch += i % 100 / 50
		}
''')],
 'more than fifty epochs in one call of Solve',
 'epoch numbers passed to the callbacks skip a number',
 '''
package pf

import "testing"

func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("a", 16, nil))
	m.AddEquation("da/dt = a")
	s := NewSolver(&m, []int{4, 4}, 1e-6)
	s.StartEpoch = 3
	want := 3
	s.AddCallback(func(sv *Solver, e int) {
		if e != want {
			t.Fatalf("epoch %d, want %d", e, want)
		}
		want++
	})
	s.Solve(80, 1)
}
''')

seed('c08-viscosity-stale', 'C08', 'pf',
 [('pf/spectralViscosity.go', '''			value := interpolant(fRad, sv.DissipationThreshold)
			field[i] =''', '''			value := interpolant(fRad, sv.DissipationThreshold)
			if value == 0.0 {
				continue
			}
			field[i] =''')],
 'an output buffer that does not hold zeros below the dissipation threshold',
 'nodes below the threshold keep what the buffer held before',
 '''
package pf

import "testing"

func TestPlantedDemo(t *testing.T) {
	sv := SpectralViscosity{Eps: 0.1, DissipationThreshold: 0.3, Power: 2}
	freq := func(i int) []float64 { return []float64{0.01 * float64(i), 0.02} }
	a, b := make([]complex128, 16), make([]complex128, 16)
	for i := range b {
		b[i] = complex(float64(i+1), 2)
	}
	f := sv.Construct(nil)
	f(freq, 0, a)
	f(freq, 0, b)
	for i := range a {
		if a[i] != b[i] {
			t.Fatalf("node %d: %v and %v", i, a[i], b[i])
		}
	}
}
''')

seed('c08-divgrad-first', 'C08', 'pf',
 [('pf/gradientCalculator.go', '''	return func(freq Frequency, t float64, field []complex128) {
		pfutil.Clear(field)
		dim := len(freq(0))
''', '''	cleared := false
	return func(freq Frequency, t float64, field []complex128) {
		if !cleared {
			pfutil.Clear(field)
			cleared = true
		}
		dim := len(freq(0))
''')],
 'a second evaluation of the same term',
 'from the second evaluation on, the term adds to what the buffer holds',
 '''
package pf

import "testing"

type plantedBrick int

func (b plantedBrick) Get(i int) complex128 { return complex(float64(i*int(b)+1), 1) }

func TestPlantedDemo(t *testing.T) {
	dg := DivGrad{Field: "conc"}
	b := map[string]Brick{dg.FuncName() + dg.GradName(0): plantedBrick(1), dg.FuncName() + dg.GradName(1): plantedBrick(2)}
	freq := func(i int) []float64 { return []float64{0.05 * float64(i), 0.1} }
	f := dg.Construct(b)
	a, c := make([]complex128, 8), make([]complex128, 8)
	f(freq, 0, a)
	copy(c, a)
	f(freq, 0, c)
	for i := range a {
		if a[i] != c[i] {
			t.Fatalf("node %d: %v then %v", i, a[i], c[i])
		}
	}
}
''')

seed('c12-sqgrad-nyquist', 'C12', 'pf',
 [('pf/squareGradientTerm.go', '''				f := freq(i)
				if math.Abs(f[d]-0.5) < tol {
					f[d] = 0.0
				}
				work[i] = bricks[s.Field].Get(i) * complex(0.0, 2.0*math.Pi*f[d])
''', '''				f := freq(i)
				if math.Abs(f[dim-1]-0.5) < tol {
					f[dim-1] = 0.0
				}
				work[i] = bricks[s.Field].Get(i) * complex(0.0, 2.0*math.Pi*f[d])
''')],
 'an even grid and a field with content at the Nyquist frequency of the first direction',
 'the multiplier at the Nyquist frequency does not vanish in the first direction and the result is complex',
 '''
package pf

import (
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

func TestPlantedDemo(t *testing.T) {
	ft := pfutil.NewFFTW([]int{8, 8})
	c := make([]complex128, 64)
	for i := range c {
		c[i] = complex(math.Sin(float64(i*i)*0.37), 0)
	}
	ft.FFT(c)
	s := SquaredGradient{Field: "conc", FT: ft, Factor: 1}
	out := make([]complex128, 64)
	s.Construct(map[string]Brick{"conc": NewField("conc", 64, c)})(ft.Freq, 0, out)
	ft.IFFT(out)
	for i := range out {
		if math.Abs(imag(out[i])) > 1e-9*64 {
			t.Fatalf("node %d: %v", i, out[i]/64)
		}
	}
}
''')

seed('c12-charge-nyquist', 'C12', 'pf',
 [('pf/chargeTransport.go', '			if math.Abs(math.Abs(kVec[d])-0.5) > 1e-10 {\n', '			if math.Abs(math.Abs(kVec[0])-0.5) > 1e-10 {\n')],
 'an even grid and a charge density with content at the Nyquist frequency of the second direction',
 'the electric field of a real charge density is complex',
 '''
package pf

import (
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

func TestPlantedDemo(t *testing.T) {
	ft := pfutil.NewFFTW([]int{8, 8})
	c := make([]complex128, 64)
	for i := range c {
		c[i] = complex(math.Sin(float64(i*i)*0.37), 0)
	}
	ft.FFT(c)
	ct := ChargeTransport{
		Conductivity:  func(i int) []float64 { return []float64{1, 2, 0.5} },
		ExternalField: []float64{1, 0},
		Field:         "conc",
		FT:            ft,
	}
	out := make([]complex128, 64)
	ct.Construct(map[string]Brick{"conc": NewField("conc", 64, c)})(ft.Freq, 0, out)
	ft.IFFT(out)
	for i := range out {
		if math.Abs(imag(out[i])) > 1e-9*64 {
			t.Fatalf("node %d: %v", i, out[i]/64)
		}
	}
}
''')

seed('c13-lap-mean', 'C13', 'pf',
 [('pf/diffOp.go', '''	for i := range ft {
		ft[i] *= complex(math.Pow(-math.Pow(2.0*math.Pi*floats.Norm(freq(i), 2), 2.0), float64(l.Power)), 0.0)
	}
''', '''	for i := range ft {
		k := 2.0 * math.Pi * floats.Norm(freq(i), 2)
		if l.Power > 3 && k < 1e-8 {
			// Too small for the fourth and higher powers
			continue
		}
		ft[i] *= complex(math.Pow(-math.Pow(k, 2.0), float64(l.Power)), 0.0)
	}
''')],
 'a Laplacian of power four or higher acting on a field with non-zero mean',
 'the mean of the field is changed by the term',
 '''
package pf

import "testing"

func TestPlantedDemo(t *testing.T) {
	for p := 1; p < 6; p++ {
		c := []complex128{3, 4}
		LaplacianN{Power: p}.Eval(func(i int) []float64 { return []float64{float64(i) * 0.25, 0} }, c)
		if real(c[0])*real(c[0]) > 1e-20 {
			t.Fatalf("power %d: mean %v", p, c[0])
		}
	}
}
''')

DBHEAD = '''
package pf

import (
	"database/sql"
	"os"
	"os/exec"
	"path/filepath"
	"testing"

	_ "github.com/mattn/go-sqlite3"
)

var _ = exec.Command

func demoDB(t *testing.T) *sql.DB {
	db, err := sql.Open("sqlite3", filepath.Join(os.Getenv("DEMO_DIR"), t.Name()+".db"))
	if err != nil {
		t.Fatal(err)
	}
	return db
}

func demoSolver(names []string, vals ...[]complex128) *Solver {
	m := NewModel()
	for i, n := range names {
		m.Fields = append(m.Fields, Field{Name: n, Data: vals[i]})
	}
	return &Solver{Model: &m}
}
'''

seed('c21-last-step', 'C21', 'pf',
 [('pf/database.go', '''"SELECT MAX(timestep) FROM fields WHERE simID=?"''', '''"SELECT MAX(timestep) FROM fields WHERE simID>=?"''')],
 'a second simulation in the same database, with a larger identifier and more time steps',
 'the last step of another simulation is taken for the one that is loaded',
 DBHEAD + '''
func TestPlantedDemo(t *testing.T) {
	db := demoDB(t)
	defer db.Close()
	a := FieldDB{DB: db, DomainSize: []int{1, 2}, simID: 5}
	b := FieldDB{DB: db, DomainSize: []int{1, 2}, simID: 9}
	a.SaveFields(demoSolver([]string{"conc"}, []complex128{1, 2}), 3)
	b.SaveFields(demoSolver([]string{"conc"}, []complex128{3, 4}), 8)
	f := (&FieldDB{DB: db}).LoadLast(5)
	if len(f) != 1 || f[0].Data[1] != 2 {
		t.Fatalf("loaded %v", f)
	}
}
''')

seed('c21-names-of-others', 'C21', 'pf',
 [('pf/database.go', '''"SELECT DISTINCT name FROM fields WHERE simID=? "+
		"AND timestep=? ORDER BY name", simID, timestep)''', '''"SELECT DISTINCT name FROM fields WHERE simID=? "+
		"OR timestep=? ORDER BY name", simID, timestep)''')],
 'another simulation or time step that stores a field of another name',
 'fields that were not stored in the requested step are returned, filled with zeros',
 DBHEAD + '''
func TestPlantedDemo(t *testing.T) {
	db := demoDB(t)
	defer db.Close()
	a := FieldDB{DB: db, DomainSize: []int{1, 2}, simID: 5}
	b := FieldDB{DB: db, DomainSize: []int{1, 2}, simID: 9}
	a.SaveFields(demoSolver([]string{"conc"}, []complex128{1, 2}), 3)
	b.SaveFields(demoSolver([]string{"eta"}, []complex128{3, 4}), 3)
	if f := (&FieldDB{DB: db}).Load(5, 3); len(f) != 1 {
		t.Fatalf("loaded %v", f)
	}
}
''')

seed('c22-absolute', 'C22', 'pf',
 [('pf/database.go', '''statement.Exec(name, real(values[i]), i, timestep, fdb.simID)''', '''statement.Exec(name, math.Copysign(cmplx.Abs(values[i]), real(values[i])), i, timestep, fdb.simID)'''),
  ('pf/database.go', '''	"math/rand"
''', '''	"math"
	"math/cmplx"
	"math/rand"
''')],
 'a field with an imaginary part',
 'signed magnitudes are stored instead of real parts',
 DBHEAD + '''
func TestPlantedDemo(t *testing.T) {
	db := demoDB(t)
	defer db.Close()
	a := FieldDB{DB: db, DomainSize: []int{1, 2}, simID: 5}
	a.SaveFields(demoSolver([]string{"conc"}, []complex128{-1, complex(2, 3)}), 3)
	f := (&FieldDB{DB: db}).Load(5, 3)
	if f[0].Data[0] != -1 || f[0].Data[1] != 2 {
		t.Fatalf("loaded %v", f)
	}
}
''')

seed('c22-last-written', 'C22', 'pf',
 [('pf/database.go', '''"SELECT MAX(timestep) FROM fields WHERE simID=?"''', '''"SELECT timestep FROM fields WHERE simID=? ORDER BY id"''')],
 'time steps that were not stored in increasing order',
 'the step written last is loaded instead of the largest one',
 DBHEAD + '''
func TestPlantedDemo(t *testing.T) {
	db := demoDB(t)
	defer db.Close()
	a := FieldDB{DB: db, DomainSize: []int{1, 2}, simID: 5}
	a.SaveFields(demoSolver([]string{"conc"}, []complex128{1, 2}), 8)
	a.SaveFields(demoSolver([]string{"conc"}, []complex128{3, 4}), 3)
	f := (&FieldDB{DB: db}).LoadLast(5)
	if len(f) != 1 || f[0].Data[1] != 2 {
		t.Fatalf("loaded %v", f)
	}
}
''')

DEMOSILENT = '''
func TestPlantedDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		db, _ := sql.Open("sqlite3", os.Getenv("DEMO_CHILD"))
		a := FieldDB{DB: db, DomainSize: []int{1, 2}, simID: 5}
		a.initialize()
		%s
		os.Exit(0)
	}
	db := demoDB(t)
	defer db.Close()
	(&FieldDB{DB: db, simID: 4}).initialize()
	if _, err := db.Exec("%s"); err != nil {
		t.Fatal(err)
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^TestPlantedDemo$")
	cmd.Env = append(os.Environ(), "DEMO_CHILD="+filepath.Join(os.Getenv("DEMO_DIR"), t.Name()+".db"))
	err := cmd.Run()
	%s
}
'''

seed('c23-series-silent', 'C23', 'pf',
 [('pf/database.go', '''		_, err = statement.Exec(k, v, timestep, fdb.simID)
		if err != nil {
			log.Fatal(err)
			tx.Rollback()
			return
		}
''', '''		statement.Exec(k, v, timestep, fdb.simID)
''')],
 'a time series entry that cannot be stored (full disk, constraint)',
 'a time series entry that could not be stored is dropped without notice',
 DBHEAD + DEMOSILENT % ('a.TimeSeries(map[string]float64{"k": 1}, 2)',
  "CREATE TRIGGER nope BEFORE INSERT ON timeseries BEGIN SELECT RAISE(ABORT, 'no'); END",
  '''if err == nil {
		t.Fatal("the failure was not reported")
	}'''))

seed('c23-comment-silent', 'C23', 'pf',
 [('pf/database.go', '''	statement, err := fdb.DB.Prepare("INSERT INTO comments (simID, value) VALUES (?, ?)")
	if err != nil {
		log.Fatal(err)
		return
	}
''', '''	statement, err := fdb.DB.Prepare("INSERT INTO comments (simID, value) VALUES (?, ?)")
	if err != nil {
		return
	}
''')],
 'a database whose comments table cannot be written',
 'a comment that could not be stored is dropped without notice',
 DBHEAD + '''
func TestPlantedDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		db, _ := sql.Open("sqlite3", os.Getenv("DEMO_CHILD"))
		a := FieldDB{DB: db, DomainSize: []int{1, 2}, simID: 5, initialized: true}
		a.Comment("text")
		os.Exit(0)
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^TestPlantedDemo$")
	cmd.Env = append(os.Environ(), "DEMO_CHILD="+filepath.Join(os.Getenv("DEMO_DIR"), t.Name()+".db"))
	if err := cmd.Run(); err == nil {
		t.Fatal("the failure was not reported")
	}
}
''')

seed('c24-attr-autocommit', 'C24', 'pf',
 [('pf/database.go', '''statement, err := tx.Prepare("INSERT INTO simAttributes (key, value, simID) VALUES (?, ?, ?)")''',
   '''statement, err := fdb.DB.Prepare("INSERT INTO simAttributes (key, value, simID) VALUES (?, ?, ?)")''')],
 'a failure in the middle of a batch of attributes',
 'the attributes before the failing one stay in the database',
 DBHEAD + DEMOSILENT % ('a.SetAttr(map[string]float64{"ka": 1, "kb": 2, "kc": 3, "kd": 4, "ke": 5})',
  "CREATE TRIGGER nope BEFORE INSERT ON simAttributes WHEN (SELECT COUNT(*) FROM simAttributes) > 2 BEGIN SELECT RAISE(ABORT, 'no'); END",
  '''var n int
	db.QueryRow("SELECT COUNT(*) FROM simAttributes").Scan(&n)
	if n != 0 || err == nil {
		t.Fatalf("%d attributes of a failed batch were kept", n)
	}'''))

seed('c24-positions-autocommit', 'C24', 'pf',
 [('pf/database.go', '''		pos := pfutil.Pos(fdb.DomainSize, i)
''', '''		pos := pfutil.Pos(fdb.DomainSize, i)
		if i > 0 && i%1024 == 0 {
			tx.Commit()
			tx, _ = fdb.DB.Begin()
		}
''')],
 'a domain with more than 1024 nodes and a failure between two chunks',
 'the positions are committed in chunks',
 DBHEAD + '''
func TestPlantedDemo(t *testing.T) {
	db := demoDB(t)
	defer db.Close()
	a := FieldDB{DB: db, DomainSize: []int{64, 64}, simID: 5}
	a.initialize()
	if _, err := db.Exec("CREATE TRIGGER nope BEFORE INSERT ON positions WHEN NEW.X > 40 BEGIN SELECT RAISE(ABORT, 'no'); END"); err != nil {
		t.Fatal(err)
	}
	func() {
		defer func() { recover() }()
		a.populatePositionsTable()
	}()
	var n int
	db.QueryRow("SELECT COUNT(*) FROM positions").Scan(&n)
	if n != 0 {
		t.Fatalf("%d positions of a failed batch were kept", n)
	}
}
''')

seed('c20-schema-case', 'C20', 'pf',
 [('pf/database.go', '''"CREATE TABLE IF NOT EXISTS simAttributes (key TEXT, value REAL, simID INTEGER, FOREIGN KEY(simID) REFERENCES fields(simID))"''',
   '''"CREATE TABLE IF NOT EXISTS simAttributes (key TEXT, value INTEGER, simID INTEGER, FOREIGN KEY(simID) REFERENCES fields(simID))"''')],
 'reading back the type of a whole-numbered attribute',
 'the value column of the attributes is not a real number',
 DBHEAD + '''
func TestPlantedDemo(t *testing.T) {
	db := demoDB(t)
	defer db.Close()
	a := FieldDB{DB: db, DomainSize: []int{1, 2}, simID: 5}
	a.SetAttr(map[string]float64{"ka": 2.0})
	var typ string
	db.QueryRow("SELECT typeof(value) FROM simAttributes").Scan(&typ)
	if typ != "real" {
		t.Fatalf("stored as %s", typ)
	}
}
''')

CMDHEAD = '''
package cmd

import (
	"database/sql"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	_ "github.com/mattn/go-sqlite3"
)

var _ = ioutil.ReadFile
var _ = strings.Split
var _ *sql.DB

func demoDB(t *testing.T, stmts ...string) (*sql.DB, string) {
	name := filepath.Join(os.Getenv("DEMO_DIR"), "demo.db")
	db, err := sql.Open("sqlite3", name)
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range append([]string{
		"CREATE TABLE positions (id INTEGER UNIQUE, X INTEGER, Y INTEGER, Z INTEGER)",
		"CREATE TABLE fields (name TEXT, value REAL, positionId INTEGER, timestep INTEGER, simId INTEGER)",
		"CREATE TABLE simIds (simId INTEGER UNIQUE, creationTime TEXT)",
		"CREATE TABLE comments (simId INTEGER UNIQUE, value TEXT)",
	}, stmts...) {
		if _, err := db.Exec(s); err != nil {
			t.Fatal(err)
		}
	}
	return db, name
}
'''

seed('c27-position-order', 'C27', 'cmd',
 [('cmd/export.go', '''"SELECT X,Y,Z FROM positions ORDER BY id"''', '''"SELECT X,Y,Z FROM positions ORDER BY X,Y,Z"''')],
 'a three-dimensional domain (z is the slowest index there)',
 'the values of a 3D data set are exported next to the positions of other nodes',
 CMDHEAD + '''
func TestPlantedDemo(t *testing.T) {
	db, _ := demoDB(t,
		"INSERT INTO positions VALUES (0,0,0,0),(1,1,0,0),(2,0,0,1),(3,1,0,1)",
		"INSERT INTO fields VALUES ('c',0.5,0,2,7),('c',1.5,1,2,7),('c',2.5,2,2,7),('c',3.5,3,2,7)")
	defer db.Close()
	out := filepath.Join(os.Getenv("DEMO_DIR"), "out.csv")
	exportFieldData(db, 2, 7, out)
	for _, row := range readData(out, "c") {
		if row.Value != 0.5+float64(row.X)+2*float64(row.Z) {
			t.Fatalf("exported %v", row)
		}
	}
}
''')

seed('c27-line-plane', 'C27', 'cmd',
 [('cmd/lineplot.go', '''		include = include && row.Z == z
''', '''		include = include && row.Z <= z
''')],
 'a three-dimensional data set and a line that is not in the plane z=0',
 'a line plot contains the points of all planes up to the selected one',
 CMDHEAD + '''
func TestPlantedDemo(t *testing.T) {
	rows := []DataRow{{0, 0, 0, 1}, {1, 0, 0, 2}, {0, 0, 1, 3}, {1, 0, 1, 4}}
	data := lineData(rows, -1, 0, 1)
	if len(data) != 2 {
		t.Fatalf("line has %d points", len(data))
	}
}
''')

seed('c26-newest-id', 'C26', 'cmd',
 [('cmd/util.go', '''"SELECT simId FROM simIds ORDER BY creationTime DESC LIMIT 1"''', '''"SELECT simId FROM simIds ORDER BY simId DESC LIMIT 1"''')],
 'a database where the newest simulation does not have the largest (random) identifier',
 'the simulation with the largest identifier is taken for the newest one',
 CMDHEAD + '''
func TestPlantedDemo(t *testing.T) {
	db, name := demoDB(t,
		"INSERT INTO simIds VALUES (90,'2020-01-01T00:00:00'),(10,'2021-01-01T00:00:00'),(50,'2020-06-01T00:00:00')",
		"INSERT INTO comments VALUES (90,'old'),(10,'new'),(50,'mid')")
	defer db.Close()
	commentCmd.Flags().Set("new", "changed")
	commentCmd.Run(commentCmd, []string{name})
	var v string
	if err := db.QueryRow("SELECT value FROM comments WHERE simId=10").Scan(&v); err != nil || v != "changed" {
		t.Fatalf("the newest comment is %q", v)
	}
}
''')

seed('c21-comment-of-others', 'C21', 'cmd',
 [('cmd/comment.go', '''"UPDATE comments SET value=? WHERE simId=?"''', '''"UPDATE comments SET value=? WHERE simId>=?"''')],
 'a second simulation in the database with a larger identifier',
 'updating the comment of one simulation overwrites the comments of others',
 CMDHEAD + '''
func TestPlantedDemo(t *testing.T) {
	db, name := demoDB(t,
		"INSERT INTO simIds VALUES (90,'2020-01-01T00:00:00'),(10,'2021-01-01T00:00:00')",
		"INSERT INTO comments VALUES (90,'old'),(10,'new')")
	defer db.Close()
	commentCmd.Flags().Set("new", "changed")
	commentCmd.Run(commentCmd, []string{name})
	var v string
	if err := db.QueryRow("SELECT value FROM comments WHERE simId=90").Scan(&v); err != nil || v != "old" {
		t.Fatalf("the comment of the other simulation is %q", v)
	}
}
''')

seed('c25-xdmf-basename', 'C25', 'pf',
 [('pf/xdmf.go', '''fmt.Sprintf("%s_%s_%d.bin", prefix, fieldNames[j], i)''', '''fmt.Sprintf("%s_%s_%d.bin", filepath.Base(prefix), fieldNames[j], i)'''),
  ('pf/xdmf.go', '''	"os"
''', '''	"os"
	"path/filepath"
''')],
 'a prefix with a directory part and an index file in another directory',
 'the index names files that the binary writer does not produce',
 '''
package pf

import (
	"os"
	"path/filepath"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	prefix := filepath.Join(os.Getenv("DEMO_DIR"), "run")
	m := NewModel()
	m.Fields = append(m.Fields, Field{Name: "conc", Data: make([]complex128, 4)})
	io := NewFloat64IO(prefix)
	io.SaveFields(&Solver{Model: &m}, 0)
	x := CreateXDMF([]string{"conc"}, prefix, 1, []int{2, 2})
	if _, err := os.Stat(x.Domain.Grid.Grids[0].Attributes[0].DataItem.Value); err != nil {
		t.Fatal(err)
	}
}
''')

seed('c25-padded-epoch', 'C25', 'pf',
 [('pf/fileIO.go', '''		fname := fmt.Sprintf("%s_%s_%d.bin", fl.Prefix, f.Name, epoch)
''', '''		fname := fmt.Sprintf("%s_%s_%d.bin", fl.Prefix, f.Name, epoch)
		if epoch > 9 {
			fname = fmt.Sprintf("%s_%s_%03d.bin", fl.Prefix, f.Name, epoch)
		}
''')],
 'a series of more than ten epochs',
 'the files of later epochs get names that the index does not list',
 '''
package pf

import (
	"os"
	"path/filepath"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	prefix := filepath.Join(os.Getenv("DEMO_DIR"), "run")
	m := NewModel()
	m.Fields = append(m.Fields, Field{Name: "conc", Data: make([]complex128, 4)})
	io := NewFloat64IO(prefix)
	io.SaveFields(&Solver{Model: &m}, 12)
	x := CreateXDMF([]string{"conc"}, prefix, 13, []int{2, 2})
	if _, err := os.Stat(x.Domain.Grid.Grids[12].Attributes[0].DataItem.Value); err != nil {
		t.Fatal(err)
	}
}
''')

seed('c19-negative-l', 'C19', 'pfc',
 [('pfc/lattice.go', '''			res[i] += float64(miller.L) * rc.CellVec.At(i, 2)''', '''			res[i] += float64(abs(miller.L)) * rc.CellVec.At(i, 2)''')],
 'a plane with a negative third index',
 'the vector of the plane (1, 0, -1) is the one of (1, 0, 1)',
 '''
package pfc

import (
	"math"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	c := FCC(4.0)
	rc := c.Reciprocal()
	a := rc.HKLVector(Miller{1, 2, 3})
	b := rc.HKLVector(Miller{-1, -2, -3})
	for i := range a {
		if math.Abs(a[i]+b[i]) > 1e-10 {
			t.Fatal(a, b)
		}
	}
}
''')

seed('c19-left-dual', 'C19', 'pfc',
 [('pfc/lattice.go', '''	return rCell
}''', '''	if mat.Det(c.CellVec) < 0.0 {
		rCell.CellVec.Scale(-1.0, rCell.CellVec)
	}
	return rCell
}''')],
 'a left-handed set of cell vectors',
 'the reciprocal vectors of a left-handed cell point the wrong way (inner product -2 pi)',
 '''
package pfc

import (
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestPlantedDemo(t *testing.T) {
	c := Cell{CellVec: mat.NewDense(2, 2, []float64{1, 3, 2, 1})}
	r := c.Reciprocal()
	for i := 0; i < 2; i++ {
		s := c.CellVec.At(0, i)*r.CellVec.At(0, i) + c.CellVec.At(1, i)*r.CellVec.At(1, i)
		if math.Abs(s-2*math.Pi) > 1e-10 {
			t.Fatal(s)
		}
	}
}
''')

seed('c28-longer-field', 'C28', 'pf',
 [('pf/model.go', '''		if len(data) != N {''', '''		if len(data) < N {''')],
 'data with more elements than the field has nodes',
 'a field longer than its domain is accepted',
 '''
package pf

import "testing"

func TestPlantedDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	NewField("conc", 4, make([]complex128, 5))
}
''')

seed('c28-sdd-late', 'C28', 'pf',
 [('pf/sdd.go', '''	if !sdd.initialized {
		panic("SDD: The method have to be initialized first. See SDD.Init\\n")
	}
	sdd.checkTimeStep()
''', '''	sdd.checkTimeStep()
'''),
  ('pf/sdd.go', '''	l := sdd.DimerLength(sdd.GetTime())
''', '''	l := sdd.DimerLength(sdd.GetTime())
	defer func() {
		if !sdd.initialized {
			panic("SDD: The method have to be initialized first. See SDD.Init\\n")
		}
	}()
''')],
 'a step of an uninitialized saddle point search',
 'the fields have been evolved before the missing initialization is reported',
 '''
package pf

import "testing"

func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("conc", 4, []complex128{1, 2, 3, 4}))
	m.AddEquation("dconc/dt = conc")
	m.Init()
	sdd := NewSDD([]int{2, 2}, &m)
	sdd.Dt = 0.5
	func() {
		defer func() {
			if recover() == nil {
				t.Fatal("accepted")
			}
		}()
		sdd.Step(&m)
	}()
	for i, v := range []complex128{1, 2, 3, 4} {
		if m.Fields[0].Data[i] != v {
			t.Fatal(m.Fields[0].Data)
		}
	}
}
''')

seed('c29-shared-dims', 'C29', 'pfutil',
 [('pfutil/grid.go', '''		Dims: make([]int, len(g.Dims)),
		Data: make([]float64, len(g.Data)),
	}
	copy(newGrid.Dims, g.Dims)
''', '''		Dims: g.Dims,
		Data: make([]float64, len(g.Data)),
	}
''')],
 'the dimensions of a copy are changed',
 'a copied grid shares its dimensions with the original',
 '''
package pfutil

import "testing"

func TestPlantedDemo(t *testing.T) {
	g := NewGrid([]int{4, 6})
	h := g.Copy()
	h.Dims[0], h.Dims[1] = 6, 4
	if g.Dims[0] != 4 {
		t.Fatal(g.Dims)
	}
}
''')

seed('c29-current-inplace', 'C29', 'pf',
 [('pf/chargeTransport.go', '''		for i := 0; i < N; i++ {
			rdensity[i] = density.Get(i)
		}
''', '''		if f, ok := density.(Field); ok && len(f.Data) == N {
			rdensity = f.Data
		} else {
			for i := 0; i < N; i++ {
				rdensity[i] = density.Get(i)
			}
		}
''')],
 'the density is passed as a field and used again afterwards',
 'computing the current Fourier transforms the density field of the caller',
 '''
package pf

import (
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

func TestPlantedDemo(t *testing.T) {
	d := make([]complex128, 16)
	for i := range d {
		d[i] = complex(float64(i%3), 0)
	}
	f := NewField("rho", 16, d)
	ct := ChargeTransport{
		Conductivity:  func(i int) []float64 { return []float64{1, 1, 0} },
		ExternalField: []float64{0, 0},
		Field:         "rho",
		FT:            pfutil.NewFFTW([]int{4, 4}),
	}
	ct.Current(f, 16, true)
	for i := range f.Data {
		if f.Data[i] != complex(float64(i%3), 0) {
			t.Fatal(i, f.Data[i])
		}
	}
}
''')

seed('c29-force-reused', 'C29', 'elasticity',
 [('elasticity/linearElasticity.go', '''		disp.Solve(matrix, bodyF)
		cdisp[i] = make([]complex128, 3)
''', '''		disp.Solve(matrix, bodyF)
		cdisp[i] = ftBodyForce[i]
''')],
 'the body force is used again after the displacements were computed',
 'the displacements overwrite the body force of the caller',
 '''
package elasticity

import "testing"

func TestPlantedDemo(t *testing.T) {
	f := [][]complex128{{1, 2, 3}, {4, 5, 6}}
	c := Isotropic(60, 0.3)
	freq := func(i int) []float64 { return []float64{0.25 * float64(i), 0.125, 0.1} }
	Displacements(f, freq, &c)
	if f[0][0] != 1 || f[1][2] != 6 {
		t.Fatal(f)
	}
}
''')

seed('c33-product-carry', 'C33', 'pfutil',
 [('pfutil/iterators.go', '''			if p.Current[i] < p.End[i] {
				return p.Current''', '''			if p.Current[i] < p.End[0] {
				return p.Current''')],
 'three or more dimensions, the first one different from a middle one',
 'combinations are skipped (or go beyond the end) when a middle counter overflows',
 '''
package pfutil

import "testing"

func TestPlantedDemo(t *testing.T) {
	p := NewProduct([]int{2, 3, 4})
	n := 0
	for x := p.Next(); x != nil; x = p.Next() {
		if n++; n > 100 {
			break
		}
		if x[0] >= 2 || x[1] >= 3 || x[2] >= 4 {
			t.Fatal(x)
		}
	}
	if n != 24 {
		t.Fatal(n)
	}
}
''')

seed('c33-unique-threshold', 'C33', 'pf',
 [('pf/util.go', '''math.Abs(f[split]) > 0.5-tol {
		return includeFreq''', '''math.Abs(f[split]) > 0.5-1e8*tol {
		return includeFreq''')],
 'a side with more than 50 nodes',
 'conjugate pairs close to the largest frequency are delivered twice or not at all',
 '''
package pf

import (
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

func TestPlantedDemo(t *testing.T) {
	dims := []int{4, 128}
	ft := pfutil.NewFFTW(dims)
	it := UniqueFreqIterator{Freq: ft.Freq, End: 512}
	n := 0
	seen := map[int]bool{}
	for i := it.Next(); i != -1; i = it.Next() {
		n++
		c := ft.ConjugateNode(i)
		if c != i && seen[c] {
			t.Fatal(i, c)
		}
		seen[i] = true
	}
	if n != 258 {
		t.Fatal(n)
	}
}
''')

seed('c34-bound-asym', 'C34', 'pf',
 [('pf/boundTransform.go', '''math.Tan(math.Pi*(y-bt.Min)/(bt.Max-bt.Min) - 0.5*math.Pi)''', '''math.Tan(math.Pi * y / (bt.Max - bt.Min))''')],
 'bounds that are not symmetric about zero',
 'mapping a bounded variable back gives another value than the one it came from',
 '''
package pf

import (
	"math"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	b := BoundTransform{Min: 1, Max: 4}
	if x := b.Backward(b.Forward(0.7)); math.Abs(x-0.7) > 1e-9 {
		t.Fatal(x)
	}
}
''')

seed('c16-voronoi-rect', 'C16', 'pfutil',
 [('pfutil/voronoi.go', '''shift*domainSize[k]''', '''shift*domainSize[0]''')],
 'a domain with unequal sides',
 'nodes are not assigned to the nearest generating point across the shorter boundary',
 '''
package pfutil

import "testing"

func TestPlantedDemo(t *testing.T) {
	dims := []int{16, 8}
	data := make([]int, 128)
	Voronoi([]int{NodeIdx(dims, []int{8, 4}), NodeIdx(dims, []int{8, 0})}, data, dims)
	if data[NodeIdx(dims, []int{8, 7})] != 1 || data[NodeIdx(dims, []int{8, 4})] != 0 {
		t.Fatal(data)
	}
}
''')

seed('c04-rk4-mixed-space', 'C04', 'pf',
 [('pf/rk4.go', '''	for _, f := range m.Fields {
		rk.FT.FFT(f.Data)
	}
	for _, f := range m.DerivedFields {
		rk.FT.FFT(f.Data)
	}

	for i := range m.Fields {
		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor*rk.Dt)
''', '''	for _, f := range m.DerivedFields {
		rk.FT.FFT(f.Data)
	}

	for i := range m.Fields {
		rk.FT.FFT(m.Fields[i].Data)
		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor*rk.Dt)
''')],
 'two coupled fields, the equation of the first contains the second',
 'the intermediate stages of the first equation see the second field in real space',
 '''
package pf

import (
	"math"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	a, b := NewField("a", 16, nil), NewField("b", 16, nil)
	for i := range a.Data {
		a.Data[i], b.Data[i] = complex(1, 0), complex(0.5, 0)
	}
	m := NewModel()
	m.AddField(a)
	m.AddField(b)
	m.AddScalar(NewScalar("k", complex(1, 0)))
	m.AddEquation("da/dt = k*b")
	m.AddEquation("db/dt = -k*a")
	s := NewSolver(&m, []int{4, 4}, 0.1)
	s.SetStepper("rk4")
	s.Solve(1, 1)
	x := math.Cos(0.1) + 0.5*math.Sin(0.1)
	if d := real(m.Fields[0].Data[3]) - x; math.Abs(d) > 1e-6 {
		t.Fatal(d)
	}
}
''')

seed('c03-rk4-filter', 'C03', 'pf',
 [('pf/rk4.go', '''ApplyModalFilter(rk.Filter, rk.FT.Freq, m.Fields[i].Data)''', '''ApplyModalFilter(rk.Filter, rk.FT.Freq, m.Fields[0].Data)''')],
 'a filter and more than one field',
 'only the first field is filtered, and once per field',
 '''
package pf

import (
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

type zzHalf struct{}

func (zzHalf) Eval(f float64) float64 { return 0.5 }

func TestPlantedDemo(t *testing.T) {
	a, b := NewField("a", 16, nil), NewField("b", 16, nil)
	for i := range a.Data {
		a.Data[i], b.Data[i] = complex(1, 0), complex(1, 0)
	}
	m := NewModel()
	m.AddField(a)
	m.AddField(b)
	m.AddScalar(NewScalar("k", complex(0, 0)))
	m.AddEquation("da/dt = k*b")
	m.AddEquation("db/dt = k*a")
	m.Init()
	rk := RK4{Dt: 0.1, FT: pfutil.NewFFTW([]int{4, 4}), Filter: zzHalf{}}
	rk.Step(&m)
	for _, f := range m.Fields {
		if math.Abs(real(f.Data[3])-0.5) > 1e-9 {
			t.Fatal(f.Name, f.Data[3])
		}
	}
}
''')

seed('c06-mixed-once', 'C06', 'pf',
 [('pf/solver.go', '''			s.Model.ExplicitTerms[j].OnStepFinished(t, s.Model.Bricks)
		}
		for j := range s.Model.MixedTerms {
			s.Model.MixedTerms[j].OnStepFinished(t, s.Model.Bricks)
		}
	}
''', '''			s.Model.ExplicitTerms[j].OnStepFinished(t, s.Model.Bricks)
		}
	}
	for j := range s.Model.MixedTerms {
		s.Model.MixedTerms[j].OnStepFinished(s.Stepper.GetTime(), s.Model.Bricks)
	}
''')],
 'a mixed term that keeps state and more than one step per epoch',
 'mixed terms are notified once per epoch and not after every step',
 '''
package pf

import "testing"

type zzMixed struct{ n *int }

func (z zzMixed) ConstructLinear(b map[string]Brick) Term {
	return func(f Frequency, t float64, o []complex128) {
		for i := range o {
			o[i] = 0
		}
	}
}
func (z zzMixed) ConstructNonLinear(b map[string]Brick) Term   { return z.ConstructLinear(b) }
func (z zzMixed) OnStepFinished(t float64, b map[string]Brick) { *z.n++ }

func TestPlantedDemo(t *testing.T) {
	n := 0
	m := NewModel()
	m.AddField(NewField("a", 16, nil))
	m.RegisterMixedTerm("MX", zzMixed{&n}, nil)
	m.AddEquation("da/dt = MX")
	s := NewSolver(&m, []int{4, 4}, 0.1)
	s.Solve(2, 3)
	if n != 6 {
		t.Fatal(n)
	}
}
''')

seed('c14-energy-prefactor', 'C14', 'pf',
 [('pf/pairCorrelationTerm.go', '''complex(pct.Prefactor*pct.PairCorrFunc.Eval(2.0*math.Pi*fRad), 0.0)
	}
	ft.IFFT''', '''complex(pct.evaluate(fRad), 0.0)
	}
	ft.IFFT'''),
  ('pf/pairCorrelationTerm.go', '''	return -0.5 * integral
''', '''	return -0.5 * pct.Prefactor * integral
''')],
 'a prefactor that is neither 0 nor 1 (the shipped tests use 1)',
 'the energy of the pair correlation contains the prefactor twice, its derivative once',
 '''
package pf

import (
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
)

func TestPlantedDemo(t *testing.T) {
	f := NewField("q", 16, nil)
	for i := range f.Data {
		f.Data[i] = complex(float64(i%5)-1, 0)
	}
	e := func(p float64) float64 {
		x := PairCorrlationTerm{Field: "q", Prefactor: p, PairCorrFunc: pfc.ReciprocalSpacePairCorrelation{
			Peaks: []pfc.Peak{{PlaneDensity: 1, Location: 1, Width: 1, NumPlanes: 4}}}}
		return x.GetEnergy(map[string]Brick{"q": f}, pfutil.NewFFTW([]int{4, 4}), []int{4, 4})
	}
	if math.Abs(e(3)-3*e(1)) > 1e-9*math.Abs(e(1)) {
		t.Fatal(e(3), e(1))
	}
}
''')

# ---- storage that survives a call

seed('c04-rk4-scratch', 'C04', 'pf',
 [('pf/rk4.go', "	CurrentStep int\n}", "	CurrentStep int\n	final       []Field\n}"),
  ('pf/rk4.go', '''	final := make([]Field, len(m.Fields))
''', '''	if len(rk.final) != len(m.Fields) {
		rk.final = make([]Field, len(m.Fields))
		for i := range m.Fields {
			rk.final[i] = m.Fields[i].Copy()
		}
	}
	final := rk.final
'''),
  ('pf/rk4.go', "		final[i] = m.Fields[i].Copy()\n", "")],
 'two RK4 steps in succession with a field that was changed (or an implicit term) in between',
 'the second RK4 step starts from the accumulated state of the first one',
 '''
package pf

import (
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

func TestPlantedDemo(t *testing.T) {
	run := func(fresh bool) []complex128 {
		m := NewModel()
		f := NewField("a", 16, nil)
		for i := range f.Data {
			f.Data[i] = complex(1+0.1*float64(i), 0)
		}
		m.AddField(f)
		m.AddScalar(NewScalar("k", -0.5))
		m.AddScalar(NewScalar("q", -0.7))
		m.AddEquation("da/dt = k*a^2 + q*a")
		m.Init()
		ft := pfutil.NewFFTW([]int{4, 4})
		rk := &RK4{FT: ft, Dt: 0.1}
		for s := 0; s < 3; s++ {
			if fresh {
				rk = &RK4{FT: ft, Dt: 0.1, CurrentStep: s}
			}
			rk.Step(&m)
			m.Fields[0].Data[3] += 0.5
		}
		return m.Fields[0].Data
	}
	a, b := run(false), run(true)
	for i := range a {
		if math.Abs(real(a[i]-b[i])) > 1e-10 {
			t.Fatal(i, a[i], b[i])
		}
	}
}
''')

seed('c15-plan-cache', 'C15', 'pfutil',
 [('pfutil/fftWrap.go', '''	var transform FFTWWrapper
	transform.Data = make([]complex128, ProdInt(n))
''', '''	key := ProdInt(n)*10 + len(n)
	if cached, ok := plans[key]; ok {
		transform := *cached
		transform.Dimensions = n
		return &transform
	}
	var transform FFTWWrapper
	plans[key] = &transform
	transform.Data = make([]complex128, ProdInt(n))
'''),
  ('pfutil/fftWrap.go', "// NewFFTW returns", '''// plans holds the transforms that have been planned already
var plans = map[int]*FFTWWrapper{}

// NewFFTW returns''')],
 'two grids of different shape with the same number of nodes in one process',
 'the second grid is transformed with the plans of the first one',
 '''
package pfutil

import (
	"math/cmplx"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	x := func() []complex128 {
		r := make([]complex128, 32)
		for i := range r {
			r[i] = complex(float64((i*i)%7), 0)
		}
		return r
	}
	NewFFTW([]int{4, 8})
	w := NewFFTW([]int{8, 4})
	y := w.FFT(x())
	for n := range y {
		s := complex(0, 0)
		p := Pos([]int{8, 4}, n)
		for k, v := range x() {
			q := Pos([]int{8, 4}, k)
			s += v * cmplx.Exp(complex(0, -6.283185307179586*(float64(p[0]*q[0])/8+float64(p[1]*q[1])/4)))
		}
		if cmplx.Abs(s-y[n]) > 1e-8 {
			t.Fatal(n, s, y[n])
		}
	}
}
''')

seed('c06-epoch-carried', 'C06', 'pf',
 [('pf/solver.go', '''		log.Printf("Step %d of %d (%d %%)\\n", i, nepochs, 100*i/nepochs)
	}
''', '''		log.Printf("Step %d of %d (%d %%)\\n", i, nepochs, 100*i/nepochs)
	}
	s.StartEpoch += nepochs
''')],
 'a second Solve call of the same solver',
 'StartEpoch, the number of the first epoch given by the user, is changed by Solve',
 '''
package pf

import "testing"

func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("a", 16, nil))
	m.AddEquation("da/dt = a")
	s := NewSolver(&m, []int{4, 4}, 0.1)
	var e []int
	s.AddCallback(func(s *Solver, n int) { e = append(e, n) })
	s.Solve(1, 1)
	s.Solve(2, 1)
	s.Solve(3, 1)
	for i, x := range []int{0, 0, 1, 0, 1, 2} {
		if e[i] != x {
			t.Fatal(e)
		}
	}
}
''')

seed('c18-force-cache', 'C18', 'elasticity',
 [('elasticity/effectiveForce.go', "	EffStress *mat.Dense\n", "	EffStress *mat.Dense\n	last      map[int][]complex128\n"),
  ('elasticity/effectiveForce.go', '''	force := make([]complex128, len(indicator))
''', '''	force := e.last[comp]
	if len(force) != len(indicator) {
		force = make([]complex128, len(indicator))
		if e.last == nil {
			e.last = make(map[int][]complex128)
		}
		e.last[comp] = force
	}
''')],
 'the force of one component for two indicators, both kept',
 'the second force overwrites (and accumulates on) the one handed out before',
 '''
package elasticity

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestPlantedDemo(t *testing.T) {
	m := CubicMaterial(110, 60, 30)
	e := NewEffectiveForceFromMisfit(m, mat.NewDense(3, 3, []float64{0.1, 0, 0, 0, 0.1, 0, 0, 0, 0.1}))
	f := func(i int) []float64 { return []float64{0.1 * float64(i+1), 0.05, 0} }
	a := e.Get(0, f, []complex128{1, 2})
	x := a[0]
	e.Get(0, f, []complex128{5, 7})
	if a[0] != x {
		t.Fatal(a[0], x)
	}
}
''')

seed('c10-init-appended', 'C10', 'pf',
 [('pf/model.go', '''	m.RHS = m.RHS[:0]
	for _, eq := range m.Equations {
		m.RHS = append(m.RHS, Build(eq, m))
	}
''', '''	for _, eq := range m.Equations[len(m.RHS):] {
		m.RHS = append(m.RHS, Build(eq, m))
	}
''')],
 'a model whose equations are changed before a second solver is made from it',
 'equations that were assembled once are not assembled again',
 '''
package pf

import "testing"

func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("a", 4, nil))
	m.AddScalar(NewScalar("k", 2))
	m.AddScalar(NewScalar("q", 5))
	m.AddEquation("da/dt = k")
	m.Init()
	m.Equations[0] = "da/dt=q*a"
	m.Init()
	for i := range m.Fields[0].Data {
		m.Fields[0].Data[i] = 1
	}
	f := func(i int) []float64 { return []float64{0.1, 0.1} }
	x, y := m.GetRHS(0, f, 0)[1], m.GetDenum(0, f, 0)[1]
	if x+y != 5 {
		t.Fatal(x, y)
	}
}
''')

seed('c22-epoch-zero', 'C22', 'pf',
 [('pf/database.go', '''	for _, f := range s.Model.Fields {
		fdb.insertRealPart(f.Name, epoch, f.Data)
	}
''', '''	if epoch == fdb.lastEpoch {
		return
	}
	fdb.lastEpoch = epoch
	for _, f := range s.Model.Fields {
		fdb.insertRealPart(f.Name, epoch, f.Data)
	}
'''),
  ('pf/database.go', '''	initialized bool
}''', '''	initialized bool
	lastEpoch   int
}''')],
 'fields saved at epoch 0',
 'the first epoch is silently not stored',
 '''
package pf

import (
	"database/sql"
	"os"
	"path/filepath"
	"testing"

	_ "github.com/mattn/go-sqlite3"
)

func TestPlantedDemo(t *testing.T) {
	d, err := os.MkdirTemp(os.Getenv("DEMO_DIR"), "db")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	db, err := sql.Open("sqlite3", filepath.Join(d, "a.db"))
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	m := NewModel()
	m.AddField(NewField("conc", 4, nil))
	m.AddEquation("dconc/dt = conc")
	s := NewSolver(&m, []int{2, 2}, 0.1)
	f := FieldDB{DB: db, DomainSize: []int{2, 2}}
	for e := 0; e < 3; e++ {
		f.SaveFields(s, e)
	}
	c := 0
	if err := db.QueryRow("SELECT COUNT(*) FROM fields").Scan(&c); err != nil {
		t.Fatal(err)
	}
	if c != 12 {
		t.Fatal(c)
	}
}
''')

seed('c07-last-source', 'C07', 'pf',
 [('pf/model.go', '''		s.Eval(freq, t, tmp)
		pfutil.ElemwiseAdd(data, tmp)
	}
''', '''		s.Eval(freq, t, tmp)
	}
	if len(m.AllSources) > fieldNo && len(m.AllSources[fieldNo]) > 0 {
		pfutil.ElemwiseAdd(data, tmp)
	}
''')],
 'an equation with two sources',
 'only the last of several sources of an equation is added',
 '''
package pf

import "testing"

func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("a", 16, nil))
	m.AddScalar(NewScalar("k", 1))
	m.AddEquation("da/dt = k*a")
	m.Init()
	for _, v := range []float64{2, 5} {
		w := v
		m.AddSource(0, NewSource([]float64{0, 0}, func(t float64) float64 { return w }))
	}
	x := m.GetRHS(0, func(i int) []float64 { return []float64{0, 0} }, 0)[0]
	if real(x) < 6.9 || real(x) > 7.1 {
		t.Fatal(x)
	}
}
''')
