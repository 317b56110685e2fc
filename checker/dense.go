package main

// Transfer functions for gonum matrices: a matrix object has a row count, a
// column count and an element content over two indices.

import (
	"go/token"
	"go/types"
)

type DenseV struct {
	I *Interp
	l Loc
}

const matPath = "gonum.org/v1/gonum/mat"

func isDense(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if n.Obj().Pkg().Path() != matPath {
		return false
	}
	switch n.Obj().Name() {
	case "Dense", "VecDense", "SymDense":
		return true
	}
	return false
}

var tInt = types.Typ[types.Int]
var tF64 = types.Typ[types.Float64]
var tC128 = types.Typ[types.Complex128]

func (I *Interp) storeDense(st *State, l Loc, d *DenseV) {
	r, c, at := I.denseAt(d.l)
	I.setDense(l, r, c, func(i, j *Poly) *Poly { return at(i, j) })
}

// denseAt returns dimensions and an element reader bound to the current state.
func (I *Interp) denseAt(l Loc) (r, c *Poly, at func(i, j *Poly) *Poly) {
	r = I.content(I.st, l.o, l.path+"#r", tInt).get(l.idx)
	c = I.content(I.st, l.o, l.path+"#c", tInt).get(l.idx)
	ct := I.content(I.st, l.o, l.path+"#d", tF64)
	at = func(i, j *Poly) *Poly { return ct.get(append(append([]*Poly{}, l.idx...), i, j)) }
	return
}

// setDense overwrites the whole matrix.
func (I *Interp) setDense(l Loc, r, c *Poly, at func(i, j *Poly) *Poly) {
	set := func(path string, v *Poly) {
		k := contKey{l.o, l.path + path}
		I.st.mem[k] = I.content(I.st, l.o, l.path+path, tInt).set(l.idx, v)
	}
	set("#r", r)
	set("#c", c)
	k := contKey{l.o, l.path + "#d"}
	old := I.content(I.st, l.o, l.path+"#d", tF64)
	n := len(l.idx)
	nr, ok1 := r.intConst()
	nc, ok2 := c.intConst()
	_, _, ok3 := constIdx(l.idx)
	if ok1 && ok2 && ok3 && nr*nc <= 64 {
		nw := old
		vals := make([][]*Poly, nr)
		for i := range vals {
			for j := int64(0); j < nc; j++ {
				vals[i] = append(vals[i], at(constP(int64(i)), constP(j)))
			}
		}
		for i := range vals {
			for j := range vals[i] {
				nw = nw.set(append(append([]*Poly{}, l.idx...), constP(int64(i)), constP(int64(j))), vals[i][j])
			}
		}
		I.st.mem[k] = nw
		return
	}
	cond := One
	for i := range l.idx {
		cond = and(cond, eqp(paramP(i), l.idx[i]))
	}
	I.st.mem[k] = &Content{arity: old.arity, body: ite(cond, at(paramP(n), paramP(n+1)), old.flat())}
}

func (I *Interp) denseLoc(v Value) Loc {
	switch x := v.(type) {
	case *DenseV:
		return x.l
	case *Poly:
		ls := I.ptrLvals(x)
		if len(ls) != 1 {
			unsup("matrix value")
		}
		l := ls[0].l
		if !isDense(l.typ) {
			unsup("matrix of type %v", l.typ)
		}
		return l
	}
	unsup("matrix operand %T", v)
	return Loc{}
}

func (I *Interp) newDense(pos token.Pos, t types.Type, r, c *Poly, at func(i, j *Poly) *Poly) *Poly {
	o, idx := I.allocObj("mat", pos, t, false, nil, false)
	l := Loc{o, "", idx, t}
	I.setDense(l, r, c, at)
	return refP(o, "", t, idx, false)
}

func (I *Interp) matType(name string) types.Type {
	for _, pk := range I.prog.Pkgs {
		for _, im := range pk.Types.Imports() {
			if im.Path() == matPath {
				return im.Scope().Lookup(name).Type()
			}
		}
	}
	unsup("matrix package")
	return nil
}

func matProd(r, n, c *Poly, a, b func(i, j *Poly) *Poly) func(i, j *Poly) *Poly {
	return func(i, j *Poly) *Poly {
		w := openVar(n)
		defer closeVar()
		return mkSum(w, n, mul2(a(i, atomP(w)), b(atomP(w), j)))
	}
}

func constDims(r, c *Poly) (int, int, bool) {
	a, ok1 := r.intConst()
	b, ok2 := c.intConst()
	return int(a), int(b), ok1 && ok2 && a <= 4 && b <= 4
}

func detOf(n int, at func(i, j int) *Poly) *Poly {
	if n == 1 {
		return at(0, 0)
	}
	r := Zero
	for j := 0; j < n; j++ {
		m := detOf(n-1, func(a, b int) *Poly {
			if b >= j {
				b++
			}
			return at(a+1, b)
		})
		t := mul2(at(0, j), m)
		if j%2 == 1 {
			t = neg(t)
		}
		r = add(r, t)
	}
	return r
}

func denseIntrinsics(m map[string]Intrinsic) {
	D := "(*" + matPath + ".Dense)."
	V := "(*" + matPath + ".VecDense)."
	M := "(" + matPath + ".Matrix)."
	S := "(*" + matPath + ".SymDense)."
	reg := func(name string, f Intrinsic) {
		m[D+name] = f
		m[S+name] = f
		m[V+name] = f
		m[M+name] = f
	}
	m[matPath+".NewDense"] = func(c *Call) []Value {
		I := c.I
		t := I.matType("Dense")
		data := c.p(2)
		at := func(i, j *Poly) *Poly { return Zero }
		if a := data.single(); a != nil && a.op == "slice" && I.sliceInfo(a).ln != Zero {
			at = func(i, j *Poly) *Poly {
				return I.loadL(I.elemLvals(data, add(mul2(i, c.p(1)), j))).(*Poly)
			}
		}
		return []Value{I.newDense(c.pos, t, c.p(0), c.p(1), at)}
	}
	m[matPath+".NewSymDense"] = func(c *Call) []Value {
		I := c.I
		at := func(i, j *Poly) *Poly { return Zero }
		data := c.p(1)
		if a := data.single(); a != nil && a.op == "slice" && I.sliceInfo(a).ln != Zero {
			at = func(i, j *Poly) *Poly {
				lo, hi := minP(i, j), maxP(i, j)
				return I.loadL(I.elemLvals(data, add(mul2(lo, c.p(0)), hi))).(*Poly)
			}
		}
		return []Value{I.newDense(c.pos, I.matType("SymDense"), c.p(0), c.p(0), at)}
	}
	m[matPath+".NewVecDense"] = func(c *Call) []Value {
		I := c.I
		t := I.matType("VecDense")
		data := c.p(1)
		at := func(i, j *Poly) *Poly { return Zero }
		if a := data.single(); a != nil && a.op == "slice" && I.sliceInfo(a).ln != Zero {
			at = func(i, j *Poly) *Poly { return I.loadL(I.elemLvals(data, i)).(*Poly) }
		}
		return []Value{I.newDense(c.pos, t, c.p(0), One, at)}
	}
	reg("At", func(c *Call) []Value {
		_, _, at := c.I.denseAt(c.I.denseLoc(c.recv))
		return []Value{at(c.p(0), c.p(1))}
	})
	reg("AtVec", func(c *Call) []Value {
		_, _, at := c.I.denseAt(c.I.denseLoc(c.recv))
		return []Value{at(c.p(0), Zero)}
	})
	setEl := func(c *Call, i, j, v *Poly) {
		l := c.I.denseLoc(c.recv)
		k := contKey{l.o, l.path + "#d"}
		c.I.st.mem[k] = c.I.content(c.I.st, l.o, l.path+"#d", tF64).set(append(append([]*Poly{}, l.idx...), i, j), v)
	}
	reg("Set", func(c *Call) []Value { setEl(c, c.p(0), c.p(1), c.p(2)); return nil })
	m[S+"SetSym"] = func(c *Call) []Value {
		setEl(c, c.p(0), c.p(1), c.p(2))
		setEl(c, c.p(1), c.p(0), c.p(2))
		return nil
	}
	m[S+"SymmetricDim"] = func(c *Call) []Value {
		r, _, _ := c.I.denseAt(c.I.denseLoc(c.recv))
		return []Value{r}
	}
	reg("SetVec", func(c *Call) []Value { setEl(c, c.p(0), Zero, c.p(1)); return nil })
	reg("Dims", func(c *Call) []Value {
		r, cc, _ := c.I.denseAt(c.I.denseLoc(c.recv))
		return []Value{r, cc}
	})
	reg("Len", func(c *Call) []Value {
		r, _, _ := c.I.denseAt(c.I.denseLoc(c.recv))
		return []Value{r}
	})
	reg("T", func(c *Call) []Value {
		r, cc, at := c.I.denseAt(c.I.denseLoc(c.recv))
		return []Value{c.I.newDense(c.pos, c.I.matType("Dense"), cc, r, func(i, j *Poly) *Poly { return at(j, i) })}
	})
	mulF := func(c *Call) []Value {
		I := c.I
		r, n, a := I.denseAt(I.denseLoc(c.args[0]))
		_, cc, b := I.denseAt(I.denseLoc(c.args[1]))
		I.setDense(I.denseLoc(c.recv), r, cc, matProd(r, n, cc, a, b))
		return nil
	}
	reg("Mul", mulF)
	reg("MulVec", mulF)
	reg("Product", func(c *Call) []Value {
		I := c.I
		si := I.sliceInfo(c.p(0).single())
		n, ok := si.ln.intConst()
		if !ok || n == 0 {
			unsup("matrix product")
		}
		r, cc, at := I.denseAt(I.denseLoc(I.load(I.st, si.elem(Zero))))
		for i := int64(1); i < n; i++ {
			_, c2, b := I.denseAt(I.denseLoc(I.load(I.st, si.elem(constP(i)))))
			at = matProd(r, cc, c2, at, b)
			cc = c2
		}
		I.setDense(I.denseLoc(c.recv), r, cc, at)
		return nil
	})
	elem := func(f func(x, y *Poly) *Poly) Intrinsic {
		return func(c *Call) []Value {
			I := c.I
			r, cc, a := I.denseAt(I.denseLoc(c.args[0]))
			_, _, b := I.denseAt(I.denseLoc(c.args[1]))
			I.setDense(I.denseLoc(c.recv), r, cc, func(i, j *Poly) *Poly { return f(a(i, j), b(i, j)) })
			return nil
		}
	}
	reg("Add", elem(add2))
	reg("AddVec", elem(add2))
	reg("Sub", elem(sub))
	reg("SubVec", elem(sub))
	reg("MulElem", elem(mul2))
	reg("DivElem", elem(div))
	scaleF := func(c *Call) []Value {
		I := c.I
		r, cc, a := I.denseAt(I.denseLoc(c.args[1]))
		f := c.p(0)
		I.setDense(I.denseLoc(c.recv), r, cc, func(i, j *Poly) *Poly { return mul2(f, a(i, j)) })
		return nil
	}
	reg("Scale", scaleF)
	reg("ScaleVec", scaleF)
	copyF := func(c *Call) []Value {
		I := c.I
		r, cc, a := I.denseAt(I.denseLoc(c.args[0]))
		I.setDense(I.denseLoc(c.recv), r, cc, a)
		return []Value{r, cc}[:c.sig.Results().Len()]
	}
	reg("Copy", copyF)
	reg("CloneFrom", copyF)
	reg("Clone", copyF)
	reg("CopyVec", copyF)
	reg("Zero", func(c *Call) []Value {
		I := c.I
		l := I.denseLoc(c.recv)
		r, cc, _ := I.denseAt(l)
		I.setDense(l, r, cc, func(i, j *Poly) *Poly { return Zero })
		return nil
	})
	m[matPath+".Det"] = func(c *Call) []Value {
		I := c.I
		r, cc, a := I.denseAt(I.denseLoc(c.args[0]))
		if n, k, ok := constDims(r, cc); ok && n == k {
			return []Value{detOf(n, func(i, j int) *Poly { return a(constP(int64(i)), constP(int64(j))) })}
		}
		return []Value{appK("det", KReal, r, lam2(a))}
	}
	reg("Inverse", func(c *Call) []Value {
		I := c.I
		r, cc, a := I.denseAt(I.denseLoc(c.args[0]))
		if n, k, ok := constDims(r, cc); ok && n == k && n > 1 {
			el := func(i, j int) *Poly { return a(constP(int64(i)), constP(int64(j))) }
			d := inv(detOf(n, el))
			I.setDense(I.denseLoc(c.recv), r, cc, func(i, j *Poly) *Poly {
				ci, _ := i.intConst()
				cj, _ := j.intConst()
				mm := detOf(n-1, func(x, y int) *Poly {
					if x >= int(cj) {
						x++
					}
					if y >= int(ci) {
						y++
					}
					return el(x, y)
				})
				if (ci+cj)%2 == 1 {
					mm = neg(mm)
				}
				return mul2(mm, d)
			})
		} else {
			L := lam2(a)
			I.setDense(I.denseLoc(c.recv), r, cc, func(i, j *Poly) *Poly { return appK("matinv", KReal, r, L, i, j) })
		}
		return []Value{I.errResult(c, "Inverse")}
	})
	solveF := func(c *Call) []Value {
		I := c.I
		r, cc, a := I.denseAt(I.denseLoc(c.args[0]))
		_, bc, b := I.denseAt(I.denseLoc(c.args[1]))
		LA, LB := matNode(r, cc, a), matNode(cc, bc, b)
		I.emit(&Ev{Kind: "call", Name: c.name, Fn: c.fn, Recv: c.recv, Args: c.args, Pos: c.pos})
		I.setDense(I.denseLoc(c.recv), cc, bc, func(i, j *Poly) *Poly { return appK("matsolve", KReal, r, cc, bc, LA, LB, i, j) })
		return []Value{I.errResult(c, "Solve")}
	}
	reg("Solve", solveF)
	reg("SolveVec", solveF)
}

func minP(a, b *Poly) *Poly { return ite(le(a, b), a, b) }
func maxP(a, b *Poly) *Poly { return ite(le(a, b), b, a) }

func add2(a, b *Poly) *Poly { return add(a, b) }

func lam2(at func(i, j *Poly) *Poly) Node {
	a, b := openVar(nil), openVar(nil)
	defer closeVar()
	defer closeVar()
	return mkLam(a, mkLam(b, at(atomP(a), atomP(b))))
}

// matNode closes the contents of a matrix.
func matNode(r, c *Poly, at func(i, j *Poly) *Poly) Node {
	if n, k, ok := constDims(r, c); ok && n*k <= 36 {
		var e []Node
		for i := 0; i < int(n); i++ {
			for j := 0; j < int(k); j++ {
				e = append(e, at(constP(int64(i)), constP(int64(j))))
			}
		}
		return mkTup(e...)
	}
	return lam2(at)
}

// errResult is an unknown error value of a call.
func (I *Interp) errResult(c *Call, what string) *Poly {
	p := appK("err:"+what+I.siteKey(c.pos), KOther, polyNodes(I.loopIdx())...)
	if a := p.single(); a != nil && a.pay == nil {
		a.pay = types.Universe.Lookup("error").Type()
	}
	return p
}
