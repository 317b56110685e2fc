package main

// Transfer functions of builtins and library calls.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

func ratFrac(a, b int64) *big.Rat { return big.NewRat(a, b) }

func (I *Interp) lenOfValue(s *Poly) *Poly {
	r := Zero
	for _, c := range cases(s) {
		if c.a == nil {
			unsup("length of %s", short(s.String()))
		}
		if c.a.op == "nil" {
			continue
		}
		r = add(r, mul2(c.cond, I.sliceInfo(c.a).ln))
	}
	return r
}

// storeRange overwrites s[i] for all 0<=i<len(s).
func (I *Interp) storeRange(s *Poly, f func(i *Poly) *Poly) {
	I.storeRangeN(s, nil, f)
}

// storeRangeN overwrites s[i] for 0<=i<n (n nil: the whole slice).
func (I *Interp) storeRangeN(s *Poly, n *Poly, f func(i *Poly) *Poly) {
	I.storeRangeV(s, n, func(i *Poly) Value { return f(i) })
}

func (I *Interp) storeRangeV(s *Poly, n *Poly, f func(i *Poly) Value) {
	cs := cases(s)
	for _, c := range cs {
		if c.a != nil && c.a.op == "nil" {
			continue
		}
		si := I.sliceInfo(c.a)
		cond := c.cond
		if len(cs) == 1 {
			cond = One
		}
		m := len(si.idx)
		for i := range si.idx {
			cond = and(cond, eqp(paramP(i), si.idx[i]))
		}
		x := paramP(m)
		rel := sub(x, si.off)
		if n != nil && n != si.ln {
			cond = mul(cond, ge(rel), ge(sub(sub(n, One), rel)))
		} else if !si.full() {
			cond = mul(cond, ge(rel), ge(sub(sub(si.ln, One), rel)))
		}
		var put func(path string, t types.Type, v Value)
		put = func(path string, t types.Type, v Value) {
			switch v := v.(type) {
			case *Poly:
				old := I.content(I.st, si.o, path, t)
				I.st.mem[contKey{si.o, path}] = &Content{arity: old.arity, body: ite(cond, v, old.flat())}
			case *StructV:
				u := t.Underlying().(*types.Struct)
				for i := range v.f {
					put(path+"."+u.Field(i).Name(), u.Field(i).Type(), v.f[i])
				}
			default:
				unsup("composite element")
			}
		}
		put(si.path+"[]", si.el, f(rel))
	}
}

func (I *Interp) elemAt(s *Poly, i *Poly) *Poly {
	v, ok := I.loadL(I.elemLvals(s, i)).(*Poly)
	if !ok {
		unsup("composite element")
	}
	return v
}

// lamOf closes the contents of a slice over its index.
func (I *Interp) lamOf(s *Poly) (*Lam, *Poly) {
	n := I.lenOfValue(s)
	w := openVar(n)
	defer closeVar()
	return mkLamN(w, n, I.elemAt(s, atomP(w))), n
}

// mapLen counts the entries of a map built in the run; the length of a map of
// the caller is a function of its presence table.
func (I *Interp) mapLen(m *Poly) *Poly {
	r := Zero
	for _, c := range cases(m) {
		if c.a == nil {
			unsup("length of %s", short(m.String()))
		}
		if c.a.op == "nil" {
			continue
		}
		l, ok := refLoc(c.a)
		if !ok {
			l = I.opaquePtr(c.a)
		}
		hc := I.content(I.st, l.o, l.path+"{?}", types.Typ[types.Bool])
		if l.o.alloc && len(l.idx) == 0 {
			if keys, pres := mapKeys(hc); keys != nil || pres != nil {
				for _, p := range pres {
					r = add(r, mul2(c.cond, p))
				}
				continue
			}
			if hc.flat() == Zero {
				continue
			}
			unsup("length of a map")
		}
		w := openVar(nil)
		has := I.load(I.st, Loc{l.o, l.path + "{?}", append(append([]*Poly{}, l.idx...), atomP(w)), types.Typ[types.Bool]}).(*Poly)
		n := appKP("maplen", KInt, nil, true, mkLamN(w, nil, has))
		closeVar()
		r = add(r, mul2(c.cond, n))
	}
	return r
}

func (I *Interp) builtin(name string, x *ast.CallExpr) []Value {
	switch name {
	case "len", "cap":
		t := I.typeOf(x.Args[0])
		switch u := t.Underlying().(type) {
		case *types.Array:
			return []Value{constP(u.Len())}
		case *types.Pointer:
			return []Value{constP(u.Elem().Underlying().(*types.Array).Len())}
		case *types.Map:
			return []Value{I.mapLen(I.eval(x.Args[0]).(*Poly))}
		case *types.Basic:
			return []Value{strLen(I.eval(x.Args[0]).(*Poly))}
		}
		return []Value{I.lenOfValue(I.eval(x.Args[0]).(*Poly))}
	case "append":
		return []Value{I.appendCall(x)}
	case "copy":
		dst := I.eval(x.Args[0]).(*Poly)
		srcT := I.typeOf(x.Args[1])
		src := I.eval(x.Args[1]).(*Poly)
		if b, ok := srcT.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			unsup("copy from string")
		}
		nd, ns := I.lenOfValue(dst), I.lenOfValue(src)
		n := nd
		if nd != ns {
			n = minp(nd, ns)
		}
		st := I.st.clone()
		I.storeRangeV(dst, n, func(i *Poly) Value {
			sv := I.st
			I.st = st
			defer func() { I.st = sv }()
			return I.loadL(I.elemLvals(src, i))
		})
		return []Value{n}
	case "make":
		t := I.typeOf(x)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			n := I.eval(x.Args[1]).(*Poly)
			if len(x.Args) > 2 {
				I.eval(x.Args[2])
			}
			o, idx := I.allocObj("make", x.Pos(), u.Elem(), true, n, false)
			return []Value{sliceP(o, "", u.Elem(), Zero, n, idx)}
		case *types.Map:
			o, idx := I.allocObj("map", x.Pos(), t, false, nil, false)
			return []Value{refP(o, "", t, idx, false)}
		}
		unsup("make of %v", t)
	case "new":
		t := I.typeOf(x.Args[0])
		o, idx := I.allocObj("new", x.Pos(), t, false, nil, false)
		return []Value{refP(o, "", t, idx, false)}
	case "panic":
		v := I.eval(x.Args[0])
		I.emit(&Ev{Kind: "fatal", Name: "panic", Args: []Value{v}, Pos: x.Pos()})
		I.die(true)
	case "delete":
		t := I.typeOf(x.Args[0]).Underlying().(*types.Map)
		m := I.eval(x.Args[0]).(*Poly)
		k := mapKey(I.convertTo(I.eval(x.Args[1]), I.typeOf(x.Args[1]), t.Key()))
		for _, lv := range I.ptrLvals(m) {
			idx := append(append([]*Poly{}, lv.l.idx...), k)
			I.storeL([]lval{{lv.cond, Loc{lv.l.o, lv.l.path + "{?}", idx, types.Typ[types.Bool]}}}, Zero)
		}
		return nil
	case "complex":
		return []Value{complexP(I.eval(x.Args[0]).(*Poly), I.eval(x.Args[1]).(*Poly))}
	case "real":
		return []Value{reP(I.eval(x.Args[0]).(*Poly))}
	case "imag":
		return []Value{imP(I.eval(x.Args[0]).(*Poly))}
	case "min", "max":
		r := I.eval(x.Args[0]).(*Poly)
		for _, a := range x.Args[1:] {
			v := I.eval(a).(*Poly)
			if name == "min" {
				r = minp(r, v)
			} else {
				r = maxp(r, v)
			}
		}
		return []Value{r}
	case "print", "println":
		for _, a := range x.Args {
			I.eval(a)
		}
		return nil
	case "close", "recover":
		return []Value{nilP()}
	}
	unsup("builtin %s", name)
	return nil
}

// appendCall models append as growth in place.
func (I *Interp) appendCall(x *ast.CallExpr) Value {
	t := I.typeOf(x).Underlying().(*types.Slice)
	s := I.convertTo(I.eval(x.Args[0]), I.typeOf(x.Args[0]), I.typeOf(x)).(*Poly)
	var vals []Value
	var src *Poly
	if x.Ellipsis.IsValid() {
		src = I.eval(x.Args[1]).(*Poly)
		if b, ok := I.typeOf(x.Args[1]).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			unsup("append of string")
		}
	} else {
		for _, a := range x.Args[1:] {
			vals = append(vals, I.convertTo(I.eval(a), I.typeOf(a), t.Elem()))
		}
	}
	cs := cases(s)
	r := Zero
	st0 := I.st.clone()
	for _, c := range cs {
		if c.a == nil {
			unsup("append")
		}
		cond := c.cond
		if len(cs) == 1 {
			cond = One
		}
		if c.a.op == "nil" {
			unsup("append to nil")
		}
		si := I.sliceInfo(c.a)
		if src != nil {
			n := I.lenOfValue(src)
			dst := sliceP(si.o, si.path, si.el, add(si.off, si.ln), n, si.idx)
			if cond != One {
				unsup("conditional append of a slice")
			}
			if c, ok := n.intConst(); ok && c <= 64 {
				for j := int64(0); j < c; j++ {
					sv := I.st
					I.st = st0
					v := I.loadL(I.elemLvals(src, constP(j)))
					I.st = sv
					I.store(I.st, si.elem(add(si.ln, constP(j))), v)
				}
			} else {
				I.storeRangeV(dst, nil, func(i *Poly) Value {
					sv := I.st
					I.st = st0
					defer func() { I.st = sv }()
					return I.loadL(I.elemLvals(src, i))
				})
			}
			r = add(r, mul2(cond, sliceP(si.o, si.path, si.el, si.off, add(si.ln, n), si.idx)))
			continue
		}
		for j, v := range vals {
			I.storeL([]lval{{cond, si.elem(add(si.ln, constP(int64(j))))}}, v)
		}
		r = add(r, mul2(cond, sliceP(si.o, si.path, si.el, si.off, add(si.ln, constP(int64(len(vals)))), si.idx)))
	}
	return r
}

// ---------------------------------------------------------------- library functions

var intrinsics = map[string]Intrinsic{}

func fatal(c *Call) []Value {
	c.I.emit(&Ev{Kind: "fatal", Name: c.name, Fn: c.fn, Args: c.args, Pos: c.pos})
	c.I.die(strings.Contains(c.name, "Panic"))
	return nil
}

func pure1(name string) Intrinsic {
	return func(c *Call) []Value { return []Value{app(name, c.p(0))} }
}

func (I *Interp) freqAt(i *Poly, pos Value) Value { return I.freqFam(i, "freq") }

// freqFam is the slice family a function func(int) []float64 returns: one
// (shared, read-only) slice per index.
func (I *Interp) freqFam(i *Poly, fam string) Value {
	dim := I.cfg.dim
	if dim == nil {
		dim = atomP(symN("DIM", KInt))
	}
	if fam != "freq" {
		dim = atomP(symN("LEN"+fam, KInt))
	}
	o := I.objTab[fam+"fam"]
	if o == nil {
		o = I.newObjRaw(fam+"fam", tF64)
		o.alloc = true
		o.seq = true
		o.nidx = 1
		o.symb = true
		o.lenBody = dim
		o.initFn = func(path string, typ types.Type, n int) Value {
			return appK(fam, KReal, paramP(0), paramP(1))
		}
		I.objTab[fam+"fam"] = o
	}
	return sliceP(o, "", tF64, Zero, dim, []*Poly{i})
}

func (I *Interp) fftCall(name string, s *Poly) {
	lam, n := I.lamOf(s)
	_ = n
	I.storeRange(s, func(i *Poly) *Poly { return app(name, lam, i) })
}

func init() {
	m := intrinsics
	denseIntrinsics(m)
	for g, n := range map[string]string{"Exp": "exp", "Log": "log", "Sin": "sin", "Cos": "cos", "Tan": "tan", "Floor": "floor", "Trunc": "trunc",
		"Ceil": "ceil", "Round": "round", "Sqrt": "sqrt", "Abs": "abs"} {
		m["math."+g] = pure1(n)
	}
	m["math.Pow"] = func(c *Call) []Value { return []Value{powPP(c.p(0), c.p(1))} }
	m["math.Max"] = func(c *Call) []Value { return []Value{maxp(c.p(0), c.p(1))} }
	m["math.Min"] = func(c *Call) []Value { return []Value{minp(c.p(0), c.p(1))} }
	m["math.Sincos"] = func(c *Call) []Value {
		return []Value{appK("sin", KReal, c.p(0)), appK("cos", KReal, c.p(0))}
	}
	m["math.Hypot"] = func(c *Call) []Value {
		return []Value{sqrtP(add(mul2(c.p(0), c.p(0)), mul2(c.p(1), c.p(1))))}
	}
	m["math.Mod"] = func(c *Call) []Value { return []Value{appK("fmod", KReal, c.p(0), c.p(1))} }
	m["math.Inf"] = func(c *Call) []Value { return []Value{mul2(c.p(0), appK("inf", KReal))} }
	m["math/cmplx.Exp"] = pure1("exp")
	m["math/cmplx.Abs"] = pure1("cabs")
	m["math/cmplx.Conj"] = func(c *Call) []Value { return []Value{conjP(c.p(0))} }
	m["math/cmplx.Pow"] = func(c *Call) []Value { return []Value{powPP(c.p(0), c.p(1))} }
	m["math/cmplx.Sqrt"] = pure1("sqrt")
	for _, f := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "os.Exit"} {
		m[f] = fatal
	}
	ft := "(" + modPath + "/pf.FourierTransform)."
	ft2 := "(" + modPath + "/elasticity.FourierTransform)."
	ft3 := "(*" + modPath + "/pfutil.FFTWWrapper)."
	for _, p := range []string{ft, ft2, ft3} {
		m[p+"FFT"] = func(c *Call) []Value { c.I.fftCall("fft", c.p(0)); return []Value{c.args[0]} }
		m[p+"IFFT"] = func(c *Call) []Value { c.I.fftCall("ifft", c.p(0)); return []Value{c.args[0]} }
		m[p+"Freq"] = func(c *Call) []Value { return []Value{c.I.freqAt(c.p(0), nil)} }
	}
	m["github.com/barnex/fftw.PlanZ2Z"] = func(c *Call) []Value {
		lam, _ := c.I.lamOf(c.p(0))
		return []Value{appK("fftwplan", KOther, lam, c.p(1), c.p(2), c.p(3))}
	}
	m["(github.com/barnex/fftw.Plan).Execute"] = func(c *Call) []Value {
		a := c.recv.(*Poly).single()
		if a == nil || a.name != "fftwplan" {
			unsup("execution of an unknown plan")
		}
		in, _ := c.I.lamOf(a.args[1].(*Poly))
		c.I.storeRange(a.args[2].(*Poly), func(i *Poly) *Poly { return appK("dft", KCplx, a.args[0], a.args[3], in, i) })
		return nil
	}
	m["("+modPath+"/pf.Brick).Get"] = func(c *Call) []Value {
		return []Value{appK("brickget", KCplx, c.recv.(*Poly), c.p(0))}
	}
	m["fmt.Sprintf"] = func(c *Call) []Value { return []Value{c.I.sprintf(c)} }
	for _, n := range []string{"fmt.Sprint", "fmt.Sprintln"} {
		n := n
		m[n] = func(c *Call) []Value {
			if p := c.I.sprint(c, n == "fmt.Sprintln"); p != nil {
				return []Value{p}
			}
			return c.I.external(c)
		}
	}
	m["strconv.FormatInt"] = func(c *Call) []Value {
		if b, ok := c.p(1).intConst(); ok && b == 10 {
			return []Value{itoaP(c.p(0))}
		}
		return c.I.external(c)
	}
	m["strconv.Itoa"] = func(c *Call) []Value {
		return []Value{itoaP(c.p(0))}
	}
	m["strconv.FormatFloat"] = func(c *Call) []Value {
		f, _ := c.p(1).intConst()
		k, ok := c.p(2).intConst()
		b, _ := c.p(3).intConst()
		if ok && b == 64 && f != 0 {
			if k == -1 && strings.IndexByte("efgG", byte(f)) >= 0 {
				return []Value{numText(c.p(0))}
			}
			if k >= 0 {
				t := types.Typ[types.Float64]
				return []Value{lifted([]Node{c.p(0)}, func(n []Node) *Poly {
					return fmtOne("%."+strconv.FormatInt(k, 10)+string(rune(f)), boxOf(t, n[0]))
				})}
			}
		}
		return c.I.external(c)
	}
	m["strconv.ParseFloat"] = func(c *Call) []Value {
		if b, ok := c.p(1).intConst(); ok && b == 64 {
			if v := textNum(c.p(0)); v != nil {
				return []Value{v, nilP()}
			}
		}
		if vs := c.I.fold(c); vs != nil {
			return vs
		}
		return c.I.external(c)
	}
	m["strings.ReplaceAll"] = func(c *Call) []Value {
		return []Value{replaceP(c.p(0), c.p(1), c.p(2), constP(-1))}
	}
	m["strings.Replace"] = func(c *Call) []Value {
		return []Value{replaceP(c.p(0), c.p(1), c.p(2), c.p(3))}
	}
	m["errors.New"] = func(c *Call) []Value { return []Value{appK("errors.New", KOther, c.p(0))} }
	m["fmt.Errorf"] = func(c *Call) []Value {
		return []Value{appK("fmt.Errorf", KOther, c.p(0), strP(c.I.siteKey(c.pos)))}
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "log.Printf", "log.Println", "log.Print"} {
		m[n] = func(c *Call) []Value {
			c.I.emit(&Ev{Kind: "print", Name: c.name, Fn: c.fn, Args: c.args, Pos: c.pos})
			if c.sig.Results().Len() == 2 {
				return []Value{Zero, nilP()}
			}
			return nil
		}
	}
	m["gonum.org/v1/gonum/floats.Dot"] = func(c *Call) []Value {
		n := c.I.lenOfValue(c.p(0))
		w := openVar(n)
		defer closeVar()
		return []Value{mkSum(w, n, mul2(c.I.elemAt(c.p(0), atomP(w)), c.I.elemAt(c.p(1), atomP(w))))}
	}
	m["gonum.org/v1/gonum/floats.Norm"] = func(c *Call) []Value {
		n := c.I.lenOfValue(c.p(0))
		if l, ok := c.p(1).intConst(); ok && l == 2 {
			w := openVar(n)
			defer closeVar()
			e := c.I.elemAt(c.p(0), atomP(w))
			return []Value{sqrtP(mkSum(w, n, mul2(e, e)))}
		}
		lam, _ := c.I.lamOf(c.p(0))
		return []Value{appKP("norm", KReal, nil, true, lam, c.p(1))}
	}
}

// sprintf splits constant formats into a concatenation.
func (I *Interp) sprintf(c *Call) *Poly {
	f, ok := c.p(0).strConst()
	a := c.p(1).single()
	if !ok || a == nil || a.op != "slice" {
		return appK("sprintf", KOther, c.p(0), strP(I.siteKey(c.pos)))
	}
	si := I.sliceInfo(a)
	n, okn := si.ln.intConst()
	if !okn {
		return appK("sprintf", KOther, c.p(0), c.p(1))
	}
	var parts []Node
	arg := int64(0)
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		star := ""
		for j < len(f) && strings.IndexByte("+-# 0123456789.*", f[j]) >= 0 {
			if f[j] == '*' {
				w, ok := int64(0), false
				if arg < n {
					w, ok = unboxed(I.load(I.st, si.elem(constP(arg))).(*Poly)).intConst()
				}
				arg++
				if !ok {
					return appK("sprintf", KOther, c.p(0), strP(I.siteKey(c.pos)))
				}
				star += strconv.FormatInt(w, 10)
			} else {
				star += string(f[j])
			}
			j++
		}
		if j >= len(f) {
			lit += f[i:]
			break
		}
		if f[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		verb := "%" + star + string(f[j])
		if arg >= n {
			parts = append(parts, strP(lit+"%!"+verb))
			lit = ""
			i = j
			continue
		}
		v := I.load(I.st, si.elem(constP(arg))).(*Poly)
		arg++
		if lit != "" {
			parts = append(parts, strP(lit))
			lit = ""
		}
		parts = append(parts, lifted([]Node{v}, func(n []Node) *Poly { return fmtOne(verb, n[0].(*Poly)) }))
		i = j
	}
	if lit != "" || len(parts) == 0 {
		parts = append(parts, strP(lit))
	}
	return concat(parts...)
}

// sprint joins operands of known types as fmt.Sprint and fmt.Sprintln do.
func (I *Interp) sprint(c *Call, line bool) *Poly {
	a := c.p(0).single()
	if a == nil || a.op != "slice" {
		return nil
	}
	si := I.sliceInfo(a)
	n, ok := si.ln.intConst()
	if !ok {
		return nil
	}
	parts := []Node{strP("")}
	prevStr := true
	for i := int64(0); i < n; i++ {
		v := I.load(I.st, si.elem(constP(i))).(*Poly)
		b := v.single()
		if b == nil || b.op != "box" {
			return nil
		}
		t, ok := b.pay.(*boxPay).typ.Underlying().(*types.Basic)
		if !ok {
			return nil
		}
		isStr := t.Info()&types.IsString != 0
		if i > 0 && (line || !isStr && !prevStr) {
			parts = append(parts, strP(" "))
		}
		prevStr = isStr
		parts = append(parts, lifted([]Node{v}, func(n []Node) *Poly { return fmtOne("%v", n[0].(*Poly)) }))
	}
	if line {
		parts = append(parts, strP("\n"))
	}
	return concat(parts...)
}

// itoaP is the decimal text of an integer, folded when it is a constant.
func itoaP(n Node) *Poly {
	return lifted([]Node{n}, func(n []Node) *Poly {
		if k, ok := n[0].(*Poly).intConst(); ok {
			return strP(strconv.FormatInt(k, 10))
		}
		return atomP(rawAtom("app", "itoa", KOther, n...))
	})
}

func init() { reapply["itoa"] = func(n []Node) *Poly { return itoaP(n[0]) } }

// numText is the shortest text that reads back as the same number.
func numText(v *Poly) *Poly {
	return lifted([]Node{v}, func(n []Node) *Poly {
		if q, ok := n[0].(*Poly).isConst(); ok {
			x, _ := q.Float64()
			return strP(strconv.FormatFloat(x, 'g', -1, 64))
		}
		return atomP(rawAtom("app", "numtext", KOther, n...))
	})
}

func init() { reapply["numtext"] = func(n []Node) *Poly { return numText(n[0].(*Poly)) } }

func boxOf(t types.Type, n ...Node) *Poly {
	a := rawAtom("box", t.String(), KOther, n...)
	if a.pay == nil {
		a.pay = &boxPay{t}
	}
	return atomP(a)
}

func unboxed(v *Poly) *Poly {
	if a := v.single(); a != nil && a.op == "box" && len(a.args) == 1 {
		if p, ok := a.args[0].(*Poly); ok {
			return p
		}
	}
	return v
}

// textNum is the number a text stands for, when that is known exactly.
func textNum(s *Poly) *Poly {
	a := s.single()
	if a == nil {
		return nil
	}
	switch {
	case a.op == "app" && (a.name == "numtext" || a.name == "itoa"):
		return a.args[0].(*Poly)
	case a.op == "app" && a.name == "fmt":
		verb, _ := a.args[0].(*Poly).strConst()
		k, w := strings.IndexByte(verb, '.'), 0
		if k < 0 {
			return nil
		}
		w, err := strconv.Atoi(verb[k+1 : len(verb)-1])
		if err != nil {
			return nil
		}
		switch verb[len(verb)-1] {
		case 'e', 'E':
			if w >= 16 {
				return unboxed(a.args[1].(*Poly))
			}
		case 'g', 'G':
			if w >= 17 {
				return unboxed(a.args[1].(*Poly))
			}
		}
	}
	return nil
}

func fmtOne(verb string, v *Poly) *Poly {
	if a := v.single(); a != nil && a.op == "box" {
		t := a.pay.(*boxPay).typ
		if len(a.args) == 1 {
			if p, ok := a.args[0].(*Poly); ok {
				if b, ok := t.Underlying().(*types.Basic); ok {
					if s, ok := p.strConst(); ok && b.Info()&types.IsString != 0 && strings.IndexByte("svq", verb[len(verb)-1]) >= 0 {
						return strP(fmt.Sprintf(verb, s))
					}
					if k, ok := p.intConst(); ok && b.Info()&types.IsInteger != 0 && strings.IndexByte("dv", verb[len(verb)-1]) >= 0 {
						return strP(fmt.Sprintf(verb, k))
					}
					if q, ok := p.isConst(); ok && b.Info()&types.IsFloat != 0 && strings.IndexByte("efgEGv", verb[len(verb)-1]) >= 0 {
						x, _ := q.Float64()
						return strP(fmt.Sprintf(verb, x))
					}
					if b.Kind() == types.Float64 && (verb == "%v" || verb == "%g") {
						return numText(p)
					}
					if b.Info()&types.IsString != 0 && (verb == "%s" || verb == "%v") {
						return p
					}
					if b.Info()&types.IsInteger != 0 && (verb == "%d" || verb == "%v") {
						return itoaP(p)
					}
				}
			}
		}
	}
	return appK("fmt", KOther, strP(verb), v)
}

var pureFns = map[string]bool{
	"strings.Split": true, "strings.Contains": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Join": true,
	"strings.TrimSpace": true, "strings.ContainsAny": true, "strings.Index": true, "strings.Count": true, "strings.Trim": true, "strings.Fields": true, "strings.ToLower": true,
	"math.Gamma": true, "(gonum.org/v1/gonum/integrate/quad.Legendre).FixedLocationSingle": true, "math.Atan": true, "math.Atan2": true, "math.Tanh": true, "math.Sinh": true, "math.Cosh": true, "math.Asin": true,
	"math.Acos": true, "math.IsNaN": true, "math.IsInf": true, "math.Cbrt": true, "math.Erf": true, "math.Log10": true, "math.Log2": true,
	"math.Signbit": true, "math.Copysign": true, "math.NaN": true, "math.Exp2": true, "math.Expm1": true, "math.Log1p": true, "math.Lgamma": true,
	"regexp.MustCompile": true, "(*regexp.Regexp).FindStringSubmatch": true, "(*regexp.Regexp).FindString": true,
	"(*regexp.Regexp).FindAllString": true, "(*regexp.Regexp).FindAllStringSubmatch": true, "(*regexp.Regexp).MatchString": true, "(*regexp.Regexp).FindAllStringIndex": true,
	"(*regexp.Regexp).FindStringIndex": true, "(*regexp.Regexp).ReplaceAllString": true,
	"strconv.ParseFloat": true, "strconv.FormatFloat": true, "strconv.Atoi": true, "strconv.ParseInt": true,
	"path/filepath.Ext": true, "path/filepath.Base": true, "path/filepath.Join": true, "path/filepath.Dir": true, "path/filepath.Clean": true, "path.Base": true, "path.Dir": true, "path.Ext": true, "path.Join": true, "reflect.TypeOf": true,
	"math/cmplx.Phase": true, "math/cmplx.Sin": true, "math/cmplx.Cos": true, "math/cmplx.Log": true, "math/cmplx.Inf": true, "math/cmplx.NaN": true, "math/cmplx.IsNaN": true,
}

// external handles calls without analysed body.
func (I *Interp) external(c *Call) []Value {
	res := c.sig.Results()
	var nodes []Node
	if c.recv != nil {
		nodes = append(nodes, flatten(c.recv)...)
	}
	isPure := pureFns[c.name]
	noSite := false
	if I.cfg.pureIface && c.sig.Recv() != nil && types.IsInterface(c.sig.Recv().Type()) {
		noSite = true
	}
	if I.cfg.opaquePure && I.prog.Decls[c.fn] != nil {
		noSite = true
		if I.opq != nil {
			I.opq[plainName(c.fn)] = true
		}
	}
	for ai, a := range c.args {
		if p, ok := a.(*Poly); ok && (isPure || noSite) {
			s := p.single()
			isSl := s != nil && s.op == "slice"
			if !isSl && c.sig.Params().Len() > 0 {
				_, isSl = c.sig.Params().At(min2(ai, c.sig.Params().Len()-1)).Type().Underlying().(*types.Slice)
				isSl = isSl && !c.sig.Variadic()
			}
			if isSl {
				lam := func() (l Node) {
					defer func() {
						if r := recover(); r != nil {
							l = nil
						}
					}()
					x, _ := I.lamOf(p)
					return x
				}()
				if lam != nil {
					nodes = append(nodes, lam)
					continue
				}
				I.taint = "argument of " + c.name
			}
		}
		nodes = append(nodes, flatten(a)...)
	}
	name := c.name
	if noSite && I.cfg.snapshot != nil && !(I.cfg.noSnap != nil && c.fn != nil && I.cfg.noSnap(c.fn)) {
		nodes = append(nodes, I.cfg.snapshot(I)...)
	}
	if !isPure && !noSite {
		if c.fn != nil && c.fn.Pkg() != nil && !strings.HasPrefix(c.fn.Pkg().Path(), modPath) {
			unmodelled[c.name] = true
			I.checkPtrArgs(c)
		}
		name += "@" + I.siteKey(c.pos)
		nodes = append(nodes, polyNodes(I.loopIdx())...)
	}
	var vals []Value
	for i := 0; i < res.Len(); i++ {
		if I.cfg.freshRet && I.prog.Decls[c.fn] != nil {
			if v := I.freshResult(c, name, i, res.At(i).Type(), nodes); v != nil {
				vals = append(vals, v)
				continue
			}
		}
		vals = append(vals, I.opaqueResult(name, i, res.At(i).Type(), nodes))
	}
	if !isPure {
		I.emit(&Ev{Kind: "call", Name: c.name, Fn: c.fn, Recv: c.recv, Args: c.args, Res: vals, Pos: c.pos, Ell: c.ell})
		if I.cfg.readOnly == nil || !I.cfg.readOnly(c.name) {
			for i, a := range c.args {
				I.havocArg(c, i, a, nodes, noSite)
			}
		}
	}
	return vals
}

// freshResult: a function kept opaque returns newly allocated storage holding
// values determined by its arguments.
func (I *Interp) freshResult(c *Call, name string, i int, t types.Type, nodes []Node) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{typ: t}
		for j := 0; j < u.NumFields(); j++ {
			nm := name + "." + u.Field(j).Name()
			v := I.freshResult(c, nm, i, u.Field(j).Type(), nodes)
			if v == nil {
				v = I.opaqueResult(nm, i, u.Field(j).Type(), nodes)
			}
			s.f = append(s.f, v)
		}
		return s
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsNumeric == 0 {
			return nil
		}
		k, _ := basicKind(u.Elem())
		var n *Poly
		if I.cfg.lenOf != nil {
			n = I.cfg.lenOf(plainName(c.fn), nil)
		}
		if n == nil {
			n = appKP("len:"+name+strconv.Itoa(i), KInt, nil, true, nodes...)
		}
		o, idx := I.allocObj("ret:"+name+strconv.Itoa(i), c.pos, u.Elem(), true, n, false)
		s := sliceP(o, "", u.Elem(), Zero, n, idx)
		I.storeRange(s, func(x *Poly) *Poly {
			return appK("elem:"+name+strconv.Itoa(i), k, append(append([]Node{}, nodes...), x)...)
		})
		return s
	}
	return nil
}

func (I *Interp) opaqueResult(name string, i int, t types.Type, nodes []Node) Value {
	nm := name
	if i > 0 {
		nm += "#" + string(rune('0'+i))
	}
	if isDense(t) {
		unsup("matrix result of %s", name)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{typ: t}
		for j := 0; j < u.NumFields(); j++ {
			s.f = append(s.f, I.opaqueResult(nm+"."+u.Field(j).Name(), 0, u.Field(j).Type(), nodes))
		}
		return s
	case *types.Array:
		unsup("array result of %s", name)
	}
	k, uns := basicKind(t)
	var pay interface{}
	if k == KOther {
		pay = t
	}
	return appKP(nm, k, pay, uns, nodes...)
}

// havocArg: an unknown callee may overwrite what it is given a reference to.
// unmodelled names functions outside the module that were called without a
// transfer function: their results are named by their call site only.
var unmodelled = map[string]bool{}

// checkPtrArgs notes calls that may write through a pointer argument.
func (I *Interp) checkPtrArgs(c *Call) {
	n := c.name
	if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "fmt.Errorf") || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "(*log.") || strings.HasPrefix(n, "sync") || strings.HasPrefix(n, "(*sync") {
		return
	}
	for _, a := range c.args {
		p, ok := a.(*Poly)
		if !ok {
			continue
		}
		s := p.single()
		if s != nil && s.op == "box" && len(s.args) == 1 {
			q, ok := s.args[0].(*Poly)
			if !ok {
				continue
			}
			s = q.single()
		}
		if s != nil && s.op == "ref" {
			I.taint = "pointer argument of " + n
		}
	}
}

// onlyIn names an unmodelled function of which a result occurs in a but not in b.
func onlyIn(a, b *Poly) string {
	for n := range unmodelled {
		x, y := map[string]bool{}, map[string]bool{}
		appNames(a, n+"@", x, map[Node]bool{})
		if len(x) == 0 {
			continue
		}
		appNames(b, n+"@", y, map[Node]bool{})
		for k := range x {
			if !y[k] {
				return n
			}
		}
	}
	return ""
}

func (I *Interp) havocArg(c *Call, i int, a Value, nodes []Node, noSite bool) {
	p, ok := a.(*Poly)
	if !ok {
		return
	}
	t := c.sig.Params().At(min2(i, c.sig.Params().Len()-1)).Type()
	if sl, ok := t.Underlying().(*types.Slice); ok && !c.sig.Variadic() {
		if _, basic := sl.Elem().Underlying().(*types.Basic); !basic {
			return
		}
		if b := sl.Elem().Underlying().(*types.Basic); b.Kind() == types.String {
			return
		}
		k, _ := basicKind(sl.Elem())
		nm := c.name + "@" + I.siteKey(c.pos) + "/arg" + string(rune('0'+i))
		if noSite {
			nm = c.name + "/arg" + string(rune('0'+i))
		}
		I.storeRange(p, func(x *Poly) *Poly {
			return appK(nm, k, append(append([]Node{}, nodes...), x)...)
		})
	}
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// callOpaque calls an unknown function value: results are uninterpreted
// functions of the arguments (and of the visible state when cfg says so);
// slice parameters of numbers are outputs.
func (I *Interp) callOpaque(a *Atom, sig *types.Signature, args []Value, pos token.Pos, x *ast.CallExpr) []Value {
	if strings.HasPrefix(a.name, "φ") {
		unsup("call of a loop-carried function value")
	}
	// frequency functions
	if sig.Params().Len() == 1 && sig.Results().Len() == 1 {
		if b, ok := sig.Params().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			if s, ok := sig.Results().At(0).Type().Underlying().(*types.Slice); ok {
				if e, ok := s.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Float64 {
					if strings.Contains(a.name, "Conductivity") {
						return []Value{I.freqFam(args[0].(*Poly), "conductivity")}
					}
					return []Value{I.freqAt(args[0].(*Poly), nil)}
				}
			}
		}
	}
	nodes := []Node{atomP(a)}
	type outp struct {
		i int
		s *Poly
	}
	var outs []outp
	for i, v := range args {
		t := sig.Params().At(min2(i, sig.Params().Len()-1)).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok && !sig.Variadic() {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
				outs = append(outs, outp{i, v.(*Poly)})
				if I.cfg.opaqueReadsOut != nil && I.cfg.opaqueReadsOut(a.name) {
					l, _ := I.lamOf(v.(*Poly))
					nodes = append(nodes, l)
				}
				continue
			}
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			continue
		}
		nodes = append(nodes, flatten(v)...)
	}
	if I.cfg.snapshot != nil {
		nodes = append(nodes, I.cfg.snapshot(I)...)
	}
	var vals []Value
	for i := 0; i < sig.Results().Len(); i++ {
		vals = append(vals, I.opaqueResult("call", i, sig.Results().At(i).Type(), nodes))
	}
	I.emit(&Ev{Kind: "call", Name: "func:" + a.String(), Args: args, Recv: atomP(a), Res: vals, Pos: pos})
	for _, o := range outs {
		k, _ := basicKind(I.sliceInfoP(o.s).el)
		nm := "callout" + string(rune('0'+o.i))
		I.storeRange(o.s, func(i *Poly) *Poly { return appK(nm, k, append(append([]Node{}, nodes...), i)...) })
	}
	return vals
}

func (I *Interp) sliceInfoP(p *Poly) sliceI {
	for _, c := range cases(p) {
		if c.a != nil && c.a.op != "nil" {
			return I.sliceInfo(c.a)
		}
	}
	unsup("slice value")
	return sliceI{}
}

// replaceP is strings.Replace, carried out when everything is known.
func replaceP(s, old, new, n *Poly) *Poly {
	if a, ok := s.strConst(); ok {
		if b, ok := old.strConst(); ok {
			if d, ok := new.strConst(); ok {
				if k, ok := n.intConst(); ok {
					return strP(strings.Replace(a, b, d, int(k)))
				}
			}
		}
	}
	return appK("strings.Replace", KOther, s, old, new, n)
}
