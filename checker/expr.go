package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
)

// ---------------------------------------------------------------- constants

var constCache = map[string]*Poly{}

// constToPoly recovers the exact value a floating constant stands for:
// a simple fraction, a simple multiple of a power of pi, or its shortest
// decimal form.
func constToPoly(v constant.Value) *Poly {
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return One
		}
		return Zero
	case constant.String:
		return strP(constant.StringVal(v))
	case constant.Int:
		r := new(big.Rat)
		r.SetString(v.ExactString())
		return ratP(r)
	case constant.Float:
		key := v.ExactString()
		if p, ok := constCache[key]; ok {
			return p
		}
		f, _ := constant.Float64Val(v)
		p := floatToPoly(f)
		constCache[key] = p
		return p
	case constant.Complex:
		return complexP(constToPoly(constant.ToFloat(constant.Real(v))), constToPoly(constant.ToFloat(constant.Imag(v))))
	}
	unsup("constant %v", v)
	return nil
}

func simpleFrac(f float64, maxDen int64, ulps float64) (*big.Rat, bool) {
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return nil, false
	}
	x := f
	h0, h1 := int64(0), int64(1)
	k0, k1 := int64(1), int64(0)
	for i := 0; i < 40; i++ {
		fl := math.Floor(x)
		if math.Abs(fl) > 1e12 {
			break
		}
		a := int64(fl)
		h := a*h1 + h0
		k := a*k1 + k0
		if k > maxDen || k < 0 {
			break
		}
		h0, h1, k0, k1 = h1, h, k1, k
		g := float64(h) / float64(k)
		if math.Abs(g-f) <= ulps*math.Abs(f)*2.3e-16 {
			return big.NewRat(h, k), true
		}
		d := x - fl
		if d == 0 {
			break
		}
		x = 1 / d
	}
	return nil, false
}

func floatToPoly(f float64) *Poly {
	if f == 0 {
		return Zero
	}
	if f == math.Trunc(f) && math.Abs(f) < 1e15 {
		return constP(int64(f))
	}
	if r, ok := simpleFrac(f, 5000, 0.5); ok {
		return ratP(r)
	}
	for _, e := range []int{1, 2, -1, -2, 3} {
		if r, ok := simpleFrac(f/math.Pow(math.Pi, float64(e)), 1000, 3); ok && r.Num().IsInt64() {
			return mul2(ratP(r), powP(atomP(PiA), e))
		}
	}
	r := new(big.Rat)
	r.SetString(strconv.FormatFloat(f, 'g', -1, 64))
	return ratP(r)
}

// ---------------------------------------------------------------- expressions

func (I *Interp) cond(e ast.Expr) *Poly {
	p, ok := I.eval(e).(*Poly)
	if !ok {
		unsup("condition")
	}
	return p
}

func (I *Interp) evalN(e ast.Expr) []Value {
	if c, ok := unparen(e).(*ast.CallExpr); ok {
		return I.call(c)
	}
	return []Value{I.eval(e)}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (I *Interp) evalMulti(e ast.Expr, n int) []Value {
	switch x := unparen(e).(type) {
	case *ast.CallExpr:
		return I.call(x)
	case *ast.IndexExpr: // v, ok := m[k]
		t := I.typeOf(x.X).Underlying().(*types.Map)
		m := I.eval(x.X).(*Poly)
		k := mapKey(I.convertTo(I.eval(x.Index), I.typeOf(x.Index), t.Key()))
		v, ok := I.mapGet(m, k, t)
		return []Value{v, ok}
	case *ast.TypeAssertExpr:
		v := I.eval(x.X).(*Poly)
		a, b := I.assertType(v, I.typeOf(x.Type))
		return []Value{a, b}
	}
	unsup("multi-value expression %T", e)
	return nil
}

func (I *Interp) mapGet(m *Poly, k *Poly, t *types.Map) (Value, *Poly) {
	var cc []*Poly
	var vs, oks []Value
	for _, c := range cases(m) {
		if c.a != nil && c.a.op == "nil" {
			cc = append(cc, c.cond)
			vs = append(vs, I.zeroValue(t.Elem()))
			oks = append(oks, Zero)
			continue
		}
		l, ok := refLoc(c.a)
		if !ok {
			l = I.opaquePtr(c.a)
		}
		idx := append(append([]*Poly{}, l.idx...), k)
		has := I.load(I.st, Loc{l.o, l.path + "{?}", idx, types.Typ[types.Bool]}).(*Poly)
		v := I.load(I.st, Loc{l.o, l.path + "{}", idx, t.Elem()})
		if l.o.alloc {
			v = iteValue(has, v, I.zeroValue(t.Elem()))
		}
		cc = append(cc, c.cond)
		vs = append(vs, v)
		oks = append(oks, has)
	}
	if len(vs) == 1 {
		return vs[0], oks[0].(*Poly)
	}
	return combine(cc, vs), combine(cc, oks).(*Poly)
}

func (I *Interp) eval(e ast.Expr) Value {
	info := I.fr.pkg.Info
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		return constToPoly(tv.Value)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return I.eval(x.X)
	case *ast.Ident:
		if x.Name == "nil" {
			if _, ok := info.Uses[x].(*types.Nil); ok {
				return nilP()
			}
		}
		switch o := info.Uses[x].(type) {
		case *types.Var:
			return I.loadVar(o)
		case *types.Func:
			return I.funcValue(o)
		case *types.Nil:
			return nilP()
		}
		if o, ok := info.Defs[x].(*types.Var); ok {
			return I.loadVar(o)
		}
		unsup("identifier %s", x.Name)
	case *ast.BasicLit:
		unsup("literal")
	case *ast.FuncLit:
		return I.closure(x)
	case *ast.CompositeLit:
		return I.composite(x, I.typeOf(x))
	case *ast.StarExpr:
		return I.loadPtr(I.eval(x.X).(*Poly))
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			if cl, ok := unparen(x.X).(*ast.CompositeLit); ok {
				t := I.typeOf(cl)
				v := I.composite(cl, t)
				o, idx := I.allocObj("new", x.Pos(), t, false, nil, false)
				I.store(I.st, Loc{o, "", idx, t}, v)
				return refP(o, "", t, idx, false)
			}
			r := Zero
			for _, l := range I.lvalsOf(x.X) {
				r = add(r, mul2(l.cond, refP(l.l.o, l.l.path, l.l.typ, l.l.idx, false)))
			}
			return r
		case token.SUB:
			return neg(I.eval(x.X).(*Poly))
		case token.ADD:
			return I.eval(x.X)
		case token.NOT:
			return not(I.eval(x.X).(*Poly))
		case token.XOR:
			return appK("bitnot", KInt, I.eval(x.X).(*Poly))
		}
		unsup("unary %s", x.Op)
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND, token.LOR:
			l := I.cond(x.X)
			if x.Op == token.LAND && l == Zero {
				return Zero
			}
			if x.Op == token.LOR && l == One {
				return One
			}
			var r *Poly
			c := l
			if x.Op == token.LOR {
				c = not(l)
			}
			if hasCall(x.Y) {
				I.fork(c, x.Y.Pos(), func() bool { r = I.cond(x.Y); return true }, func() bool { return true })
			} else {
				r = I.cond(x.Y)
			}
			if x.Op == token.LAND {
				return and(l, r)
			}
			return or(l, r)
		}
		lv, rv := I.eval(x.X), I.eval(x.Y)
		lt_, rt := I.typeOf(x.X), I.typeOf(x.Y)
		l, ok1 := lv.(*Poly)
		r, ok2 := rv.(*Poly)
		if !ok1 || !ok2 {
			if x.Op == token.EQL || x.Op == token.NEQ {
				a, b := flatten(lv), flatten(rv)
				if len(a) == len(b) {
					c := One
					for i := range a {
						pa, o1 := a[i].(*Poly)
						pb, o2 := b[i].(*Poly)
						if !o1 || !o2 {
							unsup("comparison")
						}
						c = and(c, eqp(pa, pb))
					}
					if x.Op == token.NEQ {
						return not(c)
					}
					return c
				}
			}
			unsup("operator on composite")
		}
		switch x.Op {
		case token.EQL, token.NEQ:
			// interface vs concrete
			if types.IsInterface(lt_) && !types.IsInterface(rt) {
				r = I.convertTo(r, rt, lt_).(*Poly)
			} else if types.IsInterface(rt) && !types.IsInterface(lt_) {
				l = I.convertTo(l, lt_, rt).(*Poly)
			}
			c := eqp(l, r)
			if x.Op == token.NEQ {
				return not(c)
			}
			return c
		}
		return I.binop(x.Op, l, r, lt_)
	case *ast.SelectorExpr:
		return I.selector(x)
	case *ast.IndexExpr:
		switch t := I.typeOf(x.X).Underlying().(type) {
		case *types.Slice:
			s := I.eval(x.X).(*Poly)
			i := I.eval(x.Index).(*Poly)
			return I.loadL(I.elemLvals(s, i))
		case *types.Array:
			v := I.eval(x.X)
			i := I.eval(x.Index).(*Poly)
			if a, ok := v.(*ArrV); ok {
				return I.arrElem(a, i, t.Elem())
			}
			unsup("array index")
		case *types.Pointer:
			return I.loadL(I.lvalsOf(x))
		case *types.Map:
			m := I.eval(x.X).(*Poly)
			k := mapKey(I.convertTo(I.eval(x.Index), I.typeOf(x.Index), t.Key()))
			v, _ := I.mapGet(m, k, t)
			return v
		case *types.Basic:
			sv, iv := I.eval(x.X).(*Poly), I.eval(x.Index).(*Poly)
			if str, ok := sv.strConst(); ok {
				if n, ok := iv.intConst(); ok {
					if n < 0 || int(n) >= len(str) {
						I.die(true)
					}
					return constP(int64(str[n]))
				}
			}
			return appK("charat", KInt, sv, iv)
		}
		unsup("index of %v", I.typeOf(x.X))
	case *ast.SliceExpr:
		return I.sliceExpr(x)
	case *ast.CallExpr:
		v := I.call(x)
		if len(v) == 0 {
			return nil
		}
		return v[0]
	case *ast.TypeAssertExpr:
		v := I.eval(x.X).(*Poly)
		a, _ := I.assertType(v, I.typeOf(x.Type))
		return a
	}
	unsup("expression %T", e)
	return nil
}

func hasCall(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			r = true
		}
		return !r
	})
	return r
}

func (I *Interp) arrElem(a *ArrV, i *Poly, t types.Type) Value {
	// place into a temporary to reuse load
	o := I.newObjRaw("arrtmp", a.typ)
	o.alloc = true
	st := &State{mem: map[contKey]*Content{}}
	for k, c := range a.leaves {
		st.mem[contKey{o, k}] = c
	}
	return I.load(st, Loc{o, "[]", []*Poly{i}, t})
}

func (I *Interp) sliceExpr(x *ast.SliceExpr) Value {
	var lo, hi *Poly
	t := I.typeOf(x.X)
	if x.Low != nil {
		lo = I.eval(x.Low).(*Poly)
	}
	if lo == nil {
		lo = Zero
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := I.eval(x.X).(*Poly)
		if x.High != nil {
			hi = I.eval(x.High).(*Poly)
		} else {
			hi = strLen(s)
		}
		if lo == Zero && x.High == nil {
			return s
		}
		if str, ok := s.strConst(); ok {
			l, ok1 := lo.intConst()
			h, ok2 := hi.intConst()
			if ok1 && ok2 {
				if l < 0 || h < l || int(h) > len(str) {
					I.die(true)
				}
				return strP(str[l:h])
			}
		}
		return appK("substr", KOther, s, lo, hi)
	}
	var sp *Poly
	switch u := t.Underlying().(type) {
	case *types.Slice:
		sp = I.eval(x.X).(*Poly)
	case *types.Array:
		r := Zero
		for _, l := range I.lvalsOf(x.X) {
			r = add(r, mul2(l.cond, sliceP(l.l.o, l.l.path, u.Elem(), Zero, constP(u.Len()), l.l.idx)))
		}
		sp = r
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		r := Zero
		for _, l := range I.ptrLvals(I.eval(x.X).(*Poly)) {
			r = add(r, mul2(l.cond, sliceP(l.l.o, l.l.path, at.Elem(), Zero, constP(at.Len()), l.l.idx)))
		}
		sp = r
	default:
		unsup("slice of %v", t)
	}
	if x.High != nil {
		hi = I.eval(x.High).(*Poly)
	}
	r := Zero
	for _, c := range cases(sp) {
		si := I.sliceInfo(c.a)
		h := hi
		if h == nil {
			h = si.ln
		}
		r = add(r, mul2(c.cond, sliceP(si.o, si.path, si.el, add(si.off, lo), sub(h, lo), si.idx)))
	}
	return r
}

func strLen(s *Poly) *Poly {
	if c, ok := s.strConst(); ok {
		return constP(int64(len(c)))
	}
	return appKP("strlen", KInt, nil, true, s)
}

func (I *Interp) binop(op token.Token, l, r *Poly, t types.Type) *Poly {
	b, _ := t.Underlying().(*types.Basic)
	isStr := b != nil && b.Info()&types.IsString != 0
	isInt := b != nil && b.Info()&types.IsInteger != 0
	switch op {
	case token.ADD:
		if isStr {
			return concat(l, r)
		}
		return add(l, r)
	case token.SUB:
		return sub(l, r)
	case token.MUL:
		return mul2(l, r)
	case token.QUO:
		if isInt {
			return quo(l, r)
		}
		return div(l, r)
	case token.REM:
		return mod(l, r)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStr {
			if a, ok := l.strConst(); ok {
				if b, ok := r.strConst(); ok {
					switch op {
					case token.GTR:
						return boolP(a > b)
					case token.LSS:
						return boolP(a < b)
					case token.GEQ:
						return boolP(a >= b)
					}
					return boolP(a <= b)
				}
			}
			switch op {
			case token.GTR:
				return appK("strlt", KBool, r, l)
			case token.LSS:
				return appK("strlt", KBool, l, r)
			case token.GEQ:
				return not(appK("strlt", KBool, l, r))
			default:
				return not(appK("strlt", KBool, r, l))
			}
		}
		switch op {
		case token.LSS:
			return lt(l, r)
		case token.LEQ:
			return le(l, r)
		case token.GTR:
			return lt(r, l)
		default:
			return le(r, l)
		}
	case token.EQL:
		return eqp(l, r)
	case token.NEQ:
		return not(eqp(l, r))
	case token.SHL:
		if c, ok := r.intConst(); ok && c < 62 {
			return scale(l, new(big.Rat).SetInt64(1<<uint(c)))
		}
	case token.SHR:
		if c, ok := r.intConst(); ok && c < 62 && provGE(l, 2) {
			return quo(l, constP(1<<uint(c)))
		}
	case token.AND:
		if c, ok := r.intConst(); ok && c == 1 && provGE(l, 2) {
			return mod(l, constP(2))
		}
	}
	return appK("op"+op.String(), KInt, l, r)
}

func (I *Interp) selector(x *ast.SelectorExpr) Value {
	info := I.fr.pkg.Info
	sel := info.Selections[x]
	if sel == nil {
		switch o := info.Uses[x.Sel].(type) {
		case *types.Var:
			return I.loadVar(o)
		case *types.Func:
			return I.funcValue(o)
		}
		unsup("qualified identifier %s", x.Sel.Name)
	}
	switch sel.Kind() {
	case types.FieldVal:
		// operand may be a non-addressable struct value
		if _, ok := I.typeOf(x.X).Underlying().(*types.Pointer); !ok {
			switch unparen(x.X).(type) {
			case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
			default:
				v := I.eval(x.X)
				return I.fieldOf(v, sel.Index())
			}
			if ix, ok := unparen(x.X).(*ast.IndexExpr); ok {
				if _, m := I.typeOf(ix.X).Underlying().(*types.Map); m {
					return I.fieldOf(I.eval(x.X), sel.Index())
				}
			}
		}
		return I.loadL(I.fieldLvals(I.baseLvals(x.X), sel.Recv(), sel.Index()))
	case types.MethodVal:
		fn := sel.Obj().(*types.Func)
		recv := I.recvFor(x.X, sel, fn)
		return I.boundValue(fn, recv, fn.Type().(*types.Signature).Recv().Type())
	}
	unsup("method expression")
	return nil
}

func (I *Interp) boundValue(fn *types.Func, recv Value, rt types.Type) *Poly {
	args := flatten(recv)
	return lifted(args, func(n []Node) *Poly {
		a := rawAtom("bound", fn.FullName(), KOther, n...)
		if a.pay == nil {
			a.pay = &boundPay{fn, rt}
		}
		return atomP(a)
	})
}

func (I *Interp) fieldOf(v Value, index []int) Value {
	for _, i := range index {
		switch x := v.(type) {
		case *StructV:
			v = x.f[i]
		case *Poly:
			sv, ok := I.loadPtr(x).(*StructV)
			if !ok {
				unsup("field of pointer")
			}
			v = sv.f[i]
		default:
			unsup("field of %T", v)
		}
	}
	return v
}

func (I *Interp) funcValue(o *types.Func) *Poly {
	a := rawAtom("func", o.FullName(), KOther)
	a.pay = o
	return atomP(a)
}

func (I *Interp) closure(x *ast.FuncLit) *Poly {
	info := I.fr.pkg.Info
	seen := map[types.Object]bool{}
	var vars []types.Object
	ast.Inspect(x, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if o, ok := info.Uses[id].(*types.Var); ok && !seen[o] {
				if _, in := I.fr.env[o]; in && (o.Pos() < x.Pos() || o.Pos() > x.End()) {
					seen[o] = true
					vars = append(vars, o)
				}
			}
		}
		return true
	})
	var args []Node
	for _, v := range vars {
		args = append(args, I.fr.env[v])
	}
	a := rawAtom("clos", I.siteKey(x.Pos()), KOther, args...)
	if a.pay == nil {
		a.pay = &closPay{lit: x, vars: vars, pkg: I.fr.pkg, site: I.fr.name}
	}
	return atomP(a)
}

func (I *Interp) composite(x *ast.CompositeLit, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Pointer: // elided &T in nested literal
		v := I.composite(x, u.Elem())
		o, idx := I.allocObj("new", x.Pos(), u.Elem(), false, nil, false)
		I.store(I.st, Loc{o, "", idx, u.Elem()}, v)
		return refP(o, "", u.Elem(), idx, false)
	case *types.Struct:
		s := I.zeroValue(t).(*StructV)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				nm := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == nm {
						s.f[j] = I.elemVal(kv.Value, u.Field(j).Type())
					}
				}
			} else {
				s.f[i] = I.elemVal(el, u.Field(i).Type())
			}
		}
		return s
	case *types.Slice:
		n := int64(0)
		type kv struct {
			i int64
			v Value
		}
		var vs []kv
		for _, el := range x.Elts {
			if k, ok := el.(*ast.KeyValueExpr); ok {
				c, ok := I.eval(k.Key).(*Poly).intConst()
				if !ok {
					unsup("slice literal key")
				}
				n = c
				vs = append(vs, kv{n, I.elemVal(k.Value, u.Elem())})
			} else {
				vs = append(vs, kv{n, I.elemVal(el, u.Elem())})
			}
			n++
		}
		mx := int64(0)
		for _, v := range vs {
			if v.i+1 > mx {
				mx = v.i + 1
			}
		}
		o, idx := I.allocObj("lit", x.Pos(), u.Elem(), true, constP(mx), false)
		si := sliceI{o, "", u.Elem(), Zero, constP(mx), idx}
		for _, v := range vs {
			I.store(I.st, si.elem(constP(v.i)), v.v)
		}
		return si.poly()
	case *types.Array:
		o, idx := I.allocObj("arr", x.Pos(), t, false, nil, false)
		n := int64(0)
		for _, el := range x.Elts {
			if k, ok := el.(*ast.KeyValueExpr); ok {
				c, _ := I.eval(k.Key).(*Poly).intConst()
				n = c
				el = k.Value
			}
			I.store(I.st, Loc{o, "[]", append(append([]*Poly{}, idx...), constP(n)), u.Elem()}, I.elemVal(el, u.Elem()))
			n++
		}
		return I.load(I.st, Loc{o, "", idx, t})
	case *types.Map:
		o, idx := I.allocObj("map", x.Pos(), t, false, nil, false)
		for _, el := range x.Elts {
			k := el.(*ast.KeyValueExpr)
			key := mapKey(I.elemVal(k.Key, u.Key()))
			v := I.elemVal(k.Value, u.Elem())
			ki := append(append([]*Poly{}, idx...), key)
			I.store(I.st, Loc{o, "{}", ki, u.Elem()}, v)
			I.store(I.st, Loc{o, "{?}", ki, types.Typ[types.Bool]}, One)
		}
		return refP(o, "", t, idx, false)
	}
	unsup("composite literal of %v", t)
	return nil
}

func (I *Interp) elemVal(e ast.Expr, t types.Type) Value {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		return I.composite(cl, t)
	}
	return I.convertTo(I.eval(e), I.typeOf(e), t)
}

// convertTo performs the implicit conversion from type 'from' to 'to'
// (boxing into interfaces).
func (I *Interp) convertTo(v Value, from, to types.Type) Value {
	if to == nil || from == nil || v == nil {
		return v
	}
	if !types.IsInterface(to) || types.IsInterface(from) {
		if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			if _, ok := to.Underlying().(*types.Slice); ok {
				return I.zeroScalar(to)
			}
		}
		return v
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return v
	}
	if _, ok := from.Underlying().(*types.Pointer); ok {
		return v
	}
	if p, ok := v.(*Poly); ok {
		if s := p.single(); s != nil && (s.op == "nil" || s.op == "clos" || s.op == "func" || s.op == "bound") {
			return v
		}
	}
	if d, ok := v.(*DenseV); ok {
		return refP(d.l.o, d.l.path, d.l.typ, d.l.idx, false)
	}
	args := flatten(v)
	return lifted(args, func(n []Node) *Poly {
		a := rawAtom("box", from.String(), KOther, n...)
		if a.pay == nil {
			a.pay = &boxPay{from}
		}
		return atomP(a)
	})
}

// assertType returns x.(t) and the condition under which it succeeds.
func (I *Interp) assertType(v *Poly, t types.Type) (Value, *Poly) {
	var cc []*Poly
	var vs []Value
	ok := Zero
	for _, c := range cases(v) {
		var dyn types.Type
		var val Value
		switch {
		case c.a == nil:
			unsup("type assertion")
		case c.a.op == "box":
			dyn = c.a.pay.(*boxPay).typ
			val, _ = I.unflatten(dyn, c.a.args)
		case c.a.op == "ref":
			dyn = types.NewPointer(c.a.pay.(*refPay).typ)
			val = atomP(c.a)
		case c.a.op == "nil":
			continue
		default:
			// unknown dynamic type
			o := appK("is:"+t.String(), KBool, atomP(c.a))
			ok = add(ok, mul2(c.cond, o))
			cc = append(cc, c.cond)
			vs = append(vs, I.symFromAtom("as:"+t.String(), t, []*Poly{atomP(c.a)}))
			continue
		}
		match := types.Identical(dyn, t)
		if types.IsInterface(t) {
			match = types.Implements(dyn, t.Underlying().(*types.Interface))
			val = atomP(c.a)
		}
		if match {
			ok = add(ok, c.cond)
			cc = append(cc, c.cond)
			vs = append(vs, val)
		}
	}
	if len(vs) == 0 {
		return I.zeroValue(t), Zero
	}
	if len(vs) == 1 {
		return vs[0], ok
	}
	return combine(cc, vs), ok
}

func (I *Interp) symFromAtom(name string, t types.Type, idx []*Poly) Value {
	return I.symValue(name, t, idx)
}

// ---------------------------------------------------------------- calls

func (I *Interp) recvFor(e ast.Expr, sel *types.Selection, fn *types.Func) Value {
	sig := fn.Type().(*types.Signature)
	rt := sig.Recv().Type()
	if types.IsInterface(rt) {
		// interface method (possibly through embedding)
		return I.embeddedValue(e, sel)
	}
	_, wantPtr := rt.(*types.Pointer)
	index := sel.Index()
	index = index[:len(index)-1]
	et := I.typeOf(e)
	_, isPtr := et.Underlying().(*types.Pointer)
	if wantPtr {
		if isPtr && len(index) == 0 {
			return I.eval(e)
		}
		ls := I.fieldLvals(I.baseLvals(e), nil, index)
		r := Zero
		for _, l := range ls {
			if _, ok := l.l.typ.Underlying().(*types.Pointer); ok {
				r = add(r, mul2(l.cond, I.load(I.st, l.l).(*Poly)))
				continue
			}
			r = add(r, mul2(l.cond, refP(l.l.o, l.l.path, l.l.typ, l.l.idx, false)))
		}
		return r
	}
	if len(index) == 0 {
		v := I.eval(e)
		if isPtr {
			return I.loadPtr(v.(*Poly))
		}
		return v
	}
	v := I.loadL(I.fieldLvals(I.baseLvals(e), nil, index))
	return v
}

func (I *Interp) embeddedValue(e ast.Expr, sel *types.Selection) Value {
	index := sel.Index()
	index = index[:len(index)-1]
	if len(index) == 0 {
		return I.eval(e)
	}
	return I.loadL(I.fieldLvals(I.baseLvals(e), nil, index))
}

// prepCall evaluates callee and arguments.
func (I *Interp) prepCall(x *ast.CallExpr) (fn *types.Func, recv Value, args []Value, fv *Poly) {
	info := I.fr.pkg.Info
	fun := unparen(x.Fun)
	switch f := fun.(type) {
	case *ast.Ident:
		if o, ok := info.Uses[f].(*types.Func); ok {
			fn = o
		}
	case *ast.SelectorExpr:
		if sel := info.Selections[f]; sel != nil {
			if sel.Kind() == types.MethodVal {
				fn = sel.Obj().(*types.Func)
				recv = I.recvFor(f.X, sel, fn)
			}
		} else if o, ok := info.Uses[f.Sel].(*types.Func); ok {
			fn = o
		}
	}
	var sig *types.Signature
	if fn == nil {
		fv = I.eval(x.Fun).(*Poly)
	}
	sig, _ = I.typeOf(x.Fun).Underlying().(*types.Signature)
	if sig == nil {
		unsup("call of %v", I.typeOf(x.Fun))
	}
	args = I.callArgs(x, sig)
	return
}

func (I *Interp) callArgs(x *ast.CallExpr, sig *types.Signature) []Value {
	var vals []Value
	var ts []types.Type
	if len(x.Args) == 1 {
		if tp, ok := I.typeOf(x.Args[0]).(*types.Tuple); ok {
			vals = I.evalN(x.Args[0])
			for i := 0; i < tp.Len(); i++ {
				ts = append(ts, tp.At(i).Type())
			}
		}
	}
	if vals == nil {
		for _, a := range x.Args {
			vals = append(vals, I.eval(a))
			ts = append(ts, I.typeOf(a))
		}
	}
	np := sig.Params().Len()
	var args []Value
	for i := 0; i < np; i++ {
		pt := sig.Params().At(i).Type()
		if sig.Variadic() && i == np-1 {
			st := pt.(*types.Slice)
			if x.Ellipsis.IsValid() {
				args = append(args, I.convertTo(vals[i], ts[i], pt))
				break
			}
			n := int64(len(vals) - i)
			if n <= 0 {
				args = append(args, I.zeroScalar(pt))
				break
			}
			o, idx := I.allocObj("va", x.Pos(), st.Elem(), true, constP(n), false)
			si := sliceI{o, "", st.Elem(), Zero, constP(n), idx}
			for j := i; j < len(vals); j++ {
				I.store(I.st, si.elem(constP(int64(j-i))), I.convertTo(vals[j], ts[j], st.Elem()))
			}
			args = append(args, si.poly())
			break
		}
		args = append(args, I.convertTo(vals[i], ts[i], pt))
	}
	return args
}

func (I *Interp) call(x *ast.CallExpr) []Value {
	info := I.fr.pkg.Info
	fun := unparen(x.Fun)
	// conversion
	if tv, ok := info.Types[fun]; ok && tv.IsType() {
		return []Value{I.conversion(I.eval(x.Args[0]), I.typeOf(x.Args[0]), tv.Type)}
	}
	// builtin
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			return I.builtin(b.Name(), x)
		}
	}
	fn, recv, args, fv := I.prepCall(x)
	return I.doCall(x, fn, recv, args, fv, x.Pos())
}

func (I *Interp) doCall(x *ast.CallExpr, fn *types.Func, recv Value, args []Value, fv *Poly, pos token.Pos) []Value {
	I.ncall++
	if fn != nil {
		return I.callFunc(x, fn, recv, args, pos)
	}
	sig := I.typeOf(x.Fun).Underlying().(*types.Signature)
	return I.callValue(x, fv, sig, args, pos)
}

// callValue calls a function value.
func (I *Interp) callValue(x *ast.CallExpr, fv *Poly, sig *types.Signature, args []Value, pos token.Pos) []Value {
	cs := cases(fv)
	return I.dispatch(cs, pos, func(a *Atom) []Value {
		switch a.op {
		case "clos":
			cp := a.pay.(*closPay)
			env := map[types.Object]*Poly{}
			for i, v := range cp.vars {
				env[v] = a.args[i].(*Poly)
			}
			s2 := cp.pkg.Info.TypeOf(cp.lit).(*types.Signature)
			I.nfun[cp.site+"$"+I.prog.pos(cp.lit.Pos())] = true
			return I.callBody(cp.site+"$lit", cp.pkg, s2, nil, cp.lit.Type, cp.lit.Body, env, nil, args, pos)
		case "func":
			return I.callFunc(x, a.pay.(*types.Func), nil, args, pos)
		case "bound":
			bp := a.pay.(*boundPay)
			recv, _ := I.unflatten(bp.recv, a.args)
			return I.callFunc(x, bp.fn, recv, args, pos)
		}
		return I.callOpaque(a, sig, args, pos, x)
	})
}

// dispatch performs one call per possible target, under its condition.
func (I *Interp) dispatch(cs []caseE, pos token.Pos, f func(a *Atom) []Value) []Value {
	var live []caseE
	for _, c := range cs {
		if c.a == nil {
			unsup("call target")
		}
		if c.a.op == "nil" {
			continue
		}
		live = append(live, c)
	}
	if len(live) == 0 {
		if debugNil {
			println("nil call target", int(pos))
			for _, c := range cs {
				println(c.a.String(), c.cond.String())
			}
		}
		I.die(true)
	}
	if len(live) == 1 {
		return f(live[0].a)
	}
	var run func(i int) []Value
	run = func(i int) []Value {
		if i == len(live)-1 {
			return f(live[i].a)
		}
		var va, vb []Value
		la, lb := false, false
		I.fork(live[i].cond, pos, func() bool {
			la = I.guardDead(func() bool { va = f(live[i].a); return true })
			return la
		}, func() bool {
			lb = I.guardDead(func() bool { vb = run(i + 1); return true })
			return lb
		})
		if !la && !lb {
			panic(mkDead())
		}
		if !la {
			return vb
		}
		if !lb {
			return va
		}
		r := make([]Value, len(va))
		for j := range va {
			r[j] = iteValue(live[i].cond, va[j], vb[j])
		}
		return r
	}
	return run(0)
}

func (I *Interp) callFunc(x *ast.CallExpr, fn *types.Func, recv Value, args []Value, pos token.Pos) []Value {
	sig := fn.Type().(*types.Signature)
	full := fn.FullName()
	c := &Call{I: I, name: full, recv: recv, args: args, pos: pos, sig: sig, fn: fn, expr: x}
	if x != nil {
		c.ell = x.Ellipsis.IsValid()
	}
	if f := I.cfg.intr[full]; f != nil {
		return f(c)
	}
	if vs, ok := I.textBuilder(c); ok {
		return vs
	}
	if I.cfg.model != nil {
		if g := I.cfg.model(fn); g != nil {
			as := args
			if recv != nil {
				as = append([]Value{recv}, args...)
			}
			return I.callDecl(g, nil, as, pos)
		}
	}
	if sig.Recv() != nil && types.IsInterface(sig.Recv().Type()) {
		rp, ok := recv.(*Poly)
		if !ok {
			unsup("interface receiver")
		}
		return I.dispatch(cases(rp), pos, func(a *Atom) []Value {
			var dyn types.Type
			var val Value
			switch a.op {
			case "box":
				dyn = a.pay.(*boxPay).typ
				val, _ = I.unflatten(dyn, a.args)
			case "ref":
				dyn = types.NewPointer(a.pay.(*refPay).typ)
				val = atomP(a)
			default:
				c2 := *c
				c2.recv = atomP(a)
				if f := intrinsics[full]; f != nil {
					return f(&c2)
				}
				return I.external(&c2)
			}
			if isDense(dyn) || (a.op == "ref" && isDense(a.pay.(*refPay).typ)) {
				c2 := *c
				c2.recv = val
				c2.name = "(*gonum.org/v1/gonum/mat.Dense)." + fn.Name()
				if f := intrinsics[c2.name]; f != nil {
					return f(&c2)
				}
				return I.external(&c2)
			}
			o, ix, _ := types.LookupFieldOrMethod(dyn, true, fn.Pkg(), fn.Name())
			m, ok := o.(*types.Func)
			if !ok {
				unsup("method %s of %v", fn.Name(), dyn)
			}
			msig := m.Type().(*types.Signature)
			if len(ix) > 1 {
				// promoted through embedding
				var base []lval
				if a.op == "ref" {
					base = I.ptrLvals(atomP(a))
				} else {
					ob, oi := I.allocObj("box", pos, dyn, false, nil, false)
					l := Loc{ob, "", oi, dyn}
					I.store(I.st, l, val)
					base = []lval{{One, l}}
				}
				ls := I.fieldLvals(base, nil, ix[:len(ix)-1])
				if types.IsInterface(msig.Recv().Type()) {
					return I.callFunc(x, m, I.loadL(ls), args, pos)
				}
				if _, p := msig.Recv().Type().(*types.Pointer); p {
					if _, isp := ls[0].l.typ.Underlying().(*types.Pointer); isp {
						val = I.loadL(ls)
					} else {
						val = refP(ls[0].l.o, ls[0].l.path, ls[0].l.typ, ls[0].l.idx, false)
					}
				} else {
					val = I.loadL(ls)
					if vp, ok := val.(*Poly); ok {
						if _, isp := ls[0].l.typ.Underlying().(*types.Pointer); isp {
							val = I.loadPtr(vp)
						}
					}
				}
				return I.callFunc(x, m, val, args, pos)
			}
			if _, p := msig.Recv().Type().(*types.Pointer); !p && a.op == "ref" {
				val = I.loadPtr(atomP(a))
			}
			return I.callFunc(x, m, val, args, pos)
		})
	}
	if vs := I.fold(c); vs != nil {
		return vs
	}
	if f := intrinsics[full]; f != nil && !(I.cfg.noModel != nil && I.cfg.noModel(full)) {
		return f(c)
	}
	if I.prog.Decls[fn] != nil && (I.cfg.opaque == nil || !I.cfg.opaque(fn)) {
		return I.callDecl(fn, recv, args, pos)
	}
	return I.external(c)
}

func (I *Interp) conversion(v Value, from, to types.Type) Value {
	if types.IsInterface(to) {
		return I.convertTo(v, from, to)
	}
	p, ok := v.(*Poly)
	if !ok {
		if s, ok := v.(*StructV); ok {
			return &StructV{to, s.f}
		}
		return v
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case ti&types.IsInteger != 0 && fi&types.IsFloat != 0:
			q := app("trunc", p)
			if tb.Kind() == types.Uint8 || tb.Kind() == types.Int8 || tb.Kind() == types.Uint16 {
				return appK("conv:"+tb.Name(), KInt, q)
			}
			return q
		case ti&types.IsString != 0 && fi&types.IsInteger != 0:
			if n, ok := p.intConst(); ok && n >= 0 && n < 128 {
				return strP(string(rune(n)))
			}
			return appK("chr", KOther, p)
		case ti&types.IsInteger != 0 && fi&types.IsInteger != 0:
			sz := map[types.BasicKind]int{types.Uint8: 1, types.Int8: 1, types.Uint16: 2, types.Int16: 2, types.Int32: 4, types.Uint32: 4}
			if s, ok := sz[tb.Kind()]; ok {
				if f, ok := sz[fb.Kind()]; !ok || f > s {
					if c, ok := p.intConst(); ok && c >= 0 && c < 128 {
						return p
					}
					return appK("conv:"+tb.Name(), KInt, p)
				}
			}
			return p
		case tb.Kind() == types.Float32 && fb.Kind() != types.Float32:
			return appK("conv:float32", KReal, p)
		}
		return p
	}
	if ok2 && tb.Info()&types.IsString != 0 {
		return appK("bytes2str", KOther, p)
	}
	if ok1 && fb.Info()&types.IsString != 0 {
		r := appK("str2bytes", KOther, p)
		if a := r.single(); a != nil {
			a.pay = to
		}
		return r
	}
	return p
}
