package main

// Symbolic differentiation of value numbers: verifD(y, x) in a specification is
// the partial derivative of the value y with respect to the arbitrary value x.
// Guards are locally constant, so that the derivative of a piecewise function
// is piecewise (exact away from the break points).

type differ struct {
	x    *Atom
	dep  map[int]bool
	memo map[int]*Poly
}

func (d *differ) depends(n Node) bool {
	if n == nil {
		return false
	}
	if v, ok := d.dep[n.nid()]; ok {
		return v
	}
	r := false
	switch t := n.(type) {
	case *Atom:
		r = t == d.x
		for _, a := range t.args {
			r = r || d.depends(a)
		}
	case *Poly:
		for _, m := range t.t {
			for _, f := range m.m.f {
				r = r || d.depends(f.a)
			}
		}
	case *Lam:
		r = d.depends(t.body)
	case *Tup:
		for _, a := range t.x {
			r = r || d.depends(a)
		}
	}
	d.dep[n.nid()] = r
	return r
}

func (d *differ) poly(p *Poly) *Poly {
	if !d.depends(p) {
		return Zero
	}
	if r, ok := d.memo[p.id]; ok {
		return r
	}
	var s []*Poly
	for _, t := range p.t {
		for i, f := range t.m.f {
			if !d.depends(f.a) {
				continue
			}
			da := d.atom(f.a)
			if da == Zero {
				continue
			}
			r := mul2(ratP(t.c), da)
			for j, g := range t.m.f {
				e := g.e
				if j == i {
					r = mul2(r, constP(int64(e)))
					e--
				}
				r = mul2(r, powP(atomP(g.a), e))
			}
			s = append(s, r)
		}
	}
	r := add(s...)
	d.memo[p.id] = r
	return r
}

func (d *differ) atom(a *Atom) *Poly {
	if a == d.x {
		return One
	}
	if !d.depends(a) {
		return Zero
	}
	arg := func(i int) *Poly {
		p, ok := a.args[i].(*Poly)
		if !ok {
			unsup("derivative of %s", a.op)
		}
		return p
	}
	switch a.op {
	case "ge", "eq":
		return Zero
	case "base":
		return d.poly(arg(0))
	case "sum":
		l, ok := a.args[1].(*Lam)
		if !ok {
			break
		}
		n := arg(0)
		w := openVar(n)
		defer closeVar()
		return mkSum(w, n, d.poly(l.open(atomP(w)).(*Poly)))
	case "app":
		u := arg(0)
		du := func() *Poly { return d.poly(u) }
		switch a.name {
		case "floor", "trunc", "ceil", "round":
			return Zero
		case "exp":
			return mul2(atomP(a), du())
		case "log":
			return div(du(), u)
		case "sqrt":
			return div(du(), mul2(constP(2), atomP(a)))
		case "sin":
			return mul2(app("cos", u), du())
		case "cos":
			return neg(mul2(app("sin", u), du()))
		case "tan":
			return mul2(add(One, powP(atomP(a), 2)), du())
		case "Atan", "atan":
			return div(du(), add(One, powP(u, 2)))
		case "abs":
			return mul2(div(u, atomP(a)), du())
		case "pow":
			e := arg(1)
			if d.depends(e) {
				return mul2(atomP(a), add(mul2(d.poly(e), app("log", u)), div(mul2(e, du()), u)))
			}
			return mul2(e, mul2(powPP(u, sub(e, One)), du()))
		}
		unsup("derivative of %s", a.name)
	}
	unsup("derivative of %s", a.op)
	return nil
}

// deriv is dy/dx for a plain symbol x.
func deriv(y, x *Poly) *Poly {
	s := x.single()
	if s == nil || y.k == KOther {
		unsup("derivative with respect to an expression")
	}
	return (&differ{x: s, dep: map[int]bool{}, memo: map[int]*Poly{}}).poly(y)
}
