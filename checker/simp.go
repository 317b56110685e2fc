package main

// Smart constructors: every value number is built through these, so equal
// values obtained in different ways meet in the same normal form.

import (
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- lifting of conditions

func topBool(p *Poly) *Atom {
	var best *Atom
	for _, t := range p.t {
		for _, f := range t.m.f {
			if f.a.kind == KBool && (best == nil || f.a.id < best.id) {
				best = f.a
			}
		}
	}
	return best
}

// lifted evaluates f over args with all top-level conditions of scalar args
// moved outside.
func lifted(args []Node, f func([]Node) *Poly) *Poly {
	var c *Atom
	for _, x := range args {
		if p, ok := x.(*Poly); ok {
			if b := topBool(p); b != nil && (c == nil || b.id < c.id) {
				c = b
			}
		}
	}
	if c == nil {
		return f(args)
	}
	a1 := make([]Node, len(args))
	a0 := make([]Node, len(args))
	s1 := newSubst(map[*Atom]*Poly{c: One})
	s0 := newSubst(map[*Atom]*Poly{c: Zero})
	var tgt *Atom
	var e *Poly
	if c.op == "eq" {
		tgt, e = solveEq(c)
	}
	for i, x := range args {
		a1[i] = s1.node(x)
		if tgt != nil {
			a1[i] = newSubst(map[*Atom]*Poly{tgt: e}).node(a1[i])
		}
		a0[i] = s0.node(x)
	}
	cp := atomP(c)
	p1 := lifted(a1, f)
	p0 := lifted(a0, f)
	return add(mul2(cp, p1), mul2(sub(One, cp), p0))
}

func ite(c, a, b *Poly) *Poly {
	if c == One {
		return a
	}
	if c == Zero {
		return b
	}
	if a == b {
		return a
	}
	return add(b, mul2(c, sub(a, b)))
}

func not(c *Poly) *Poly     { return sub(One, c) }
func and(a, b *Poly) *Poly  { return mul2(a, b) }
func or(a, b *Poly) *Poly   { return sub(add(a, b), mul2(a, b)) }
func lt(a, b *Poly) *Poly   { return not(ge(sub(a, b))) }
func le(a, b *Poly) *Poly   { return ge(sub(b, a)) }
func eqp(a, b *Poly) *Poly  { return eqz(sub(a, b)) }
func maxp(a, b *Poly) *Poly { return ite(ge(sub(a, b)), a, b) }
func minp(a, b *Poly) *Poly { return ite(ge(sub(b, a)), a, b) }
func i2(n int64) *Poly      { return constP(n) }

// ---------------------------------------------------------------- comparisons

func monoNonneg(m *Mono) bool {
	for _, f := range m.f {
		if f.a.nonneg || f.a.kind == KBool {
			continue
		}
		if f.e%2 == 0 && f.a.kind <= KReal {
			continue
		}
		if f.a.op == "base" && f.a.args[0].(*Poly).k <= KReal && provGE(f.a.args[0].(*Poly), 1) {
			continue
		}
		return false
	}
	return true
}

func quickNonneg(p *Poly) bool {
	for _, t := range p.t {
		if t.c.Sign() < 0 || !monoNonneg(t.m) {
			return false
		}
	}
	return true
}

func provGE(p *Poly, d int) bool {
	if quickNonneg(p) {
		return true
	}
	if d == 0 || len(p.t) > 12 {
		return false
	}
	// mod ranges: c * n*quo(x,n)
	for _, t := range p.t {
		for _, f := range t.m.f {
			if f.a.op == "app" && f.a.name == "quo" && f.e == 1 {
				x, n := f.a.args[0].(*Poly), f.a.args[1].(*Poly)
				whole := mul2(n, atomP(f.a))
				if len(whole.t) != 1 || whole.t[0].m != t.m {
					continue
				}
				ratio := new(big.Rat).Quo(t.c, whole.t[0].c)
				rest := sub(p, scale(whole, ratio))
				var q *Poly
				if ratio.Sign() < 0 {
					q = add(rest, scale(x, ratio))
				} else {
					q = add(rest, scale(add(sub(x, n), One), ratio))
				}
				if provGE(q, d-1) {
					return true
				}
			}
		}
	}
	done := map[*Atom]bool{}
	for _, t := range p.t {
		for _, f := range t.m.f {
			a := f.a
			if done[a] || f.e != 1 {
				continue
			}
			done[a] = true
			lo, hi := a.lo, a.hi
			if a.kind == KBool {
				lo, hi = Zero, One
			}
			if lo == nil && hi == nil {
				continue
			}
			A, B, ok := linIn(p, a)
			if !ok {
				continue
			}
			if hi != nil && quickNonneg(neg(A)) && A != Zero {
				if provGE(add(mul2(A, hi), B), d-1) {
					return true
				}
			}
			if lo != nil && lo != Zero && quickNonneg(A) && A != Zero {
				if provGE(add(mul2(A, lo), B), d-1) {
					return true
				}
			}
		}
	}
	return false
}

// linIn writes p = A*a + B with a not occurring in A or B.
func linIn(p *Poly, a *Atom) (A, B *Poly, ok bool) {
	ac, bc := newAcc(), newAcc()
	for _, t := range p.t {
		hit := false
		var rest []Factor
		for _, f := range t.m.f {
			if f.a == a {
				if f.e != 1 {
					return nil, nil, false
				}
				hit = true
				continue
			}
			if occursA(f.a, a) {
				return nil, nil, false
			}
			rest = append(rest, f)
		}
		if hit {
			ac.addMono(t.c, internMono(rest))
		} else {
			bc.addMono(t.c, t.m)
		}
	}
	return ac.poly(), bc.poly(), true
}

func leadNonConst(p *Poly) (Term, bool) {
	for i := len(p.t) - 1; i >= 0; i-- {
		if p.t[i].m != monoOne {
			return p.t[i], true
		}
	}
	return Term{}, false
}

func constPart(p *Poly) *big.Rat {
	for _, t := range p.t {
		if t.m == monoOne {
			return t.c
		}
	}
	return new(big.Rat)
}

// intContent: gcd of the non-constant coefficients of an integer polynomial.
func intContent(p *Poly) *big.Int {
	g := new(big.Int)
	for _, t := range p.t {
		if t.m == monoOne {
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c.Num()))
	}
	return g
}

func ge(p *Poly) *Poly {
	if c, ok := p.isConst(); ok {
		if c.Sign() >= 0 {
			return One
		}
		return Zero
	}
	if topBool(p) != nil {
		return lifted([]Node{p}, func(a []Node) *Poly { return ge(a[0].(*Poly)) })
	}
	if p.k <= KInt {
		g := intContent(p)
		if g.Cmp(big.NewInt(1)) > 0 {
			a := newAcc()
			for _, t := range p.t {
				if t.m == monoOne {
					q := new(big.Int)
					m := new(big.Int)
					q.DivMod(t.c.Num(), g, m) // floor for positive divisor
					a.addMono(new(big.Rat).SetInt(q), t.m)
				} else {
					a.addMono(new(big.Rat).Quo(t.c, new(big.Rat).SetInt(g)), t.m)
				}
			}
			p = a.poly()
		}
		if provGE(p, 4) {
			return One
		}
		np := sub(neg(p), One)
		if provGE(np, 4) {
			return Zero
		}
		l, _ := leadNonConst(p)
		if l.c.Sign() < 0 {
			return not(ge(np))
		}
	} else {
		l, _ := leadNonConst(p)
		if ab := new(big.Rat).Abs(l.c); ab.Cmp(ratOne) != 0 {
			p = scale(p, new(big.Rat).Inv(ab))
		}
		if provGE(p, 3) {
			return One
		}
		if q := constPart(p); q.Sign() < 0 && provGE(sub(neg(p), ratP(new(big.Rat).Neg(q))), 3) {
			// -p >= -q > 0
			return Zero
		}
		l, _ = leadNonConst(p)
		if l.c.Sign() < 0 {
			return add(not(ge(neg(p))), eqz(p))
		}
	}
	a := rawAtom("ge", "", KBool, p)
	a.nonneg = true
	return atomP(a)
}

func eqz(p *Poly) *Poly {
	if c, ok := p.isConst(); ok {
		if c.Sign() == 0 {
			return One
		}
		return Zero
	}
	if topBool(p) != nil {
		return lifted([]Node{p}, func(a []Node) *Poly { return eqz(a[0].(*Poly)) })
	}
	if p.k == KOther {
		if r, ok := eqOther(p); ok {
			return r
		}
	} else {
		// strip a common positive scaling
		l, _ := leadNonConst(p)
		if l.c.Cmp(ratOne) != 0 {
			p = scale(p, new(big.Rat).Inv(l.c))
		}
		if p.k <= KInt || intKind(p) {
			if provGE(sub(p, One), 3) || provGE(sub(neg(p), One), 3) {
				return Zero
			}
		}
		if len(p.t) == 1 && len(p.t[0].m.f) > 0 {
			// product equals zero iff one of the factors does
			r := Zero
			for _, f := range p.t[0].m.f {
				if f.e < 0 || f.a == PiA || f.a == ImagU || (f.a.op == "app" && f.a.name == "exp") {
					continue
				}
				q := Zero
				if len(p.t[0].m.f) == 1 && f.e == 1 {
					a := rawAtom("eq", "", KBool, atomP(f.a))
					a.nonneg = true
					return atomP(a)
				}
				q = eqz(atomP(f.a))
				r = or(r, q)
			}
			return r
		}
	}
	a := rawAtom("eq", "", KBool, p)
	a.nonneg = true
	return atomP(a)
}

func intKind(p *Poly) bool {
	for _, t := range p.t {
		for _, f := range t.m.f {
			if f.a.kind > KInt || f.e < 0 {
				return false
			}
		}
	}
	return true
}

// eqOther decides equality of non-numeric atoms where identity is known.
func eqOther(p *Poly) (*Poly, bool) {
	if len(p.t) != 2 {
		return nil, false
	}
	var at [2]*Atom
	for i, t := range p.t {
		if len(t.m.f) != 1 || t.m.f[0].e != 1 {
			return nil, false
		}
		at[i] = t.m.f[0].a
	}
	if new(big.Rat).Add(p.t[0].c, p.t[1].c).Sign() != 0 {
		return nil, false
	}
	x, y := at[0], at[1]
	if x.op == "nil" {
		x, y = y, x
	}
	if y.op == "nil" {
		switch x.op {
		case "ref":
			if r, ok := x.pay.(*refPay); ok && r.maybeNil {
				return nil, false
			}
			return Zero, true
		case "box", "clos", "func", "bound", "str":
			return Zero, true
		case "slice":
			if sp, ok := x.pay.(*slicePay); ok && sp.obj.alloc && (strings.HasPrefix(sp.obj.name, "make:") || strings.HasPrefix(sp.obj.name, "lit:")) {
				return Zero, true
			}
			return eqz(x.args[1].(*Poly)), true
		}
		if x.op == "app" && nonNilApps[x.name] {
			return Zero, true
		}
		return nil, false
	}
	if x.op == "str" && y.op == "str" {
		return Zero, true
	}
	if x.op == "ref" && y.op == "ref" {
		rx, ry := x.pay.(*refPay), y.pay.(*refPay)
		if rx.obj == ry.obj && rx.path == ry.path && len(x.args) == len(y.args) {
			r := One
			for i := range x.args {
				r = and(r, eqp(x.args[i].(*Poly), y.args[i].(*Poly)))
			}
			return r, true
		}
		if rx.obj != ry.obj && (rx.obj.alloc || ry.obj.alloc) {
			return Zero, true
		}
	}
	if x.op == "app" && y.op == "str" || y.op == "app" && x.op == "str" {
		if y.op == "app" {
			x, y = y, x
		}
		if x.name == "concat" {
			if r, ok := concatEqConst(x, y.name); ok {
				return r, true
			}
		}
	}
	return nil, false
}

func concatEqConst(x *Atom, s string) (*Poly, bool) {
	// a constant prefix/suffix that does not match decides the comparison
	if a, ok := x.args[0].(*Poly).strConst(); ok && !strings.HasPrefix(s, a) {
		return Zero, true
	}
	if a, ok := x.args[len(x.args)-1].(*Poly).strConst(); ok && !strings.HasSuffix(s, a) {
		return Zero, true
	}
	return nil, false
}

var nonNilApps = map[string]bool{"errors.New": true, "fmt.Errorf": true}

// ---------------------------------------------------------------- arithmetic

func isNeg(p *Poly) bool {
	l, ok := leadNonConst(p)
	if !ok {
		c, _ := p.isConst()
		return c.Sign() < 0
	}
	return l.c.Sign() < 0
}

// primitive splits p = c * m * q with q primitive (leading coefficient 1, no
// common atom).
func primitive(p *Poly) (*big.Rat, []Factor, *Poly) {
	if len(p.t) == 0 {
		return new(big.Rat), nil, One
	}
	if len(p.t) == 1 {
		return p.t[0].c, p.t[0].m.f, One
	}
	common := map[*Atom]int{}
	for _, f := range p.t[0].m.f {
		common[f.a] = f.e
	}
	for _, t := range p.t[1:] {
		cur := map[*Atom]int{}
		for _, f := range t.m.f {
			cur[f.a] = f.e
		}
		for a, e := range common {
			x, ok := cur[a]
			if !ok {
				if e < 0 {
					continue // may pull out a negative power: treat missing as 0
				}
				delete(common, a)
				continue
			}
			if x < e {
				common[a] = x
			}
		}
		for a, e := range cur {
			if e < 0 {
				if _, ok := common[a]; !ok {
					common[a] = e
				} else if e < common[a] {
					common[a] = e
				}
			}
		}
	}
	var fs []Factor
	for a, e := range common {
		if e != 0 && a.kind != KBool && a != ImagU {
			fs = append(fs, Factor{a, e})
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].a.id < fs[j].a.id })
	q := p
	if len(fs) > 0 {
		inv := make([]Factor, len(fs))
		for i, f := range fs {
			inv[i] = Factor{f.a, -f.e}
		}
		a := newAcc()
		for _, t := range p.t {
			a.add(normFactors(mergeFactors(t.m.f, inv)), t.c)
		}
		q = a.poly()
	}
	if len(q.t) <= 1 {
		if len(q.t) == 1 {
			return q.t[0].c, mergeFactors(fs, q.t[0].m.f), One
		}
		return new(big.Rat), nil, One
	}
	l := q.t[len(q.t)-1]
	c := l.c
	q = scale(q, new(big.Rat).Inv(c))
	return c, fs, q
}

func inv(p *Poly) *Poly {
	if c, ok := p.isConst(); ok {
		if c.Sign() == 0 {
			return atomP(rawAtom("app", "div0", KReal))
		}
		return ratP(new(big.Rat).Inv(c))
	}
	if topBool(p) != nil {
		return lifted([]Node{p}, func(a []Node) *Poly { return inv(a[0].(*Poly)) })
	}
	c, fs, q := primitive(p)
	r := ratP(new(big.Rat).Inv(c))
	for _, f := range fs {
		r = mul2(r, normFactors([]Factor{{f.a, -f.e}}))
	}
	if q != One {
		k := KReal
		if q.k == KCplx {
			k = KCplx
		}
		b := rawAtom("base", "", k, q)
		r = mul2(r, monoP(internMono([]Factor{{b, -1}})))
	}
	return r
}

func div(a, b *Poly) *Poly { return mul2(a, inv(b)) }

// quo is Go's integer division.
func quo(a, b *Poly) *Poly {
	return lifted([]Node{a, b}, func(n []Node) *Poly { return quo1(n[0].(*Poly), n[1].(*Poly)) })
}

func quo1(a, b *Poly) *Poly {
	if a == Zero {
		return Zero
	}
	if b == One {
		return a
	}
	ca, oka := a.intConst()
	cb, okb := b.intConst()
	if oka && okb && cb != 0 {
		return constP(ca / cb)
	}
	if a == b {
		return One
	}
	pa, pb := provGE(a, 3), provGE(sub(b, One), 3) || (quickNonneg(b) && !okb)
	if okb && cb < 0 {
		pb = false
	}
	if pa && pb {
		// nested: quo(quo(x,y),b) = quo(x,y*b)
		if s := a.single(); s != nil && s.op == "app" && s.name == "quo" && s.nonneg {
			return quo1(s.args[0].(*Poly), mul2(s.args[1].(*Poly), b))
		}
		if len(b.t) == 1 {
			q, r := newAcc(), newAcc()
			invb := make([]Factor, len(b.t[0].m.f))
			for i, f := range b.t[0].m.f {
				invb[i] = Factor{f.a, -f.e}
			}
			for _, t := range a.t {
				m := mergeFactors(t.m.f, invb)
				neg := false
				for _, f := range m {
					if f.e < 0 {
						neg = true
					}
				}
				c := new(big.Rat).Quo(t.c, b.t[0].c)
				if !neg && c.IsInt() {
					q.add(normFactors(m), c)
				} else {
					r.addMono(t.c, t.m)
				}
			}
			Q, R := q.poly(), r.poly()
			if provGE(R, 4) {
				if provGE(sub(sub(b, One), R), 5) {
					return Q
				}
				if Q != Zero {
					return add(Q, quo1(R, b))
				}
			}
		} else if provGE(sub(sub(b, One), a), 5) {
			return Zero
		}
	}
	x := rawAtom("app", "quo", KInt, a, b)
	if pa && pb {
		x.nonneg = true
	}
	return atomP(x)
}

func mod(a, b *Poly) *Poly { return sub(a, mul2(b, quo(a, b))) }

func conjP(p *Poly) *Poly {
	if p.k <= KReal {
		return p
	}
	a := newAcc()
	for _, t := range p.t {
		m := One
		for _, f := range t.m.f {
			m = mul2(m, powP(conjA(f.a), f.e))
		}
		a.add(m, t.c)
	}
	return a.poly()
}

func conjA(a *Atom) *Poly {
	if a == ImagU {
		return neg(atomP(ImagU))
	}
	if a.kind != KCplx {
		return atomP(a)
	}
	if a.op == "base" {
		return conjP(a.args[0].(*Poly))
	}
	if a.op == "app" {
		switch a.name {
		case "conj":
			return a.args[0].(*Poly)
		case "exp":
			return app("exp", conjP(a.args[0].(*Poly)))
		}
	}
	if a.op == "sum" || a.op == "prod" {
		l := a.args[1].(*Lam)
		n := a.args[0].(*Poly)
		w := openVar(n)
		b := conjP(l.open(atomP(w)).(*Poly))
		r := mkBind(a.op, w, n, b)
		closeVar()
		return r
	}
	return atomP(rawAtom("app", "conj", KCplx, atomP(a)))
}

func reP(p *Poly) *Poly {
	if p.k <= KReal {
		return p
	}
	return scale(add(p, conjP(p)), big.NewRat(1, 2))
}

func imP(p *Poly) *Poly {
	if p.k <= KReal {
		return Zero
	}
	return mul2(scale(sub(p, conjP(p)), big.NewRat(-1, 2)), atomP(ImagU))
}

// isReal reports whether p equals its conjugate.
func isReal(p *Poly) bool { return p.k <= KReal || conjP(p) == p }

func complexP(re, im *Poly) *Poly { return add(re, mul2(im, atomP(ImagU))) }

// ---------------------------------------------------------------- functions

func piMultiple(p *Poly) (*big.Rat, bool) {
	if p == Zero {
		return new(big.Rat), true
	}
	if len(p.t) == 1 && len(p.t[0].m.f) == 1 && p.t[0].m.f[0].a == PiA && p.t[0].m.f[0].e == 1 {
		return p.t[0].c, true
	}
	return nil, false
}

func ratSqrt(r *big.Rat) (*big.Rat, bool) {
	if r.Sign() < 0 {
		return nil, false
	}
	n := new(big.Int).Sqrt(r.Num())
	d := new(big.Int).Sqrt(r.Denom())
	if new(big.Int).Mul(n, n).Cmp(r.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(r.Denom()) == 0 {
		return new(big.Rat).SetFrac(n, d), true
	}
	return nil, false
}

func absP(p *Poly) *Poly {
	if c, ok := p.isConst(); ok {
		return ratP(new(big.Rat).Abs(c))
	}
	if topBool(p) != nil {
		return lifted([]Node{p}, func(a []Node) *Poly { return absP(a[0].(*Poly)) })
	}
	if len(p.t) == 1 {
		c, fs, _ := primitive(p)
		r := ratP(new(big.Rat).Abs(c))
		for _, f := range fs {
			x := atomP(f.a)
			if !f.a.nonneg && f.e%2 != 0 {
				x = ite(ge(x), x, neg(x))
			}
			r = mul2(r, powP(x, f.e))
		}
		return r
	}
	return ite(ge(p), p, neg(p))
}

func sqrtP(p *Poly) *Poly {
	if topBool(p) != nil {
		return lifted([]Node{p}, func(a []Node) *Poly { return sqrtP(a[0].(*Poly)) })
	}
	if c, ok := p.isConst(); ok {
		if s, ok := ratSqrt(c); ok {
			return ratP(s)
		}
	}
	if p == Zero {
		return Zero
	}
	c, fs, q := primitive(p)
	out := One
	inner := q
	if len(q.t) > 1 && c.Sign() < 0 {
		inner = neg(q)
		c = new(big.Rat).Neg(c)
	}
	if s, ok := ratSqrt(c); ok {
		out = ratP(s)
	} else {
		inner = scale(inner, c)
	}
	for _, f := range fs {
		h := f.e / 2
		if h != 0 && (f.a.nonneg || f.a.kind <= KReal) {
			b := atomP(f.a)
			if !f.a.nonneg && h%2 != 0 {
				b = absP(b)
			}
			out = mul2(out, powP(b, h))
			if f.e-2*h != 0 {
				inner = mul2(inner, powP(atomP(f.a), f.e-2*h))
			}
		} else {
			inner = mul2(inner, powP(atomP(f.a), f.e))
		}
	}
	if inner == One {
		return out
	}
	if topBool(inner) != nil {
		return mul2(out, sqrtP(inner))
	}
	a := rawAtom("app", "sqrt", KReal, inner)
	a.nonneg = true
	return mul2(out, atomP(a))
}

func powPP(x, e *Poly) *Poly {
	return lifted([]Node{x, e}, func(n []Node) *Poly { return powPP1(n[0].(*Poly), n[1].(*Poly)) })
}

func powPP1(x, e *Poly) *Poly {
	if c, ok := e.intConst(); ok && c > -64 && c < 64 {
		return powP(x, int(c))
	}
	if x == One {
		return One
	}
	if r, ok := e.isConst(); ok {
		d := new(big.Rat).Mul(r, big.NewRat(2, 1))
		if d.IsInt() && d.Num().IsInt64() && d.Num().Int64() > -64 && d.Num().Int64() < 64 {
			return powP(sqrtP(x), int(d.Num().Int64()))
		}
	}
	// split integer constant
	if cp := constPart(e); cp.Sign() != 0 && cp.IsInt() && len(e.t) > 1 && cp.Num().IsInt64() {
		return mul2(powP(x, int(cp.Num().Int64())), powPP1(x, sub(e, ratP(cp))))
	}
	if e.k <= KInt && x.k != KOther {
		// common factor of the exponent
		g := 1
		if ic := intContent(e); ic.IsInt64() && ic.Int64() > 1 && constPart(e).Sign() == 0 {
			g = int(ic.Int64())
			e = scale(e, big.NewRat(1, int64(g)))
		}
		if isNeg(e) {
			g = -g
			e = neg(e)
		}
		c, fs, q := primitive(x)
		r := One
		one := func(b *Poly, k int) {
			if b == One {
				return
			}
			if s := b.single(); s != nil && s.op == "app" && s.name == "sqrt" && k%2 == 0 {
				r = mul2(r, powP(powPP1(s.args[0].(*Poly), e), k/2))
				return
			}
			a := rawAtom("app", "pow", maxK(b.k, KReal), b, e)
			if quickNonneg(b) {
				a.nonneg = true
			}
			r = mul2(r, normFactors([]Factor{{a, k}}))
		}
		if len(fs) > 0 || c.Cmp(ratOne) != 0 {
			if c.Sign() < 0 {
				one(constP(-1), g)
				c = new(big.Rat).Neg(c)
			}
			if c.Cmp(ratOne) != 0 {
				one(ratP(c), g)
			}
			for _, f := range fs {
				one(atomP(f.a), g*f.e)
			}
			if q != One {
				one(q, g)
			}
			return r
		}
		one(q, g)
		return r
	}
	return atomP(rawAtom("app", "pow", maxK(maxK(x.k, e.k), KReal), x, e))
}

func maxK(a, b Kind) Kind {
	if a > b {
		return a
	}
	return b
}

// app builds a (possibly simplified) application of a known function.
func app(name string, args ...Node) *Poly {
	switch name {
	case "sum", "prod":
		panic("binder")
	case "quo":
		return quo(args[0].(*Poly), args[1].(*Poly))
	case "sqrt":
		return sqrtP(args[0].(*Poly))
	case "pow":
		return powPP(args[0].(*Poly), args[1].(*Poly))
	case "abs":
		return absP(args[0].(*Poly))
	case "cabs":
		z := args[0].(*Poly)
		if z.k <= KReal {
			return absP(z)
		}
		return sqrtP(mul2(z, conjP(z)))
	case "conj":
		return conjP(args[0].(*Poly))
	case "fft", "ifft":
		return fftApp(name, args[0].(*Lam), args[1].(*Poly))
	case "concat":
		return concat(args...)
	}
	return lifted(args, func(n []Node) *Poly { return app1(name, n) })
}

func app1(name string, args []Node) *Poly {
	x, _ := args[0].(*Poly)
	kind := KReal
	if x != nil && x.k == KCplx {
		kind = KCplx
	}
	switch name {
	case "exp":
		if x == Zero {
			return One
		}
		// exp(i*pi*q) for q a multiple of 1/2
		if m, ok := piMultiple(div(x, atomP(ImagU))); ok {
			d := new(big.Rat).Mul(m, big.NewRat(2, 1))
			if d.IsInt() {
				e := new(big.Int).Mod(d.Num(), big.NewInt(4)).Int64()
				switch e {
				case 0:
					return One
				case 1:
					return atomP(ImagU)
				case 2:
					return constP(-1)
				case 3:
					return neg(atomP(ImagU))
				}
			}
		}
	case "log":
		if x == One {
			return Zero
		}
		if s := x.single(); s != nil && s.op == "app" && s.name == "exp" && s.kind <= KReal {
			return s.args[0].(*Poly)
		}
	case "sin", "cos", "tan":
		if m, ok := piMultiple(x); ok {
			d := new(big.Rat).Mul(m, big.NewRat(2, 1))
			if d.IsInt() && name != "tan" {
				e := new(big.Int).Mod(d.Num(), big.NewInt(4)).Int64()
				s := []int64{0, 1, 0, -1}
				c := []int64{1, 0, -1, 0}
				if name == "sin" {
					return constP(s[e])
				}
				return constP(c[e])
			}
			if name == "tan" && m.IsInt() {
				return Zero
			}
		}
		if isNeg(x) {
			r := app1(name, []Node{neg(x)})
			if name == "cos" {
				return r
			}
			return neg(r)
		}
		if name == "tan" {
			return div(app1("sin", args), app1("cos", args))
		}
	case "floor", "trunc", "ceil", "round":
		if x.k <= KInt {
			return x
		}
		if c, ok := x.isConst(); ok {
			q := new(big.Int)
			m := new(big.Int)
			q.DivMod(c.Num(), c.Denom(), m)
			switch name {
			case "floor":
				return ratP(new(big.Rat).SetInt(q))
			case "ceil":
				if m.Sign() != 0 {
					q.Add(q, big.NewInt(1))
				}
				return ratP(new(big.Rat).SetInt(q))
			case "trunc":
				if m.Sign() != 0 && c.Sign() < 0 {
					q.Add(q, big.NewInt(1))
				}
				return ratP(new(big.Rat).SetInt(q))
			case "round":
				h := new(big.Rat).Add(c, big.NewRat(1, 2))
				q.DivMod(h.Num(), h.Denom(), m)
				return ratP(new(big.Rat).SetInt(q))
			}
		}
		kind = KInt
	}
	a := rawAtom("app", name, kind, args...)
	if name == "exp" && kind <= KReal {
		a.nonneg = true
	}
	return atomP(a)
}

var mathFns = map[string]bool{"exp": true, "log": true, "sin": true, "cos": true, "tan": true, "floor": true, "trunc": true, "ceil": true, "round": true,
	"quo": true, "sqrt": true, "pow": true, "abs": true, "cabs": true, "conj": true, "fft": true, "ifft": true, "concat": true}

// appK is an application of an uninterpreted function.
func appK(name string, k Kind, args ...Node) *Poly {
	return appKP(name, k, nil, false, args...)
}

func appKP(name string, k Kind, pay interface{}, nonneg bool, args ...Node) *Poly {
	if len(args) == 0 {
		a := rawAtom("app", name, k)
		if pay != nil {
			a.pay = pay
		}
		if nonneg {
			a.nonneg = true
		}
		return atomP(a)
	}
	return lifted(args, func(n []Node) *Poly {
		a := rawAtom("app", name, k, n...)
		if pay != nil {
			a.pay = pay
		}
		if nonneg {
			a.nonneg = true
		}
		return atomP(a)
	})
}

func concat(args ...Node) *Poly {
	return lifted(args, func(n []Node) *Poly {
		var flat []Node
		push := func(x Node) {
			p := x.(*Poly)
			if s, ok := p.strConst(); ok {
				if s == "" {
					return
				}
				if len(flat) > 0 {
					if l, ok := flat[len(flat)-1].(*Poly).strConst(); ok {
						flat[len(flat)-1] = strP(l + s)
						return
					}
				}
			}
			flat = append(flat, p)
		}
		for _, x := range n {
			if a := x.(*Poly).single(); a != nil && a.op == "app" && a.name == "concat" {
				for _, y := range a.args {
					push(y)
				}
				continue
			}
			push(x)
		}
		if len(flat) == 0 {
			return strP("")
		}
		if len(flat) == 1 {
			return flat[0].(*Poly)
		}
		return atomP(rawAtom("app", "concat", KOther, flat...))
	})
}

// splitByVar distributes body over its monomials and separates x-free factors.
func splitByVar(body *Poly, x *Atom, f func(free *Poly, dep *Poly) *Poly) *Poly {
	a := newAcc()
	// group monomials by their x-dependent part
	type grp struct {
		dep  *Mono
		free *acc
	}
	gs := map[int]*grp{}
	var order []int
	for _, t := range body.t {
		var fr, dp []Factor
		for _, g := range t.m.f {
			if occursA(g.a, x) {
				dp = append(dp, g)
			} else {
				fr = append(fr, g)
			}
		}
		d := internMono(dp)
		g, ok := gs[d.id]
		if !ok {
			g = &grp{d, newAcc()}
			gs[d.id] = g
			order = append(order, d.id)
		}
		g.free.addMono(t.c, internMono(fr))
	}
	for _, id := range order {
		g := gs[id]
		fr := g.free.poly()
		if fr == Zero {
			continue
		}
		a.add(f(fr, monoP(g.dep)), nil)
	}
	return a.poly()
}

// fftApp: the discrete transform is linear; a forward transform followed by an
// inverse one (or vice versa) multiplies by the number of points.
func fftApp(name string, l *Lam, idx *Poly) *Poly {
	w := openVar(l.n)
	defer closeVar()

	body := l.open(atomP(w)).(*Poly)

	inverse := "ifft"
	if name == "ifft" {
		inverse = "fft"
	}
	return splitByVar(body, w, func(free, dep *Poly) *Poly {
		if s := dep.single(); s != nil && s.op == "app" && s.name == inverse && l.n != nil {
			if s.args[1] == Node(atomP(w)) && !occurs(s.args[0], w) {
				in := s.args[0].(*Lam)
				return mul(free, l.n, in.open(idx).(*Poly))
			}
		}
		lam := mkLamN(w, l.n, dep)
		return mul2(free, lifted([]Node{idx}, func(n []Node) *Poly {
			return atomP(rawAtom("app", name, KCplx, lam, n[0]))
		}))
	})
}

// ---------------------------------------------------------------- binders

// mkBind builds sum/prod/first over 0 <= k < n.
func mkBind(op string, k *Atom, n *Poly, body *Poly) *Poly {
	switch op {
	case "sum":
		return mkSum(k, n, body)
	case "prod":
		return mkProd(k, n, body)
	case "first":
		return mkFirst(k, n, body)
	}
	panic(op)
}

func mkSum(k *Atom, n *Poly, body *Poly) *Poly {
	if body == Zero || n == Zero {
		return Zero
	}
	if topBool(n) != nil {
		return lifted([]Node{n}, func(a []Node) *Poly { return mkSum(k, a[0].(*Poly), body) })
	}
	if c, ok := n.intConst(); ok && c <= 64 {
		r := Zero
		for i := int64(0); i < c; i++ {
			r = add(r, subst1(body, k, constP(i)))
		}
		return r
	}
	return splitByVar(body, k, func(free, dep *Poly) *Poly {
		if dep == One {
			return mul(free, n)
		}
		m := dep.t[0].m
		for _, f := range m.f {
			if f.a.op == "eq" {
				if e, ok := solveFor(f.a.args[0].(*Poly), k); ok {
					rest := One
					for _, g := range m.f {
						if g.a != f.a {
							rest = mul2(rest, powP(atomP(g.a), g.e))
						}
					}
					rest = subst1(rest, k, e)
					in := and(ge(e), ge(sub(sub(n, One), e)))
					return mul(free, rest, in, intCond(e))
				}
			}
		}
		// split off small constant lower bounds [k >= c]
		for _, f := range m.f {
			if f.a.op == "ge" {
				A, B, ok := linIn(f.a.args[0].(*Poly), k)
				if !ok || A != One {
					continue
				}
				rest := One
				for _, g := range m.f {
					if g.a != f.a {
						rest = mul2(rest, powP(atomP(g.a), g.e))
					}
				}
				if c, ok := B.intConst(); ok && c < 0 && c >= -8 {
					r := mkSum(k, n, rest)
					for i := int64(0); i < -c; i++ {
						r = sub(r, mul2(subst1(rest, k, constP(i)), ge(sub(n, constP(i+1)))))
					}
					return mul2(free, r)
				}
			}
		}
		l := mkLamN(k, n, dep)
		// orientation: summing backwards is the same
		rv := subst1(dep, k, sub(sub(n, One), atomP(k)))
		if len(rv.t) == 1 {
			c, fs, q := primitive(rv)
			if q == One && c.Cmp(ratOne) == 0 {
				l2 := mkLamN(k, n, monoP(internMono(fs)))
				if l2.id < l.id {
					l = l2
				}
			}
		}
		kd := dep.k
		if kd == KBool {
			kd = KInt
		}
		a := rawAtom("sum", "", kd, n, l)
		if quickNonneg(dep) {
			a.nonneg = true
		}
		return mul2(free, atomP(a))
	})
}

// intCond: [e is an integer]; integer-kind expressions need no condition.
func intCond(e *Poly) *Poly {
	for _, t := range e.t {
		if !t.c.IsInt() {
			return appK("isint", KBool, e)
		}
	}
	return One
}

// solveFor solves p==0 for k when p is linear in k with constant coefficient.
func solveFor(p *Poly, k *Atom) (*Poly, bool) {
	A, B, ok := linIn(p, k)
	if !ok {
		return nil, false
	}
	c, ok := A.isConst()
	if !ok || c.Sign() == 0 {
		return nil, false
	}
	return scale(B, new(big.Rat).Neg(new(big.Rat).Inv(c))), true
}

func mkProd(k *Atom, n *Poly, body *Poly) *Poly {
	if body == One || n == Zero {
		return One
	}
	if topBool(n) != nil {
		return lifted([]Node{n}, func(a []Node) *Poly { return mkProd(k, a[0].(*Poly), body) })
	}
	if c, ok := n.intConst(); ok && c <= 64 {
		r := One
		for i := int64(0); i < c; i++ {
			r = mul2(r, subst1(body, k, constP(i)))
		}
		return r
	}
	if !occurs(body, k) {
		return powPP(body, n)
	}
	if len(body.t) == 1 {
		r := One
		if body.t[0].c.Cmp(ratOne) != 0 {
			r = powPP(ratP(body.t[0].c), n)
		}
		for _, f := range body.t[0].m.f {
			if occursA(f.a, k) {
				a := rawAtom("prod", "", maxK(f.a.kind, KInt), n, mkLamN(k, n, atomP(f.a)))
				a.nonneg = f.a.nonneg
				r = mul2(r, powP(atomP(a), f.e))
			} else {
				r = mul2(r, powPP(powP(atomP(f.a), f.e), n))
			}
		}
		return r
	}
	a := rawAtom("prod", "", maxK(body.k, KInt), n, mkLamN(k, n, body))
	if quickNonneg(body) {
		a.nonneg = true
	}
	return atomP(a)
}

// mkFirst is the smallest k in [0,n) with body==1, or n.
func mkFirst(k *Atom, n *Poly, body *Poly) *Poly {
	if body == Zero {
		return n
	}
	if body == One {
		return Zero
	}
	if topBool(n) != nil {
		return lifted([]Node{n}, func(a []Node) *Poly { return mkFirst(k, a[0].(*Poly), body) })
	}
	if c, ok := n.intConst(); ok && c <= 16 {
		r := n
		for i := c - 1; i >= 0; i-- {
			r = ite(subst1(body, k, constP(i)), constP(i), r)
		}
		return r
	}
	if !occurs(body, k) {
		return ite(body, Zero, n)
	}
	if r := firstKey(k, n, body); r != nil {
		return r
	}
	a := rawAtom("first", "", KInt, n, mkLamN(k, n, body))
	a.nonneg = true
	a.lo = Zero
	a.hi = n
	return atomP(a)
}

// rebuild re-applies the constructor of a to new arguments.
func rebuild(a *Atom, args []Node) *Poly {
	switch a.op {
	case "base":
		return args[0].(*Poly)
	case "ge":
		return ge(args[0].(*Poly))
	case "eq":
		return eqz(args[0].(*Poly))
	case "sum", "prod", "first":
		l, ok := args[1].(*Lam)
		if !ok {
			panic("rebuild binder")
		}
		n := args[0].(*Poly)
		w := openVar(n)
		defer closeVar()
		return mkBind(a.op, w, n, l.open(atomP(w)).(*Poly))
	case "app":
		if mathFns[a.name] {
			return app(a.name, args...)
		}
		if f := reapply[a.name]; f != nil {
			return f(args)
		}
		return appKP(a.name, a.kind, a.pay, a.nonneg, args...)
	case "ref", "slice", "box", "clos", "bound":
		return lifted(args, func(n []Node) *Poly {
			x := rawAtom(a.op, a.name, a.kind, n...)
			if x.pay == nil {
				x.pay = rebuildPay(a.pay, a.args, n)
			}
			return atomP(x)
		})
	}
	x := rawAtom(a.op, a.name, a.kind, args...)
	if x.pay == nil {
		x.pay = a.pay
	}
	x.nonneg = a.nonneg
	return atomP(x)
}

var reapply = map[string]func([]Node) *Poly{}

// ---------------------------------------------------------------- equality

// bases collects denominators.
func denominators(p *Poly) map[*Atom]int {
	r := map[*Atom]int{}
	for _, t := range p.t {
		for _, f := range t.m.f {
			if f.e < 0 && (f.a.op == "base") {
				if f.e < r[f.a] {
					r[f.a] = f.e
				}
			}
		}
	}
	return r
}

func isZero(p *Poly) bool {
	if p == Zero {
		return true
	}
	for i := 0; i < 6; i++ {
		d := denominators(p)
		if len(d) == 0 {
			break
		}
		for a, e := range d {
			p = mul2(p, monoP(internMono([]Factor{{a, -e}})))
			break
		}
		if p == Zero {
			return true
		}
	}
	return false
}

// same decides equality of two value numbers.
func same(a, b *Poly) bool {
	if a == b {
		return true
	}
	d := sub(a, b)
	if isZero(d) {
		return true
	}
	return caseZero(d, 10)
}

// caseZero splits on conditions and checks each feasible case.
func caseZero(p *Poly, depth int) bool {
	if p == Zero {
		return true
	}
	c := topBool(p)
	if c == nil {
		return isZero(p)
	}
	if depth == 0 {
		return false
	}
	one := assume(p, c, true)
	if !caseZero(one, depth-1) {
		return false
	}
	return caseZero(assume(p, c, false), depth-1)
}

// assume simplifies p under the truth value of the condition c.
func assume(p *Poly, c *Atom, v bool) *Poly {
	if v {
		q := newSubst(map[*Atom]*Poly{c: One}).poly(p)
		if c.op == "eq" {
			if t, e := solveEq(c); t != nil {
				q = newSubst(map[*Atom]*Poly{t: e}).poly(q)
			}
			return q
		}
		// other comparisons decided by c
		m := map[*Atom]*Poly{}
		for _, t := range q.t {
			for _, f := range t.m.f {
				if f.a != c && (f.a.op == "ge" || f.a.op == "eq") && c.op == "ge" {
					r := mul2(atomP(c), atomP(f.a))
					if r == Zero {
						m[f.a] = Zero
					} else if r == atomP(c) {
						m[f.a] = One
					}
				}
			}
		}
		if len(m) > 0 {
			q = newSubst(m).poly(q)
		}
		return q
	}
	q := newSubst(map[*Atom]*Poly{c: Zero}).poly(p)
	m := map[*Atom]*Poly{}
	for _, t := range q.t {
		for _, f := range t.m.f {
			if f.a != c && (f.a.op == "ge" || f.a.op == "eq") && c.op == "ge" {
				r := mul2(atomP(c), atomP(f.a))
				if r == atomP(f.a) { // f implies c; c false => f false
					m[f.a] = Zero
				}
			}
		}
	}
	if len(m) > 0 {
		q = newSubst(m).poly(q)
	}
	return q
}
