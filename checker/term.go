package main

// Value numbers.  Every scalar value the analysed program can compute is
// represented by a hash-consed normal form: a polynomial with rational
// coefficients over atoms.  Conditions are 0/1-valued atoms (Iverson brackets)
// of the same ring, so a gated merge of two values at a control-flow join is
// again a polynomial.  Equality of normal forms is pointer equality.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KReal
	KCplx
	KOther
)

type Node interface {
	nid() int
	height() int
	free() []int32
	String() string
}

type Atom struct {
	id     int
	op     string // sym, beta, app, base, ge, eq, sum, prod, ... , ref, slice, str, clos, box, nil
	name   string
	args   []Node
	kind   Kind
	nonneg bool
	h      int
	fs     []int32
	pay    interface{}
	rank   int
	lo, hi *Poly // bounds for bounded symbols (inclusive)
}

type Factor struct {
	a *Atom
	e int
}

type Mono struct {
	id int
	f  []Factor
}

type Term struct {
	c *big.Rat
	m *Mono
}

type Poly struct {
	id int
	t  []Term
	h  int
	fs []int32
	k  Kind
}

type Lam struct {
	id   int
	h    int
	body Node
	fs   []int32
	n    *Poly // optional range of the bound variable (may be nil)
}

type Tup struct {
	id int
	x  []Node
	h  int
	fs []int32
}

func (a *Atom) nid() int      { return a.id }
func (a *Atom) height() int   { return a.h }
func (a *Atom) free() []int32 { return a.fs }
func (p *Poly) nid() int      { return p.id }
func (p *Poly) height() int   { return p.h }
func (p *Poly) free() []int32 { return p.fs }
func (l *Lam) nid() int       { return l.id }
func (l *Lam) height() int    { return l.h }
func (l *Lam) free() []int32  { return l.fs }
func (t *Tup) nid() int       { return t.id }
func (t *Tup) height() int    { return t.h }
func (t *Tup) free() []int32  { return t.fs }

var (
	nextID   = 1
	atomTab  = map[string]*Atom{}
	atomByID = map[int]*Atom{}
	monoTab  = map[string]*Mono{}
	polyTab  = map[string]*Poly{}
	lamTab   = map[string]*Lam{}
	tupTab   = map[string]*Tup{}
	monoOne  *Mono
	Zero     *Poly
	One      *Poly
	ImagU    *Atom
	PiA      *Atom
)

func newID() int { nextID++; return nextID }

func unionFS(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	if len(r) == len(a) {
		return a
	}
	if len(r) == len(b) {
		return b
	}
	return r
}

func hasFS(s []int32, x int) bool {
	i := sort.Search(len(s), func(i int) bool { return s[i] >= int32(x) })
	return i < len(s) && s[i] == int32(x)
}

func dropFS(s []int32, x int) []int32 {
	if !hasFS(s, x) {
		return s
	}
	r := make([]int32, 0, len(s))
	for _, v := range s {
		if v != int32(x) {
			r = append(r, v)
		}
	}
	return r
}

func init() {
	monoOne = internMono(nil)
	Zero = internPoly(nil)
	One = constP(1)
	ImagU = sym("I", KCplx)
	PiA = sym("π", KReal)
	PiA.nonneg = true
}

// ---------------------------------------------------------------- interning

func rawAtom(op, name string, kind Kind, args ...Node) *Atom {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.nid()))
	}
	k := sb.String()
	if a, ok := atomTab[k]; ok {
		return a
	}
	a := &Atom{id: newID(), op: op, name: name, kind: kind, args: args}
	for _, x := range args {
		if x.height() > a.h {
			a.h = x.height()
		}
		a.fs = unionFS(a.fs, x.free())
	}
	if op == "sym" || op == "beta" {
		a.fs = []int32{int32(a.id)}
	}
	if len(atomTab) > 6000000 {
		panic(tooBig{"term table"})
	}
	atomTab[k] = a
	atomByID[a.id] = a
	return a
}

type tooBig struct{ what string }

// workDeadline bounds the normalisation work of one obligation.
var (
	workDeadline time.Time
	workCount    int
)

func workTick() {
	workCount++
	if workCount&511 == 0 && !workDeadline.IsZero() && time.Now().After(workDeadline) {
		panic(tooBig{"time"})
	}
}

func internMono(f []Factor) *Mono {
	var sb strings.Builder
	for _, x := range f {
		sb.WriteString(strconv.Itoa(x.a.id))
		sb.WriteByte('^')
		sb.WriteString(strconv.Itoa(x.e))
		sb.WriteByte(' ')
	}
	k := sb.String()
	if m, ok := monoTab[k]; ok {
		return m
	}
	m := &Mono{id: newID(), f: append([]Factor(nil), f...)}
	monoTab[k] = m
	return m
}

func internPoly(t []Term) *Poly {
	var sb strings.Builder
	for _, x := range t {
		sb.WriteString(x.c.RatString())
		sb.WriteByte('*')
		sb.WriteString(strconv.Itoa(x.m.id))
		sb.WriteByte(' ')
	}
	k := sb.String()
	if p, ok := polyTab[k]; ok {
		return p
	}
	p := &Poly{id: newID(), t: t}
	for _, x := range t {
		mk := KBool
		if !x.c.IsInt() {
			mk = KReal
		} else if x.c.Cmp(big.NewRat(1, 1)) != 0 {
			mk = KInt
		}
		for _, f := range x.m.f {
			if f.a.h > p.h {
				p.h = f.a.h
			}
			p.fs = unionFS(p.fs, f.a.fs)
			fk := f.a.kind
			if f.e < 0 && fk < KReal {
				fk = KReal
			}
			if fk > mk {
				mk = fk
			}
		}
		if len(t) > 1 && mk < KInt {
			mk = KInt
		}
		if mk > p.k {
			p.k = mk
		}
	}
	if len(polyTab) > 6000000 {
		panic(tooBig{"polynomial table"})
	}
	polyTab[k] = p
	return p
}

func mkTup(x ...Node) *Tup {
	var sb strings.Builder
	for _, a := range x {
		sb.WriteString(strconv.Itoa(a.nid()))
		sb.WriteByte(',')
	}
	k := sb.String()
	if t, ok := tupTab[k]; ok {
		return t
	}
	t := &Tup{id: newID(), x: x}
	for _, a := range x {
		if a.height() > t.h {
			t.h = a.height()
		}
		t.fs = unionFS(t.fs, a.free())
	}
	tupTab[k] = t
	return t
}

// ---------------------------------------------------------------- builders

func sym(name string, k Kind) *Atom { return rawAtom("sym", name, k) }

func symN(name string, k Kind) *Atom { a := sym(name, k); a.nonneg = true; return a }

func atomP(a *Atom) *Poly {
	return internPoly([]Term{{big.NewRat(1, 1), internMono([]Factor{{a, 1}})}})
}

func ratP(r *big.Rat) *Poly {
	if r.Sign() == 0 {
		return Zero
	}
	return internPoly([]Term{{r, monoOne}})
}

func constP(n int64) *Poly { return ratP(big.NewRat(n, 1)) }

func fracP(a, b int64) *Poly { return ratP(big.NewRat(a, b)) }

func strP(s string) *Poly { return atomP(rawAtom("str", s, KOther)) }

func (p *Poly) isConst() (*big.Rat, bool) {
	if len(p.t) == 0 {
		return new(big.Rat), true
	}
	if len(p.t) == 1 && p.t[0].m == monoOne {
		return p.t[0].c, true
	}
	return nil, false
}

func (p *Poly) intConst() (int64, bool) {
	r, ok := p.isConst()
	if !ok || !r.IsInt() || !r.Num().IsInt64() {
		return 0, false
	}
	return r.Num().Int64(), true
}

// single returns the atom if p is exactly one atom.
func (p *Poly) single() *Atom {
	if len(p.t) == 1 && len(p.t[0].m.f) == 1 && p.t[0].m.f[0].e == 1 && p.t[0].c.Cmp(ratOne) == 0 {
		return p.t[0].m.f[0].a
	}
	return nil
}

func (p *Poly) strConst() (string, bool) {
	if a := p.single(); a != nil && a.op == "str" {
		return a.name, true
	}
	return "", false
}

var ratOne = big.NewRat(1, 1)

type acc struct{ m map[int]*Term }

func newAcc() *acc { return &acc{m: map[int]*Term{}} }

func (a *acc) addMono(c *big.Rat, m *Mono) {
	if t, ok := a.m[m.id]; ok {
		t.c = new(big.Rat).Add(t.c, c)
		return
	}
	a.m[m.id] = &Term{c, m}
}

func (a *acc) add(p *Poly, c *big.Rat) {
	for _, t := range p.t {
		if c == nil {
			a.addMono(t.c, t.m)
		} else {
			a.addMono(new(big.Rat).Mul(t.c, c), t.m)
		}
	}
}

func (a *acc) poly() *Poly {
	ts := make([]Term, 0, len(a.m))
	for _, t := range a.m {
		if t.c.Sign() != 0 {
			ts = append(ts, *t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].m.id < ts[j].m.id })
	return internPoly(ts)
}

func add(ps ...*Poly) *Poly {
	if len(ps) == 2 {
		if len(ps[0].t) == 0 {
			return ps[1]
		}
		if len(ps[1].t) == 0 {
			return ps[0]
		}
	}
	a := newAcc()
	for _, p := range ps {
		a.add(p, nil)
	}
	return a.poly()
}

func scale(p *Poly, c *big.Rat) *Poly {
	if c.Cmp(ratOne) == 0 {
		return p
	}
	a := newAcc()
	a.add(p, c)
	return a.poly()
}

func neg(p *Poly) *Poly    { return scale(p, big.NewRat(-1, 1)) }
func sub(a, b *Poly) *Poly { return add(a, neg(b)) }

var mulCache = map[[2]int]*Poly{}

const maxMonos = 20000

func mul(ps ...*Poly) *Poly {
	r := ps[0]
	for _, p := range ps[1:] {
		r = mul2(r, p)
	}
	return r
}

func mul2(p, q *Poly) *Poly {
	if p == One {
		return q
	}
	if q == One {
		return p
	}
	if p == Zero || q == Zero {
		return Zero
	}
	if c, ok := p.isConst(); ok {
		return scale(q, c)
	}
	if c, ok := q.isConst(); ok {
		return scale(p, c)
	}
	key := [2]int{p.id, q.id}
	if p.id > q.id {
		key = [2]int{q.id, p.id}
	}
	if r, ok := mulCache[key]; ok {
		return r
	}
	workTick()
	a := newAcc()
	for _, t := range p.t {
		for _, u := range q.t {
			c := new(big.Rat).Mul(t.c, u.c)
			a.add(mulMono(t.m, u.m), c)
			if len(a.m) > maxMonos {
				panic(tooBig{"polynomial product"})
			}
		}
	}
	r := a.poly()
	mulCache[key] = r
	return r
}

var monoMulCache = map[[2]int]*Poly{}

func mergeFactors(x, y []Factor) []Factor {
	r := make([]Factor, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		switch {
		case j >= len(y) || (i < len(x) && x[i].a.id < y[j].a.id):
			r = append(r, x[i])
			i++
		case i >= len(x) || y[j].a.id < x[i].a.id:
			r = append(r, y[j])
			j++
		default:
			e := x[i].e + y[j].e
			if x[i].a.kind == KBool && e > 1 {
				e = 1
			}
			if e != 0 {
				r = append(r, Factor{x[i].a, e})
			}
			i++
			j++
		}
	}
	return r
}

func mulMono(x, y *Mono) *Poly {
	if x == monoOne {
		return monoP(y)
	}
	if y == monoOne {
		return monoP(x)
	}
	key := [2]int{x.id, y.id}
	if x.id > y.id {
		key = [2]int{y.id, x.id}
	}
	if r, ok := monoMulCache[key]; ok {
		return r
	}
	r := normFactors(mergeFactors(x.f, y.f))
	monoMulCache[key] = r
	return r
}

func monoP(m *Mono) *Poly {
	return internPoly([]Term{{big.NewRat(1, 1), m}})
}

func powP(p *Poly, e int) *Poly {
	if e == 0 {
		return One
	}
	if e < 0 {
		return powP(inv(p), -e)
	}
	if e == 1 {
		return p
	}
	r := One
	for i := 0; i < e; i++ {
		r = mul2(r, p)
	}
	return r
}

// normFactors applies the ring's rewrite rules to a product of atoms.
func normFactors(f []Factor) *Poly {
	workTick()
	without := func(idx ...int) []Factor {
		r := make([]Factor, 0, len(f))
	outer:
		for i, x := range f {
			for _, j := range idx {
				if i == j {
					continue outer
				}
			}
			r = append(r, x)
		}
		return r
	}
	rest := func(idx ...int) *Poly { return normFactors(without(idx...)) }
	expIdx := -1
	for i, x := range f {
		a := x.a
		switch {
		case a == ImagU && (x.e > 1 || x.e < 0):
			e := ((x.e % 4) + 4) % 4
			p := rest(i)
			switch e {
			case 0:
				return p
			case 1:
				return mul2(p, atomP(ImagU))
			case 2:
				return neg(p)
			default:
				return neg(mul2(p, atomP(ImagU)))
			}
		case a.op == "app" && a.name == "sqrt" && (x.e >= 2 || x.e <= -2):
			p := rest(i)
			n := x.e / 2
			r := x.e - 2*n
			p = mul2(p, powP(a.args[0].(*Poly), n))
			if r != 0 {
				p = mul2(p, powP(atomP(a), r))
			}
			return p
		case a.op == "app" && a.name == "sin" && x.e >= 2:
			p := rest(i)
			c := app("cos", a.args[0])
			p = mul2(p, sub(One, mul2(c, c)))
			for j := 2; j < x.e; j++ {
				p = mul2(p, atomP(a))
			}
			return p
		case a.op == "app" && (a.name == "abs") && (x.e >= 2 || x.e <= -2):
			p := rest(i)
			n := x.e / 2
			p = mul2(p, powP(a.args[0].(*Poly), 2*n))
			if x.e-2*n != 0 {
				p = mul2(p, powP(atomP(a), x.e-2*n))
			}
			return p
		case a.op == "app" && a.name == "cabs" && x.e >= 2:
			// |z|^2 = z * conj(z)
			p := rest(i)
			z := a.args[0].(*Poly)
			p = mul2(p, mul2(z, conjP(z)))
			for j := 2; j < x.e; j++ {
				p = mul2(p, atomP(a))
			}
			return p
		case a.op == "app" && a.name == "exp":
			if expIdx >= 0 {
				y := f[expIdx]
				e := add(scale(a.args[0].(*Poly), big.NewRat(int64(x.e), 1)), scale(y.a.args[0].(*Poly), big.NewRat(int64(y.e), 1)))
				return mul2(rest(i, expIdx), app("exp", e))
			}
			if x.e != 1 {
				return mul2(rest(i), app("exp", scale(a.args[0].(*Poly), big.NewRat(int64(x.e), 1))))
			}
			expIdx = i
		}
	}
	// base(p)^-n times atoms: cancel when the base is a factor that also occurs positively
	for i, x := range f {
		if x.a.op == "base" && x.e > 0 {
			return mul2(rest(i), powP(x.a.args[0].(*Poly), x.e))
		}
	}
	// Iverson interaction
	nb := 0
	for _, x := range f {
		if x.a.op == "ge" || x.a.op == "eq" {
			nb++
		}
	}
	if nb > 0 && len(f) > 1 {
		for i, x := range f {
			if x.a.op != "eq" {
				continue
			}
			tgt, e := solveEq(x.a)
			if tgt == nil {
				continue
			}
			// does any other factor depend on tgt?
			dep := false
			for j, y := range f {
				if j != i && occursA(y.a, tgt) {
					dep = true
					break
				}
			}
			if dep {
				o := One
				for j, y := range f {
					if j != i {
						o = mul2(o, powP(substAtom(y.a, tgt, e), y.e))
					}
				}
				// after substitution the product no longer mentions tgt
				return mulEq(o, x.a, tgt)
			}
		}
		if nb > 1 {
			for i := range f {
				x := f[i].a
				if x.op != "ge" && x.op != "eq" {
					continue
				}
				for j := i + 1; j < len(f); j++ {
					y := f[j].a
					if y.op != "ge" && y.op != "eq" {
						continue
					}
					if r, ok := ivPair(x, y); ok {
						return mul2(rest(i, j), r)
					}
				}
			}
		}
	}
	return monoP(internMono(f))
}

// mulEq multiplies o by the equality atom x without re-substituting tgt.
func mulEq(o *Poly, x *Atom, tgt *Atom) *Poly {
	a := newAcc()
	for _, t := range o.t {
		fs := mergeFactors(t.m.f, []Factor{{x, 1}})
		a.add(normFactors(fs), t.c)
	}
	return a.poly()
}

// ivPair simplifies the product of two comparison atoms.
func ivPair(x, y *Atom) (*Poly, bool) {
	p, q := x.args[0].(*Poly), y.args[0].(*Poly)
	if x.op == "eq" && y.op == "eq" {
		d := sub(p, q)
		if c, ok := d.isConst(); ok && c.Sign() != 0 {
			return Zero, true
		}
		d = add(p, q)
		if c, ok := d.isConst(); ok && c.Sign() != 0 {
			return Zero, true
		}
		return nil, false
	}
	if x.op == "ge" && y.op == "ge" {
		d := sub(p, q)
		if c, ok := d.isConst(); ok {
			if c.Sign() <= 0 { // p <= q : p>=0 implies q>=0
				return atomP(x), true
			}
			return atomP(y), true
		}
		d = add(p, q)
		if c, ok := d.isConst(); ok {
			if c.Sign() < 0 {
				return Zero, true
			}
			if c.Sign() == 0 {
				return eqz(p), true
			}
			if p.k <= KInt && q.k <= KInt {
				// 0 <= p <= c : leave
			}
		}
		// implication through known bounds: p>=0 implies q>=0 when q-p>=0 always
		if provGE(sub(q, p), 3) {
			return atomP(x), true
		}
		if provGE(sub(p, q), 3) {
			return atomP(y), true
		}
		if provGE(sub(neg(add(p, q)), One), 3) && p.k <= KInt && q.k <= KInt {
			return Zero, true
		}
		return nil, false
	}
	if x.op == "ge" {
		x, y = y, x
		p, q = q, p
	}
	// x: p==0, y: q>=0
	for _, s := range []int64{1, -1} {
		d := sub(q, scale(p, big.NewRat(s, 1)))
		if c, ok := d.isConst(); ok {
			if c.Sign() >= 0 {
				return atomP(x), true
			}
			return Zero, true
		}
		if provGE(d, 3) {
			return atomP(x), true
		}
		if provGE(sub(neg(d), One), 3) && d.k <= KInt {
			return Zero, true
		}
	}
	return nil, false
}

// effRank orders the atoms an equality may eliminate: bound variables first,
// then terms that depend on one, then loop counters, then closed terms.
func effRank(a *Atom) int {
	if a.op != "sym" && a.op != "beta" && len(a.fs) == 0 {
		return -2
	}
	return a.rank
}

// solveEq picks the atom that an equality determines.
var solveCache = map[int]struct {
	a *Atom
	e *Poly
}{}

func solveEq(x *Atom) (*Atom, *Poly) {
	if r, ok := solveCache[x.id]; ok {
		return r.a, r.e
	}
	p := x.args[0].(*Poly)
	var best *Atom
	var bc *big.Rat
	for _, t := range p.t {
		if len(t.m.f) != 1 || t.m.f[0].e != 1 {
			continue
		}
		a := t.m.f[0].a
		if a.kind == KBool || a == PiA || a == ImagU || a.op == "str" || a.op == "nil" || a.op == "base" {
			continue
		}
		if a.op == "ref" || a.op == "slice" || a.op == "clos" || a.op == "box" || a.op == "func" {
			continue
		}
		n := 0
		for _, u := range p.t {
			for _, g := range u.m.f {
				if occursA(g.a, a) {
					n++
				}
			}
		}
		if n != 1 {
			continue
		}
		ra := effRank(a)
		if best == nil || ra > effRank(best) || (ra == effRank(best) && (a.op == "sym") && best.op != "sym") ||
			(ra == effRank(best) && (a.op == "sym") == (best.op == "sym") && a.id > best.id) {
			best, bc = a, t.c
		}
	}
	var e *Poly
	if best != nil {
		r := sub(p, scale(atomP(best), bc))
		e = scale(r, new(big.Rat).Neg(new(big.Rat).Inv(bc)))
	}
	solveCache[x.id] = struct {
		a *Atom
		e *Poly
	}{best, e}
	return best, e
}

// ---------------------------------------------------------------- occurrence and substitution

var occCache = map[[2]int]bool{}

func occursA(a, tgt *Atom) bool {
	if a == tgt {
		return true
	}
	if tgt.op == "sym" || tgt.op == "beta" {
		return hasFS(a.fs, tgt.id)
	}
	if len(a.args) == 0 {
		return false
	}
	key := [2]int{a.id, tgt.id}
	if v, ok := occCache[key]; ok {
		return v
	}
	r := false
	for _, x := range a.args {
		if occurs(x, tgt) {
			r = true
			break
		}
	}
	occCache[key] = r
	return r
}

func occurs(n Node, tgt *Atom) bool {
	if tgt.op == "sym" || tgt.op == "beta" {
		return hasFS(n.free(), tgt.id)
	}
	switch x := n.(type) {
	case *Atom:
		return occursA(x, tgt)
	case *Poly:
		for _, t := range x.t {
			for _, f := range t.m.f {
				if occursA(f.a, tgt) {
					return true
				}
			}
		}
	case *Lam:
		return occurs(x.body, tgt)
	case *Tup:
		for _, y := range x.x {
			if occurs(y, tgt) {
				return true
			}
		}
	}
	return false
}

// Subst maps atoms to polynomials.  fn, when set, is consulted for every atom.
type Subst struct {
	m    map[*Atom]*Poly
	fn   func(s *Subst, a *Atom) (*Poly, bool)
	memo map[int]Node
	syms []int32 // symbols in the domain (for quick skip); nil if fn is set
	fnFS func(n Node) bool
}

func newSubst(m map[*Atom]*Poly) *Subst {
	s := &Subst{m: m, memo: map[int]Node{}}
	allSym := true
	for a := range m {
		if a.op != "sym" && a.op != "beta" {
			allSym = false
		}
		s.syms = append(s.syms, int32(a.id))
	}
	if !allSym {
		s.syms = nil
	} else {
		sort.Slice(s.syms, func(i, j int) bool { return s.syms[i] < s.syms[j] })
	}
	return s
}

func (s *Subst) skip(n Node) bool {
	if s.fn != nil {
		if s.fnFS != nil {
			return !s.fnFS(n)
		}
		return false
	}
	if s.syms != nil {
		fs := n.free()
		for _, x := range s.syms {
			if hasFS(fs, int(x)) {
				return false
			}
		}
		return true
	}
	return false
}

func (s *Subst) poly(p *Poly) *Poly {
	if s.skip(p) {
		return p
	}
	if r, ok := s.memo[p.id]; ok {
		return r.(*Poly)
	}
	workTick()
	a := newAcc()
	for _, t := range p.t {
		ch := false
		m := One
		for _, f := range t.m.f {
			q := s.atom(f.a)
			if q.single() != f.a {
				ch = true
			}
			_ = ch
			m = mul2(m, powP(q, f.e))
			if m == Zero {
				break
			}
		}
		a.add(m, t.c)
		if len(a.m) > maxMonos {
			panic(tooBig{"substitution"})
		}
	}
	r := a.poly()
	s.memo[p.id] = r
	return r
}

func (s *Subst) atom(a *Atom) *Poly {
	if s.m != nil {
		if q, ok := s.m[a]; ok {
			return q
		}
	}
	if s.fn != nil {
		if q, ok := s.fn(s, a); ok {
			return q
		}
	}
	if len(a.args) == 0 || s.skip(a) {
		return atomP(a)
	}
	if r, ok := s.memo[-a.id]; ok {
		return r.(*Poly)
	}
	args := make([]Node, len(a.args))
	same := true
	for i, x := range a.args {
		args[i] = s.node(x)
		if args[i] != x {
			same = false
		}
	}
	r := atomP(a)
	if !same {
		r = rebuild(a, args)
	}
	s.memo[-a.id] = r
	return r
}

func (s *Subst) node(n Node) Node {
	switch x := n.(type) {
	case *Poly:
		return s.poly(x)
	case *Lam:
		if s.skip(x) {
			return x
		}
		if r, ok := s.memo[x.id]; ok {
			return r
		}
		var nn *Poly
		if x.n != nil {
			nn = s.poly(x.n)
		}
		w := openVar(nn)
		inner := &Subst{m: map[*Atom]*Poly{}, fn: s.fn, memo: map[int]Node{}, syms: nil, fnFS: nil}
		for k, v := range s.m {
			inner.m[k] = v
		}
		inner.m[beta(x.h)] = atomP(w)
		if s.fn == nil && s.syms != nil {
			inner.syms = append(append([]int32{}, s.syms...), int32(beta(x.h).id))
			sort.Slice(inner.syms, func(i, j int) bool { return inner.syms[i] < inner.syms[j] })
		}
		b := inner.node(x.body)
		r := mkLamN(w, nn, b)
		closeVar()
		s.memo[x.id] = r
		return r
	case *Tup:
		if s.skip(x) {
			return x
		}
		y := make([]Node, len(x.x))
		for i := range y {
			y[i] = s.node(x.x[i])
		}
		return mkTup(y...)
	case *Atom:
		return s.atom(x)
	}
	panic("node")
}

func substP(p *Poly, m map[*Atom]*Poly) *Poly {
	if len(m) == 0 {
		return p
	}
	return newSubst(m).poly(p)
}

func subst1(p *Poly, a *Atom, e *Poly) *Poly {
	if !occurs(p, a) {
		return p
	}
	return newSubst(map[*Atom]*Poly{a: e}).poly(p)
}

var substAtomCache = map[[3]int]*Poly{}

func substAtom(a *Atom, tgt *Atom, e *Poly) *Poly {
	key := [3]int{a.id, tgt.id, e.id}
	if r, ok := substAtomCache[key]; ok {
		return r
	}
	r := newSubst(map[*Atom]*Poly{tgt: e}).atom(a)
	substAtomCache[key] = r
	return r
}

// ---------------------------------------------------------------- binders

var openDepth = 0

// openVar yields the symbol used while a binder is open; its range is part of
// its identity so that cached simplifications stay valid.
func openVar(n *Poly) *Atom {
	nm := "ω" + strconv.Itoa(openDepth)
	if n != nil {
		nm += "<" + strconv.Itoa(n.id)
	}
	openDepth++
	a := sym(nm, KInt)
	a.rank = 2
	if n != nil {
		a.nonneg = true
		a.lo = Zero
		a.hi = sub(n, One)
	}
	return a
}

func closeVar() { openDepth-- }

func beta(h int) *Atom {
	a := rawAtom("beta", strconv.Itoa(h), KInt)
	a.rank = 2
	return a
}

func mkLam(x *Atom, body Node) *Lam { return mkLamN(x, nil, body) }

// mkLamN closes body over x.  The body is first renormalised over a canonical
// closing symbol (so the result does not depend on which symbol was open), then
// that symbol is replaced by the bound variable without any rewriting.
func mkLamN(x *Atom, n *Poly, body Node) *Lam {
	h := body.height() + 1
	var b Node
	for try := 0; ; try++ {
		k := closing(h, n)
		for k != x && (hasFS(body.free(), k.id) || hasFS(body.free(), beta(h).id)) {
			h++
			k = closing(h, n)
		}
		b = body
		if k != x {
			b = newSubst(map[*Atom]*Poly{x: atomP(k)}).node(body)
		}
		if b.height()+1 == h || try > 3 {
			if b.height() >= h {
				h = b.height() + 1
			}
			b = rawClose(b, k, h, map[int]Node{})
			break
		}
		h = b.height() + 1
	}
	return rawLam(h, n, b)
}

func closing(h int, n *Poly) *Atom {
	nm := "χ" + strconv.Itoa(h)
	if n != nil {
		nm += "<" + strconv.Itoa(n.id)
	}
	a := sym(nm, KInt)
	a.rank = 2
	if n != nil {
		a.nonneg = true
		a.lo = Zero
		a.hi = sub(n, One)
	}
	return a
}

func rawClose(n Node, x *Atom, h int, memo map[int]Node) Node {
	if !hasFS(n.free(), x.id) {
		return n
	}
	if r, ok := memo[n.nid()]; ok {
		return r
	}
	var r Node
	switch y := n.(type) {
	case *Atom:
		if y == x {
			return beta(h)
		}
		args := make([]Node, len(y.args))
		for i := range args {
			args[i] = rawClose(y.args[i], x, h, memo)
		}
		b := rawAtom(y.op, y.name, y.kind, args...)
		b.nonneg, b.rank = y.nonneg, y.rank
		if b.pay == nil {
			b.pay = y.pay
		}
		r = b
	case *Poly:
		ts := make([]Term, len(y.t))
		for i, t := range y.t {
			fs := make([]Factor, len(t.m.f))
			for j, f := range t.m.f {
				fs[j] = Factor{rawClose(f.a, x, h, memo).(*Atom), f.e}
			}
			sort.Slice(fs, func(p, q int) bool { return fs[p].a.id < fs[q].a.id })
			ts[i] = Term{t.c, internMono(fs)}
		}
		sort.Slice(ts, func(p, q int) bool { return ts[p].m.id < ts[q].m.id })
		r = internPoly(ts)
	case *Lam:
		var nn *Poly
		if y.n != nil {
			nn = rawClose(y.n, x, h, memo).(*Poly)
		}
		r = rawLam(y.h, nn, rawClose(y.body, x, h, memo))
	case *Tup:
		xs := make([]Node, len(y.x))
		for i := range xs {
			xs[i] = rawClose(y.x[i], x, h, memo)
		}
		r = mkTup(xs...)
	}
	memo[n.nid()] = r
	return r
}

func rawLam(h int, n *Poly, b Node) *Lam {
	nid := -1
	if n != nil {
		nid = n.id
	}
	k := strconv.Itoa(h) + "." + strconv.Itoa(b.nid()) + "." + strconv.Itoa(nid)
	if l, ok := lamTab[k]; ok {
		return l
	}
	l := &Lam{id: newID(), h: h, body: b, n: n}
	l.fs = dropFS(b.free(), beta(h).id)
	if n != nil {
		l.fs = unionFS(l.fs, n.fs)
	}
	lamTab[k] = l
	return l
}

func (l *Lam) open(e *Poly) Node {
	return newSubst(map[*Atom]*Poly{beta(l.h): e}).node(l.body)
}

// freshSym returns a symbol that has not been used before.
var freshCount = 0

func freshSym(prefix string, k Kind) *Atom {
	freshCount++
	return sym(prefix+"#"+strconv.Itoa(freshCount), k)
}

// ---------------------------------------------------------------- printing

func (p *Poly) String() string {
	if len(p.t) == 0 {
		return "0"
	}
	var parts []string
	for _, t := range p.t {
		var fs []string
		for _, f := range t.m.f {
			s := f.a.String()
			if f.e != 1 {
				s += "^" + strconv.Itoa(f.e)
			}
			fs = append(fs, s)
		}
		c := t.c.RatString()
		if len(c) > 24 {
			v, _ := t.c.Float64()
			c = fmt.Sprintf("%g", v)
		}
		switch {
		case len(fs) == 0:
			parts = append(parts, c)
		case c == "1":
			parts = append(parts, strings.Join(fs, "*"))
		case c == "-1":
			parts = append(parts, "-"+strings.Join(fs, "*"))
		default:
			parts = append(parts, c+"*"+strings.Join(fs, "*"))
		}
	}
	sort.Strings(parts)
	s := strings.Join(parts, " + ")
	return strings.ReplaceAll(s, "+ -", "- ")
}

func (a *Atom) String() string {
	switch a.op {
	case "sym":
		return a.name
	case "beta":
		return "β" + a.name
	case "str":
		return strconv.Quote(a.name)
	case "nil":
		return "nil"
	case "ge":
		return "[" + a.args[0].String() + " >= 0]"
	case "eq":
		return "[" + a.args[0].String() + " == 0]"
	case "base":
		return "(" + a.args[0].String() + ")"
	}
	var s []string
	for _, x := range a.args {
		s = append(s, x.String())
	}
	nm := a.name
	if a.op != "app" {
		nm = a.op + ":" + a.name
	}
	return nm + "(" + strings.Join(s, ", ") + ")"
}

func (l *Lam) String() string {
	return "λβ" + strconv.Itoa(l.h) + "." + l.body.String()
}

func (t *Tup) String() string {
	var s []string
	for _, x := range t.x {
		s = append(s, x.String())
	}
	return "⟨" + strings.Join(s, ", ") + "⟩"
}

func short(s string) string {
	r := []rune(s)
	if len(r) > 400 {
		return string(r[:400]) + "…"
	}
	return s
}
