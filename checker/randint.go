package main

// Random interpretation (Gulwani & Necula): when two value numbers do not meet
// in the same normal form, both are evaluated under pseudo-random
// interpretations of the uninterpreted symbols they contain.  Inputs, opaque
// calls, lengths, ... become random functions; sums, transforms, folds and
// conditions keep their meaning.  A difference under an interpretation that
// satisfies the assumptions is a witness that the two values differ; agreement
// under all of them identifies the values.  Only value numbers are evaluated;
// no code of the analysed program runs.

import (
	"fmt"
	"math"
	"math/cmplx"
	"os"
	"sort"
	"strconv"
	"strings"
)

type rv struct {
	c complex128
	o map[uint64]float64 // formal combination of non-numeric atoms
}

func num(x float64) rv { return rv{c: complex(x, 0)} }

type riFail struct{ why string }

type fnTab struct {
	args [][]argV
	vals []rv
}

type argV struct {
	n   bool
	c   complex128
	tab []argV
	o   map[uint64]float64
}

type RI struct {
	seed   uint64
	env    map[*Atom]rv
	memo   map[int]rv
	tabs   map[string]*fnTab
	accs   map[string]func([]rv) rv
	work   int
	limit  int
	gen    func(r *RI, a *Atom, args []rv) (rv, bool)
	hasAcc map[int]bool
	fmemo  map[string][]complex128
	log    []string
	logOn  bool
	small  bool
	ic     []float64 // integer constants next to comparisons
	rc     []float64
}

// thresholds collects the constants the expressions compare with, so that
// values on both sides of them are drawn.
func thresholds(ns ...Node) (ic, rc []float64) {
	seen := map[int]bool{}
	iset, rset := map[float64]bool{}, map[float64]bool{}
	cnt := 0
	var walk func(n Node, in int)
	walk = func(n Node, in int) {
		if seen[n.nid()] && in == 0 {
			return
		}
		seen[n.nid()] = true
		cnt++
		if cnt > 200000 {
			return
		}
		switch x := n.(type) {
		case *Poly:
			for _, t := range x.t {
				if in > 0 {
					f, _ := t.c.Float64()
					f = math.Abs(f)
					if t.c.IsInt() && f >= 4 && f <= 5000 {
						iset[f] = true
					}
					if f != 0 && f != 1 {
						rset[f] = true
					}
				}
				for _, f := range t.m.f {
					k := in - 1
					if k < 0 {
						k = 0
					}
					walk(f.a, k)
				}
			}
		case *Atom:
			k := 0
			if x.op == "ge" || x.op == "eq" || x.op == "app" && x.name == "quo" {
				k = 2
			}
			for _, y := range x.args {
				walk(y, k)
			}
		case *Lam:
			walk(x.body, 0)
		case *Tup:
			for _, y := range x.x {
				walk(y, 0)
			}
		}
	}
	for _, n := range ns {
		walk(n, 0)
	}
	for f := range iset {
		ic = append(ic, f)
	}
	for f := range rset {
		rc = append(rc, f)
	}
	sort.Float64s(ic)
	sort.Float64s(rc)
	return
}

// near draws an integer next to one of the thresholds.
func (r *RI) near(h uint64, max float64) (float64, bool) {
	if len(r.ic) == 0 || r.seed%4 != 2 || h>>50%2 != 0 {
		return 0, false
	}
	x := r.ic[h>>8%uint64(len(r.ic))] + float64(h>>20%4) - 1
	if x > max {
		return 0, false
	}
	return x, true
}

func newRI(seed uint64) *RI {
	return &RI{seed: seed, env: map[*Atom]rv{}, memo: map[int]rv{}, tabs: map[string]*fnTab{}, accs: map[string]func([]rv) rv{},
		limit: 3000000, hasAcc: map[int]bool{}, fmemo: map[string][]complex128{}}
}

func hash64(parts ...interface{}) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for _, b := range []byte(fmt.Sprint(p)) {
			h ^= uint64(b)
			h *= 1099511628211
		}
		h ^= 0xff
		h *= 1099511628211
	}
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 33
	return h
}

func (r *RI) tick() {
	r.work++
	if r.work > r.limit {
		panic(riFail{"work limit"})
	}
}

func close1(a, b complex128) bool {
	if a == b {
		return true
	}
	d := cmplx.Abs(a - b)
	return d <= 1e-7*(1+cmplx.Abs(a)+cmplx.Abs(b))
}

func sameOther(a, b map[uint64]float64) bool {
	for k, v := range a {
		if math.Abs(v-b[k]) > 1e-9 {
			return false
		}
	}
	for k, v := range b {
		if math.Abs(v-a[k]) > 1e-9 {
			return false
		}
	}
	return true
}

func sameArg(a, b argV) bool {
	if a.n != b.n || len(a.tab) != len(b.tab) {
		return false
	}
	if !close1(a.c, b.c) || !sameOther(a.o, b.o) {
		return false
	}
	for i := range a.tab {
		if !sameArg(a.tab[i], b.tab[i]) {
			return false
		}
	}
	return true
}

func bad(c complex128) bool {
	return cmplx.IsNaN(c) || cmplx.IsInf(c) || cmplx.Abs(c) > 1e60
}

// riOps counts evaluated value numbers; cheap pairs get many more samples.
var riOps int

const riBudget = 400000

func (r *RI) poly(p *Poly) rv {
	riOps++
	r.tick()
	if v, ok := r.memo[p.id]; ok {
		return v
	}
	var res rv
	for _, t := range p.t {
		cf, _ := t.c.Float64()
		m := complex(cf, 0)
		var oth map[uint64]float64
		// conditions first, so that guarded parts outside their domain are skipped
		zero := false
		for pass := 0; pass < 2 && !zero; pass++ {
			for _, f := range t.m.f {
				if (f.a.kind == KBool) != (pass == 0) {
					continue
				}
				v := r.atom(f.a)
				if v.o != nil {
					if oth != nil {
						panic(riFail{"product of non-numeric values"})
					}
					oth = v.o
					continue
				}
				switch {
				case f.e == 1:
					m *= v.c
				case f.e > 0:
					for i := 0; i < f.e; i++ {
						m *= v.c
					}
				default:
					if v.c == 0 {
						panic(riFail{"division by zero"})
					}
					for i := 0; i < -f.e; i++ {
						m /= v.c
					}
				}
				if m == 0 && f.a.kind == KBool {
					zero = true
					break
				}
			}
		}
		if zero {
			continue
		}
		if bad(m) {
			panic(riFail{"not finite"})
		}
		if oth != nil {
			if res.o == nil {
				res.o = map[uint64]float64{}
			}
			for k, v := range oth {
				res.o[k] += v * real(m)
			}
		} else {
			res.c += m
		}
	}
	if p.k == KOther && res.o == nil {
		res.o = map[uint64]float64{}
	}
	if p.k <= KInt && res.o == nil {
		// integer arithmetic is exact
		if x := math.Round(real(res.c)); math.Abs(x-real(res.c)) < 1e-6 {
			res.c = complex(x, 0)
		}
	}
	if r.closed(p) {
		r.memo[p.id] = res
	}
	return res
}

// closed: no bound variable and no accumulator occurs free.
func (r *RI) closed(n Node) bool {
	for _, f := range n.free() {
		if a := atomByID[int(f)]; a != nil && a.op == "beta" {
			return false
		}
	}
	return !r.acc(n)
}

func (r *RI) acc(n Node) bool {
	if v, ok := r.hasAcc[n.nid()]; ok {
		return v
	}
	v := false
	switch x := n.(type) {
	case *Atom:
		if x.op == "app" && strings.HasPrefix(x.name, "acc") {
			v = true
		}
		for _, y := range x.args {
			if r.acc(y) {
				v = true
			}
		}
	case *Poly:
		for _, t := range x.t {
			for _, f := range t.m.f {
				if r.acc(f.a) {
					v = true
				}
			}
		}
	case *Lam:
		v = r.acc(x.body) || (x.n != nil && r.acc(x.n))
	case *Tup:
		for _, y := range x.x {
			if r.acc(y) {
				v = true
			}
		}
	}
	r.hasAcc[n.nid()] = v
	return v
}

func (r *RI) int(p *Poly) int {
	v := r.poly(p)
	x := math.Round(real(v.c))
	if v.o != nil || math.Abs(x-real(v.c)) > 1e-6 || math.Abs(imag(v.c)) > 1e-6 || math.Abs(x) > 1e9 {
		panic(riFail{"not an integer"})
	}
	return int(x)
}

func (r *RI) atom(a *Atom) rv {
	r.tick()
	if v, ok := r.env[a]; ok {
		return v
	}
	if v, ok := r.memo[a.id]; ok {
		return v
	}
	v := r.atom1(a)
	if v.o == nil && bad(v.c) {
		panic(riFail{"not finite"})
	}
	if r.closed(a) {
		r.memo[a.id] = v
		if r.logOn && a.op == "app" && v.o == nil && (strings.HasPrefix(a.name, "in:") || strings.HasPrefix(a.name, "len:")) {
			r.log = append(r.log, fmt.Sprintf("%s=%s", a.String(), fmtC(v.c)))
		}
	}
	return v
}

func fmtC(c complex128) string {
	if imag(c) == 0 {
		return strconv.FormatFloat(real(c), 'g', 6, 64)
	}
	return fmt.Sprintf("%.4g%+.4gi", real(c), imag(c))
}

func b2f(b bool) rv {
	if b {
		return num(1)
	}
	return num(0)
}

func (r *RI) atom1(a *Atom) rv {
	switch a.op {
	case "sym":
		switch a {
		case ImagU:
			return rv{c: 1i}
		case PiA:
			return num(math.Pi)
		}
		if a.hi != nil || a.lo != nil {
			lo := 0
			if a.lo != nil {
				lo = r.int(a.lo)
			}
			hi := lo + 3
			if a.hi != nil && a.hi != sub(infP, One) {
				hi = r.int(a.hi)
			}
			if hi < lo {
				panic(riFail{"empty range"})
			}
			if a.hi == nil || a.hi == sub(infP, One) {
				if x, ok := r.near(hash64(r.seed, a.name, "near"), 300); ok && x >= float64(lo) {
					return num(x)
				}
			}
			return num(float64(lo) + float64(hash64(r.seed, a.name)%uint64(hi-lo+1)))
		}
		return r.fresh(a, "sym:"+a.name, nil)
	case "beta":
		panic(riFail{"free bound variable"})
	case "str":
		h := hash64("str", a.name)
		knownText[h] = true
		return rv{o: map[uint64]float64{h: 1}}
	case "nil":
		return rv{o: map[uint64]float64{hash64("nil"): 1}}
	case "ge":
		v := r.poly(a.args[0].(*Poly))
		return b2f(real(v.c) >= -1e-12)
	case "eq":
		v := r.poly(a.args[0].(*Poly))
		if v.o != nil {
			for _, x := range v.o {
				if math.Abs(x) > 1e-12 {
					return num(0)
				}
			}
		}
		return b2f(cmplx.Abs(v.c) < 1e-12)
	case "base":
		return r.poly(a.args[0].(*Poly))
	case "sum", "prod":
		n := r.int(a.args[0].(*Poly))
		if n > 4096 {
			panic(riFail{"large sum"})
		}
		l := a.args[1].(*Lam)
		s := complex(0, 0)
		if a.op == "prod" {
			s = 1
		}
		var oth map[uint64]float64
		for i := 0; i < n; i++ {
			v := r.apply(l, num(float64(i)))
			if v.o != nil {
				if oth == nil {
					oth = map[uint64]float64{}
				}
				for k, x := range v.o {
					oth[k] += x
				}
				continue
			}
			if a.op == "sum" {
				s += v.c
			} else {
				s *= v.c
			}
		}
		return rv{c: s, o: oth}
	case "first":
		n, unb := 4096, true
		if a.args[0].(*Poly) != infP {
			n, unb = r.int(a.args[0].(*Poly)), false
		}
		l := a.args[1].(*Lam)
		for i := 0; i < n && i < 4096; i++ {
			if real(r.apply(l, num(float64(i))).c) > 0.5 {
				return num(float64(i))
			}
		}
		if unb {
			panic(riFail{"no first index"})
		}
		return num(float64(n))
	}
	if a.op == "app" {
		if strings.HasPrefix(a.name, "acc") {
			f := r.accs[a.name]
			if f == nil {
				panic(riFail{"free accumulator"})
			}
			var xs []rv
			for _, x := range a.args {
				xs = append(xs, r.poly(x.(*Poly)))
			}
			return f(xs)
		}
		if strings.HasPrefix(a.name, "fold") && len(a.args) >= 3 {
			if v, ok := r.fold(a); ok {
				return v
			}
		}
		if v, ok := r.math(a); ok {
			return v
		}
	}
	// uninterpreted
	var av []argV
	var xs []rv
	for _, x := range a.args {
		y := r.arg(x)
		av = append(av, y)
		xs = append(xs, rv{c: y.c, o: y.o})
	}
	if a.op == "app" && textFn(a.name) {
		// a function of texts that are all known is not arbitrary
		all := true
		for _, x := range xs {
			for h := range x.o {
				all = all && knownText[h]
			}
		}
		if all {
			panic(riFail{"function of texts"})
		}
	}
	key := a.op + ":" + a.name
	if r.gen != nil {
		if v, ok := r.gen(r, a, xs); ok {
			return v
		}
	}
	return r.fresh(a, key, av)
}

var knownText = map[uint64]bool{}

func textFn(n string) bool {
	for _, p := range []string{"strconv.", "strings.", "regexp.", "(*regexp.", "path/filepath.", "concat", "replace", "fmt", "sprintf"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// fresh looks up or creates the value of an uninterpreted function.
func (r *RI) fresh(a *Atom, key string, av []argV) rv {
	t := r.tabs[key]
	if t == nil {
		t = &fnTab{}
		r.tabs[key] = t
	}
outer:
	for i, x := range t.args {
		r.tick()
		if len(x) != len(av) {
			continue
		}
		for j := range x {
			if !sameArg(x[j], av[j]) {
				continue outer
			}
		}
		return t.vals[i]
	}
	n := len(t.args)
	h := hash64(r.seed, key, n)
	v := r.draw(a, key, h)
	t.args = append(t.args, av)
	t.vals = append(t.vals, v)
	return v
}

var specialReals = []float64{0, 1, -1, 0.5, -0.5, 0.25, 2, 3}

func (r *RI) draw(a *Atom, key string, h uint64) rv {
	u := func(i int) float64 { return float64(hash64(h, i)%1000003)/1000003*2 - 1 }
	switch a.kind {
	case KBool:
		return num(float64(h & 1))
	case KInt:
		if strings.HasPrefix(a.name, "len:") || (a.op == "sym" && a.nonneg) {
			m := uint64(4)
			if r.small {
				m = 3
			}
			if h>>20%16 == 0 {
				return num(0)
			}
			if x, ok := r.near(h, 300); ok {
				return num(x)
			}
			return num(float64(1 + h%m))
		}
		x := float64(h % 5)
		if y, ok := r.near(h, 5000); ok {
			x = y
		}
		if h>>40%4 == 0 && !r.small {
			x = float64(h % 37)
		}
		if !a.nonneg && h>>30%4 == 0 {
			x = -x
		}
		return num(x)
	case KReal:
		if strings.HasPrefix(a.name, "freq") {
			switch h % 5 {
			case 0:
				return num(0)
			case 1:
				return num(0.5)
			}
			if r.seed%5 == 4 {
				return num(u(1) / 256) // large domains: every frequency small
			}
			return num(u(1) / 2)
		}
		x := u(1) * 2
		if r.seed%3 == 0 && h%4 == 0 {
			x = specialReals[hash64(h, "s")%uint64(len(specialReals))]
		}
		if len(r.rc) > 0 && r.seed%4 == 3 && h>>50%2 == 0 {
			x = math.Copysign(r.rc[h>>8%uint64(len(r.rc))], x) * []float64{0.999, 1.001, 0.5, 2}[h>>30%4]
		}
		if a.nonneg {
			x = math.Abs(x)
		}
		return num(x)
	case KCplx:
		c := complex(u(1)*2, u(2)*2)
		if r.seed%3 == 0 {
			switch h % 8 {
			case 0:
				c = complex(0, imag(c))
			case 1:
				c = complex(real(c), 0)
			case 2:
				c = 0
			}
		}
		return rv{c: c}
	}
	return rv{o: map[uint64]float64{hash64("o", h): 1}}
}

func (r *RI) arg(x Node) argV {
	switch y := x.(type) {
	case *Poly:
		v := r.poly(y)
		return argV{n: true, c: v.c, o: v.o}
	case *Lam:
		n := 4
		if y.n != nil {
			n = r.int(y.n)
			if n > 512 {
				panic(riFail{"large table"})
			}
		}
		t := argV{c: complex(float64(n), 0)}
		for i := 0; i < n; i++ {
			old, had := r.env[beta(y.h)]
			r.env[beta(y.h)] = num(float64(i))
			t.tab = append(t.tab, r.arg(y.body))
			if had {
				r.env[beta(y.h)] = old
			} else {
				delete(r.env, beta(y.h))
			}
		}
		return t
	case *Tup:
		var t argV
		for _, z := range y.x {
			t.tab = append(t.tab, r.arg(z))
		}
		return t
	case *Atom:
		v := r.atom(y)
		return argV{n: true, c: v.c, o: v.o}
	}
	panic(riFail{"argument"})
}

func (r *RI) apply(l *Lam, v rv) rv {
	b := beta(l.h)
	old, had := r.env[b]
	r.env[b] = v
	var res rv
	func() {
		defer func() {
			if had {
				r.env[b] = old
			} else {
				delete(r.env, b)
			}
		}()
		switch y := l.body.(type) {
		case *Poly:
			res = r.poly(y)
		default:
			panic(riFail{"higher-order"})
		}
	}()
	return res
}

func (r *RI) applyN(n Node, args []rv) rv {
	if len(args) == 0 {
		return r.poly(n.(*Poly))
	}
	l, ok := n.(*Lam)
	if !ok {
		panic(riFail{"arity"})
	}
	b := beta(l.h)
	old, had := r.env[b]
	r.env[b] = args[0]
	defer func() {
		if had {
			r.env[b] = old
		} else {
			delete(r.env, b)
		}
	}()
	return r.applyN(l.body, args[1:])
}

func (r *RI) fold(a *Atom) (rv, bool) {
	st, ok1 := a.args[0].(*Tup)
	it, ok2 := a.args[1].(*Tup)
	if !ok1 || !ok2 {
		return rv{}, false
	}
	which, err := strconv.Atoi(a.name[4:])
	if err != nil {
		return rv{}, false
	}
	n := r.int(a.args[2].(*Poly))
	if n > 1024 {
		panic(riFail{"large fold"})
	}
	var ps []rv
	for _, x := range a.args[3:] {
		ps = append(ps, r.poly(x.(*Poly)))
	}
	// accumulator names used in the step
	names := map[int]string{}
	for _, s := range st.x {
		accNames(s, len(st.x), names)
	}
	memo := map[string]rv{}
	var val func(i, j int, ps []rv) rv
	val = func(i, j int, ps []rv) rv {
		r.tick()
		k := fmt.Sprint(i, j)
		for _, p := range ps {
			k += fmt.Sprint(p.c, len(p.o))
		}
		if v, ok := memo[k]; ok {
			return v
		}
		var v rv
		if j == 0 {
			v = r.applyN(it.x[i], ps)
		} else {
			saved := map[string]func([]rv) rv{}
			for q, nm := range names {
				q := q
				saved[nm] = r.accs[nm]
				r.accs[nm] = func(xs []rv) rv { return val(q, j-1, xs) }
			}
			v = r.applyN(st.x[i], append([]rv{num(float64(j - 1))}, ps...))
			for nm, f := range saved {
				r.accs[nm] = f
			}
		}
		memo[k] = v
		return v
	}
	// fill bottom-up for determinism of nested handlers
	return val(which, n, ps), true
}

// accNames collects the accumulators of the outermost fold of a step: those
// not captured by a fold nested inside it.
func accNames(n Node, cnt int, out map[int]string) {
	seen := map[int]bool{}
	var walk func(n Node)
	walk = func(n Node) {
		if seen[n.nid()] {
			return
		}
		seen[n.nid()] = true
		switch x := n.(type) {
		case *Atom:
			if x.op == "app" && strings.HasPrefix(x.name, "acc") {
				if k := strings.LastIndexByte(x.name, '.'); k >= 0 {
					i, _ := strconv.Atoi(x.name[k+1:])
					if old, ok := out[i]; !ok || depthOf(x.name) < depthOf(old) {
						out[i] = x.name
					}
				}
			}
			for _, y := range x.args {
				walk(y)
			}
		case *Poly:
			for _, t := range x.t {
				for _, f := range t.m.f {
					walk(f.a)
				}
			}
		case *Lam:
			walk(x.body)
		case *Tup:
			for _, y := range x.x {
				walk(y)
			}
		}
	}
	walk(n)
}

func depthOf(nm string) int {
	s := strings.TrimPrefix(nm, "accκ")
	if i := strings.IndexByte(s, '.'); i >= 0 {
		s = s[:i]
	}
	d, _ := strconv.Atoi(s)
	return d
}

func (r *RI) math(a *Atom) (rv, bool) {
	x := func(i int) complex128 { return r.poly(a.args[i].(*Poly)).c }
	f := func(i int) float64 { return real(x(i)) }
	isReal := func() bool {
		for _, y := range a.args {
			if p, ok := y.(*Poly); !ok || p.k == KCplx {
				return false
			}
		}
		return true
	}
	dom := func(ok bool) {
		if !ok {
			panic(riFail{"domain"})
		}
	}
	switch a.name {
	case "exp":
		v := cmplx.Exp(x(0))
		return rv{c: v}, true
	case "log":
		dom(f(0) > 0)
		return num(math.Log(f(0))), true
	case "sin":
		if isReal() {
			return num(math.Sin(f(0))), true
		}
		return rv{c: cmplx.Sin(x(0))}, true
	case "cos":
		if isReal() {
			return num(math.Cos(f(0))), true
		}
		return rv{c: cmplx.Cos(x(0))}, true
	case "sqrt":
		if isReal() {
			v := f(0)
			if v < 0 && v > -1e-12 {
				v = 0
			}
			dom(v >= 0)
			return num(math.Sqrt(v)), true
		}
		return rv{c: cmplx.Sqrt(x(0))}, true
	case "abs":
		return num(math.Abs(f(0))), true
	case "cabs":
		return num(cmplx.Abs(x(0))), true
	case "conj":
		return rv{c: cmplx.Conj(x(0))}, true
	case "floor":
		return num(math.Floor(f(0) + 1e-12)), true
	case "ceil":
		return num(math.Ceil(f(0) - 1e-12)), true
	case "trunc":
		return num(math.Trunc(f(0))), true
	case "round":
		return num(math.Round(f(0))), true
	case "fmod":
		dom(f(1) != 0)
		return num(math.Mod(f(0), f(1))), true
	case "isint":
		return b2f(math.Abs(f(0)-math.Round(f(0))) < 1e-9), true
	case "quo":
		p, q := r.int(a.args[0].(*Poly)), r.int(a.args[1].(*Poly))
		dom(q != 0)
		return num(float64(p / q)), true
	case "pow":
		if isReal() {
			b, e := f(0), f(1)
			dom(b != 0 || e >= 0)
			v := math.Pow(b, e)
			dom(!math.IsNaN(v))
			return num(v), true
		}
		b, e := x(0), x(1)
		if imag(e) == 0 && real(e) == math.Round(real(e)) && math.Abs(real(e)) < 64 {
			v := complex(1, 0)
			for i := 0; i < int(math.Abs(real(e))); i++ {
				v *= b
			}
			if real(e) < 0 {
				dom(v != 0)
				v = 1 / v
			}
			return rv{c: v}, true
		}
		return rv{c: cmplx.Pow(b, e)}, true
	case "math.Atan", "math.Tanh", "math.Sinh", "math.Cosh", "math.Erf", "math.Cbrt", "math.Asin", "math.Acos", "math.Log10", "math.Log2", "math.Log1p", "math.Expm1", "math.Exp2", "math.Gamma", "math.Atan2":
		if !isReal() {
			return rv{}, false
		}
		var v float64
		switch a.name {
		case "math.Atan":
			v = math.Atan(f(0))
		case "math.Tanh":
			v = math.Tanh(f(0))
		case "math.Sinh":
			v = math.Sinh(f(0))
		case "math.Cosh":
			v = math.Cosh(f(0))
		case "math.Erf":
			v = math.Erf(f(0))
		case "math.Cbrt":
			v = math.Cbrt(f(0))
		case "math.Asin":
			v = math.Asin(f(0))
		case "math.Acos":
			v = math.Acos(f(0))
		case "math.Log10":
			v = math.Log10(f(0))
		case "math.Log2":
			v = math.Log2(f(0))
		case "math.Log1p":
			v = math.Log1p(f(0))
		case "math.Expm1":
			v = math.Expm1(f(0))
		case "math.Exp2":
			v = math.Exp2(f(0))
		case "math.Gamma":
			v = math.Gamma(f(0))
		case "math.Atan2":
			v = math.Atan2(f(0), f(1))
		}
		dom(!math.IsNaN(v) && !math.IsInf(v, 0))
		return num(v), true
	case "div0":
		panic(riFail{"division by zero"})
	case "inf":
		return num(1e30), true
	case "fft", "ifft":
		l := a.args[0].(*Lam)
		if l.n == nil {
			return rv{}, false
		}
		n := r.int(l.n)
		if n <= 0 || n > 256 {
			panic(riFail{"transform size"})
		}
		i := r.int(a.args[1].(*Poly))
		if i < 0 || i >= n {
			panic(riFail{"transform index"})
		}
		key := ""
		if !r.acc(l) {
			key = strconv.Itoa(l.id) + a.name
			for _, fv := range l.free() {
				if b := atomByID[int(fv)]; b != nil && b.op == "beta" {
					key += fmt.Sprint(",", r.env[b].c)
				}
			}
			if t, ok := r.fmemo[key]; ok {
				return rv{c: t[i]}, true
			}
		}
		in := make([]complex128, n)
		for j := range in {
			in[j] = r.apply(l, num(float64(j))).c
		}
		out := make([]complex128, n)
		sg := -1.0
		if a.name == "ifft" {
			sg = 1
		}
		for k := range out {
			for j := range in {
				r.tick()
				out[k] += in[j] * cmplx.Exp(complex(0, sg*2*math.Pi*float64(j*k%n)/float64(n)))
			}
		}
		if key != "" {
			r.fmemo[key] = out
		}
		return rv{c: out[i]}, true
	}
	return rv{}, false
}

// ---------------------------------------------------------------- decision

type verdict int

const (
	vEqual   verdict = iota // same normal form
	vAgree                  // agree under every random interpretation
	vDiffer                 // a witness interpretation separates them
	vUnknown                // no interpretation could be evaluated
)

type decision struct {
	v       verdict
	witness string
	samples int
}

var riSamples = 48

// decide compares two value numbers under an assumption.
func decide(a, b, pre *Poly, gen func(r *RI, at *Atom, args []rv) (rv, bool)) decision {
	if pre == Zero {
		return decision{v: vUnknown, witness: "assumption is never satisfied"}
	}
	if a == b || mul2(pre, sub(a, b)) == Zero {
		return decision{v: vEqual}
	}
	eq := func() (e bool) {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(tooBig); !ok {
					panic(x)
				}
				e = false
			}
		}()
		return same(mul2(pre, a), mul2(pre, b))
	}()
	if eq {
		return decision{v: vEqual}
	}
	good := 0
	fails := map[string]int{}
	ic, rc := thresholds(a, b, pre)
	ops0 := riOps
	for s := 1; s <= riSamples*6 && good < riSamples || good >= riSamples && good < 2000 && riOps-ops0 < riBudget; s++ {
		r := newRI(uint64(s))
		r.gen = gen
		r.logOn = true
		r.small = s%2 == 1
		r.ic, r.rc = ic, rc
		var x, y rv
		ok := func() (ok bool) {
			defer func() {
				if e := recover(); e != nil {
					f, is := e.(riFail)
					if !is {
						panic(e)
					}
					fails[f.why]++
					ok = false
				}
			}()
			if pre != One {
				if real(r.poly(pre).c) < 0.5 {
					fails["assumption"]++
					return false
				}
			}
			x = r.poly(a)
			y = r.poly(b)
			return true
		}()
		if !ok {
			continue
		}
		good++
		if os.Getenv("GCRI") != "" {
			sort.Strings(r.log)
			fmt.Println("sample", s, fmtV(x), fmtV(y), uniq(r.log))
		}
		if !closeV(x, y) {
			sort.Strings(r.log)
			l := strings.Join(uniq(r.log), " ")
			if len(l) > 300 {
				l = l[:300] + "…"
			}
			return decision{v: vDiffer, witness: fmt.Sprintf("%s vs %s under %s", fmtV(x), fmtV(y), l), samples: good}
		}
	}
	if good < 3 {
		return decision{v: vUnknown, witness: fmt.Sprint(fails), samples: good}
	}
	return decision{v: vAgree, samples: good}
}

func uniq(x []string) []string {
	var r []string
	for i, s := range x {
		if i == 0 || x[i-1] != s {
			r = append(r, s)
		}
	}
	return r
}

func fmtV(x rv) string {
	if x.o != nil {
		return fmt.Sprintf("object%v", len(x.o))
	}
	return fmtC(x.c)
}

func closeV(x, y rv) bool {
	if (x.o != nil && len(x.o) > 0) != (y.o != nil && len(y.o) > 0) {
		return false
	}
	if x.o != nil || y.o != nil {
		return sameOther(x.o, y.o)
	}
	d := cmplx.Abs(x.c - y.c)
	return d <= 1e-6*(1e-3+cmplx.Abs(x.c)+cmplx.Abs(y.c))
}
