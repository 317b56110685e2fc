package main

// Loop summaries.  A loop whose condition folds to a constant is expanded;
// every other loop is summarised by scalar evolution: the values at the start
// of iteration k are solved as closed forms of k (inductions, sums, products,
// pointwise array updates, last values) and otherwise named by an opaque fold
// over the iteration's transfer function.

import (
	"os"

	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

const maxUnrollDefault = 128

var phiCount = 0

type phi struct {
	key   contKey
	name  string
	ar    int
	kind  Kind
	init  *Poly
	next  *Poly
	sl    *sliceI // slice whose length evolves
	typ   types.Type
	solve func(n *Poly) *Poly // value at the start of iteration n, over params
	at    *Poly               // solve(k)
	row   *Poly               // set on the row of a specialised location
}

func (p *phi) app(idx []*Poly) *Poly {
	return appKP(p.name, p.kind, p.pay(), false, polyNodes(idx)...)
}

func (p *phi) pay() interface{} {
	if p.kind == KOther {
		return p.typ
	}
	return nil
}

var infP = atomP(func() *Atom { a := sym("∞", KInt); a.nonneg = true; return a }())

type loopSpec struct {
	endless bool
	pos     token.Pos
	label   string
	// setup runs once before the loop and reports liveness
	cond func() *Poly
	pre  func(k *Poly) // assigns the range variables
	body func() bool
	post func()
	trip *Poly // known trip count (range loops)
	// induction guess for three-clause loops
	ivar  types.Object
	istep *Poly
}

func (I *Interp) forStmt(x *ast.ForStmt, label string) bool {
	if x.Init != nil && !I.stmt(x.Init) {
		return false
	}
	ls := &loopSpec{pos: x.Pos(), label: label}
	ls.cond = func() *Poly {
		if x.Cond == nil {
			return One
		}
		return I.cond(x.Cond)
	}
	ls.body = func() bool { return I.block(x.Body.List) }
	if x.Post != nil {
		ls.post = func() { I.stmt(x.Post) }
		switch p := x.Post.(type) {
		case *ast.IncDecStmt:
			if id, ok := p.X.(*ast.Ident); ok {
				ls.ivar = I.fr.pkg.Info.ObjectOf(id)
				ls.istep = One
				if p.Tok == token.DEC {
					ls.istep = constP(-1)
				}
			}
		case *ast.AssignStmt:
			if id, ok := p.Lhs[0].(*ast.Ident); ok && len(p.Lhs) == 1 && (p.Tok == token.ADD_ASSIGN || p.Tok == token.SUB_ASSIGN) {
				if tv, ok := I.fr.pkg.Info.Types[p.Rhs[0]]; ok && tv.Value != nil {
					ls.ivar = I.fr.pkg.Info.ObjectOf(id)
					ls.istep = constToPoly(tv.Value)
					if p.Tok == token.SUB_ASSIGN {
						ls.istep = neg(ls.istep)
					}
				}
			}
		}
	}
	ls.endless = x.Cond == nil
	if done, alive := I.unroll(ls); done {
		return alive
	}
	return I.summarise(ls)
}

func (I *Interp) rangeStmt(x *ast.RangeStmt, label string) bool {
	info := I.fr.pkg.Info
	t := I.typeOf(x.X)
	ls := &loopSpec{pos: x.Pos(), label: label}
	ls.body = func() bool { return I.block(x.Body.List) }
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	var keyT, valT types.Type
	var get func(k *Poly) (Value, Value)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := I.eval(x.X).(*Poly)
		ls.trip = I.lenOfValue(s)
		keyT, valT = types.Typ[types.Int], u.Elem()
		get = func(k *Poly) (Value, Value) {
			if isBlank(x.Value) {
				return k, nil
			}
			return k, I.loadL(I.elemLvals(s, k))
		}
	case *types.Array:
		v := I.eval(x.X)
		ls.trip = constP(u.Len())
		keyT, valT = types.Typ[types.Int], u.Elem()
		get = func(k *Poly) (Value, Value) {
			if isBlank(x.Value) {
				return k, nil
			}
			return k, I.arrElem(v.(*ArrV), k, u.Elem())
		}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := I.eval(x.X).(*Poly)
		ls.trip = constP(at.Len())
		keyT, valT = types.Typ[types.Int], at.Elem()
		get = func(k *Poly) (Value, Value) {
			if isBlank(x.Value) {
				return k, nil
			}
			return k, I.arrElem(I.loadPtr(p).(*ArrV), k, at.Elem())
		}
	case *types.Map:
		m := I.eval(x.X).(*Poly)
		cs := cases(m)
		if len(cs) != 1 {
			unsup("range over several maps")
		}
		keyT, valT = u.Key(), u.Elem()
		if cs[0].a.op == "nil" {
			return true
		}
		l, ok := refLoc(cs[0].a)
		if !ok {
			l = I.opaquePtr(cs[0].a)
		}
		// a map whose entries are all known constants: iterate them in sorted order
		hc := I.content(I.st, l.o, l.path+"{?}", types.Typ[types.Bool])
		if l.o.alloc && len(l.idx) == 0 {
			keys, pres := mapKeys(hc)
			if len(keys) == 0 && hc.body != Zero {
				return unsupBool("range over constructed map")
			}
			ls.trip = constP(int64(len(keys)))
			get = func(k *Poly) (Value, Value) {
				n, _ := k.intConst()
				key := keys[n]
				if isBlank(x.Value) {
					return key, nil
				}
				return key, I.load(I.st, Loc{l.o, l.path + "{}", []*Poly{key}, u.Elem()})
			}
			cur := 0
			b0 := ls.body
			ls.body = func() bool {
				// the key may be absent, or gone by now
				h := and(pres[cur], I.content(I.st, l.o, l.path+"{?}", types.Typ[types.Bool]).get([]*Poly{keys[cur]}))
				cur++
				return I.fork(h, x.Pos(), b0, func() bool { return true })
			}
			break
		}
		w := openVar(nil)
		mapID := mkLamN(w, nil, I.load(I.st, Loc{l.o, l.path + "{?}", append(append([]*Poly{}, l.idx...), atomP(w)), types.Typ[types.Bool]}).(*Poly))
		closeVar()
		ls.trip = mapLenOf(mapID)
		get = func(k *Poly) (Value, Value) {
			kk, _ := basicKind(u.Key())
			key := mapKeyAt(kk, mapID, k)
			if isBlank(x.Value) {
				return key, nil
			}
			v := I.load(I.st, Loc{l.o, l.path + "{}", append(append([]*Poly{}, l.idx...), key), u.Elem()})
			return key, v
		}
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			ls.trip = I.eval(x.X).(*Poly)
			keyT = t
			get = func(k *Poly) (Value, Value) { return k, nil }
		} else {
			s := I.eval(x.X).(*Poly)
			ls.trip = strLen(s)
			keyT, valT = types.Typ[types.Int], types.Typ[types.Rune]
			get = func(k *Poly) (Value, Value) { return k, appK("charat", KInt, s, k) }
		}
	default:
		unsup("range over %v", t)
	}
	// one variable per loop (module language version predates per-iteration variables)
	var kd, vd types.Object
	if x.Tok == token.DEFINE {
		if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
			kd = info.Defs[id]
			I.declareZero(kd, id.Pos())
		}
		if x.Value != nil {
			if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
				vd = info.Defs[id]
				I.declareZero(vd, id.Pos())
			}
		}
	}
	ls.pre = func(k *Poly) {
		key, val := get(k)
		if kd != nil {
			I.storeL(I.ptrLvals(I.varRef(kd)), I.convertTo(key, keyT, kd.Type()))
		} else if x.Tok == token.ASSIGN && !isBlank(x.Key) {
			I.storeL(I.lvalsOf(x.Key), I.convertTo(key, keyT, I.typeOf(x.Key)))
		}
		if vd != nil {
			I.storeL(I.ptrLvals(I.varRef(vd)), I.convertTo(val, valT, vd.Type()))
		} else if x.Tok == token.ASSIGN && !isBlank(x.Value) {
			I.storeL(I.lvalsOf(x.Value), I.convertTo(val, valT, I.typeOf(x.Value)))
		}
	}
	if _, ok := ls.trip.intConst(); ok {
		if done, alive := I.unroll(ls); done {
			return alive
		}
	}
	return I.summarise(ls)
}

// mapKeys lists the constant keys of a map built entry by entry.
func mapKeys(hc *Content) (keys, pres []*Poly) {
	if hc.arity != 1 {
		return nil, nil
	}
	p0 := paramP(0)
	set := map[string]*Poly{}
	for _, k := range sortedOv(hc.over) {
		set["#"+k] = constP(hc.over[k].idx[0])
	}
	seen := map[uint32]bool{}
	var visit func(n Node)
	visit = func(n Node) {
		switch y := n.(type) {
		case *Poly:
			for _, t := range y.t {
				for _, f := range t.m.f {
					visit(f.a)
				}
			}
		case *Atom:
			if seen[uint32(y.id)] {
				return
			}
			seen[uint32(y.id)] = true
			if y.op == "str" {
				set[y.name] = atomP(y)
			}
			for _, a := range y.args {
				visit(a)
			}
		}
	}
	visit(hc.body)
	var names []string
	for k := range set {
		names = append(names, k)
	}
	sort.Strings(names)
	// nothing else is present
	rest := hc.body
	f := strP("\x00other")
	rest = subst1(rest, p0.single(), f)
	if rest != Zero {
		return nil, nil
	}
	for _, k := range names {
		pr := hc.get([]*Poly{set[k]})
		if pr == Zero {
			continue
		}
		keys = append(keys, set[k])
		pres = append(pres, pr)
	}
	return
}

func unsupBool(s string) bool { unsup("%s", s); return false }

// takeExits removes the exits recorded since mark that satisfy pred.
func (I *Interp) takeExits(mark int, pred func(e *Exit) bool) []Exit {
	var keep, got []Exit
	for i := range I.fr.exits {
		e := I.fr.exits[i]
		if i >= mark && pred(&e) {
			got = append(got, e)
		} else {
			keep = append(keep, e)
		}
	}
	I.fr.exits = keep
	return got
}

func (I *Interp) joinContinues(mark int, alive bool, label string, pc0 *Poly) bool {
	got := I.takeExits(mark, func(e *Exit) bool { return e.kind == xCont && (e.label == "" || e.label == label) })
	if len(got) == 0 {
		return alive
	}
	nb := I.nBrkFrom(mark)
	pc := I.pc
	r := I.joinExits(got, alive, pc0)
	if nb > 0 && I.soft == 0 {
		// breaks taken in this iteration stay excluded
		p := Zero
		if alive {
			p = pc
		}
		for _, e := range got {
			p = or(p, e.cond)
		}
		I.pc = p
	}
	return r
}

func (I *Interp) nBrkFrom(mark int) int {
	n := 0
	for i := mark; i < len(I.fr.exits); i++ {
		if I.fr.exits[i].kind != xRet {
			n++
		}
	}
	return n
}

// unroll expands a loop with constant control.
func (I *Interp) unroll(ls *loopSpec) (done, alive bool) {
	limit := I.cfg.maxUnroll
	if limit == 0 {
		limit = maxUnrollDefault
	}
	st0, pc0 := I.st.clone(), I.pc
	nev := len(*I.ev)
	mark := len(I.fr.exits)
	nctx := len(I.ctx)
	ndeath := len(I.deaths)
	rollback := func() {
		I.deaths = I.deaths[:ndeath]
		I.st = st0
		I.pc = pc0
		*I.ev = (*I.ev)[:nev]
		I.fr.exits = I.fr.exits[:mark]
		I.ctx = I.ctx[:nctx]
	}
	live := true
	for it := 0; ; it++ {
		var c *Poly
		if ls.trip != nil {
			n, _ := ls.trip.intConst()
			c = Zero
			if int64(it) < n {
				c = One
			}
		} else {
			c = ls.cond()
		}
		if c == Zero {
			break
		}
		if c != One || it >= limit {
			rollback()
			return false, false
		}
		I.ctx = append(I.ctx, "u"+strconv.Itoa(it))
		if ls.pre != nil {
			ls.pre(constP(int64(it)))
		}
		im := len(I.fr.exits)
		pcIt := I.pc
		live = ls.body()
		live = I.joinContinues(im, live, ls.label, pcIt)
		I.ctx = I.ctx[:nctx]
		if !live {
			break
		}
		if ls.endless && len(I.fr.exits) > im {
			// leaves under a condition
			rollback()
			return false, false
		}
		if ls.post != nil {
			ls.post()
		}
	}
	brk := I.takeExits(mark, func(e *Exit) bool { return e.kind == xBrk && (e.label == "" || e.label == ls.label) })
	if len(brk) > 0 {
		live = I.joinExits(brk, live, pc0)
	} else if live && I.soft == 0 {
		I.pc = pc0
	}
	if I.nBrkFrom(mark) > 0 && live {
		unsup("labelled break out of an expanded loop")
	}
	return true, live
}

func loopSym(depth int, n *Poly) *Atom {
	nm := "κ" + strconv.Itoa(depth)
	if n != nil {
		nm += "<" + strconv.Itoa(n.id)
	}
	a := sym(nm, KInt)
	a.nonneg = true
	a.lo = Zero
	a.rank = -1
	if n != nil && n != infP {
		a.hi = sub(n, One)
	}
	return a
}

// tripOf: number of iterations for which c(k) holds consecutively from k=0.
func tripOf(c *Poly, k *Atom) *Poly {
	if c == One {
		return infP
	}
	if c == Zero {
		return Zero
	}
	if !occurs(c, k) {
		return ite(c, infP, Zero)
	}
	clamp := func(v *Poly) *Poly {
		if provGE(v, 4) {
			return v
		}
		return ite(ge(v), v, Zero)
	}
	bs := map[*Atom]bool{}
	var order []*Atom
	for _, t := range c.t {
		for _, f := range t.m.f {
			if f.a.kind == KBool && !bs[f.a] {
				bs[f.a] = true
				order = append(order, f.a)
			}
		}
	}
	for _, a := range order {
		c0 := newSubst(map[*Atom]*Poly{a: Zero}).poly(c)
		c1 := newSubst(map[*Atom]*Poly{a: One}).poly(c)
		var rest *Poly
		pos := false
		if c0 == Zero {
			rest, pos = c1, true
		} else if c1 == Zero {
			rest = c0
		} else {
			continue
		}
		var T *Poly
		if !occursA(a, k) {
			if pos {
				return ite(atomP(a), tripOf(rest, k), Zero)
			}
			return ite(atomP(a), Zero, tripOf(rest, k))
		}
		A, B, ok := linIn(a.args[0].(*Poly), k)
		if !ok {
			continue
		}
		s, isC := A.intConst()
		if !isC || s == 0 {
			continue
		}
		switch {
		case a.op == "ge" && pos && s < 0: // while B - |s|k >= 0
			if s == -1 {
				T = clamp(add(B, One))
			} else {
				T = clamp(add(quoFloor(B, -s), One))
			}
		case a.op == "ge" && !pos && s > 0: // while B + sk < 0
			nb := neg(B)
			if s == 1 {
				T = clamp(nb)
			} else {
				T = clamp(quoFloor(add(nb, constP(s-1)), s))
			}
		case a.op == "eq" && !pos && (s == 1 || s == -1):
			T = scale(B, ratFrac(-1, s))
		default:
			continue
		}
		if rest == One {
			return T
		}
		if !occurs(rest, k) {
			return ite(rest, T, Zero)
		}
		T2 := tripOf(rest, k)
		if a := T2.single(); a != nil && a.op == "first" {
			return mkFirst(k, T, not(rest))
		}
		return minp(T, T2)
	}
	return mkFirst(k, infP, not(c))
}

func quoFloor(b *Poly, s int64) *Poly {
	return quo(b, constP(s))
}

// ---------------------------------------------------------------- summary

type roundRes struct {
	phis  []*phi
	st    *State
	hd    *State
	cond  *Poly
	exits []Exit
	ev    []*Ev
	alive bool
}

func (I *Interp) summarise(ls *loopSpec) bool {
	I.nloop++
	st0, pc0, ev0 := I.st, I.pc, I.ev
	I.inSummary++
	defer func() { I.inSummary-- }()
	depth := len(I.loops)
	if depth > 12 {
		unsup("loop nesting")
	}
	mod := map[contKey]types.Type{}
	slMode := map[contKey]*sliceI{}
	direct := map[contKey]*Poly{}    // references whose value after iteration k depends on k alone
	sample := map[contKey]*Content{} // contents after one iteration, to see how slices evolve
	var T *Poly = ls.trip
	if T == Zero {
		return true
	}
	// guess for three-clause loops
	var gkey contKey
	var ginit *Poly
	useGuess := false
	if ls.ivar != nil {
		if r := I.varRef(ls.ivar).single(); r != nil {
			if l, ok := refLoc(r); ok && len(l.idx) == 0 {
				if v, ok := I.load(I.st, l).(*Poly); ok {
					gkey = contKey{l.o, l.path}
					ginit = v
					useGuess = true
				}
			}
		}
	}
	var res *roundRes
	k := loopSym(depth, T)
	if useGuess {
		// provisional trip count with everything else as before the loop
		k0 := loopSym(depth, nil)
		I.st = st0.clone()
		I.st.mem[gkey] = &Content{arity: 0, body: add(ginit, mul2(ls.istep, atomP(k0)))}
		sv := I.ev
		var tmp []*Ev
		I.ev = &tmp
		c := ls.cond()
		I.ev = sv
		gt := tripOf(c, k0)
		if occurs(gt, k0) {
			useGuess = false
		} else {
			k = loopSym(depth, gt)
			T = gt
		}
		if T == Zero {
			I.st = st0
			return true
		}
	}
	baseMark := len(I.fr.exits)
	verifyT := ls.trip == nil
	for round := 0; ; round++ {
		if os.Getenv("GCLOOP") != "" {
			fmt.Fprintf(os.Stderr, "loop %v round %d k=%s T=%v mod=%d direct=%d guess=%v\n", I.prog.Fset.Position(ls.pos), round, k.name, T, len(mod), len(direct), useGuess)
		}
		if round > 12 {
			unsup("loop summary did not stabilise")
		}
		hd := st0.clone()
		var phis []*phi
		keys := make([]contKey, 0, len(mod))
		for key := range mod {
			keys = append(keys, key)
		}
		sort.Slice(keys, func(i, j int) bool {
			if keys[i].o.id != keys[j].o.id {
				return keys[i].o.id < keys[j].o.id
			}
			return keys[i].path < keys[j].path
		})
		for _, key := range keys {
			if useGuess && key == gkey {
				continue
			}
			old := I.content(st0, key.o, key.path, mod[key])
			if d := direct[key]; d != nil {
				prev := subst1(d, k, sub(atomP(k), One))
				hd.mem[key] = &Content{arity: 0, body: ite(eqp(atomP(k), Zero), old.flat(), prev)}
				continue
			}
			phiCount++
			p := &phi{key: key, name: "φ" + strconv.Itoa(phiCount), ar: old.arity, typ: mod[key]}
			p.kind, _ = basicKind(mod[key])
			if strings.HasSuffix(key.path, "{?}") {
				p.kind = KBool
			}
			if strings.HasSuffix(key.path, "#d") {
				p.kind = KReal
			}
			if strings.HasSuffix(key.path, "#r") || strings.HasSuffix(key.path, "#c") {
				p.kind = KInt
			}
			p.init = old.flat()
			if si := slMode[key]; si != nil {
				p.sl = si
				p.kind = KInt
				p.init = si.ln
				nm := appKP(p.name, KInt, nil, true)
				hd.mem[key] = &Content{arity: 0, body: sliceP(si.o, si.path, si.el, si.off, nm, si.idx)}
			} else {
				idx := make([]*Poly, p.ar)
				for i := range idx {
					idx[i] = paramP(i)
				}
				hd.mem[key] = &Content{arity: p.ar, body: p.app(idx)}
			}
			phis = append(phis, p)
		}
		if useGuess {
			hd.mem[gkey] = &Content{arity: 0, body: add(ginit, mul2(ls.istep, atomP(k)))}
		}
		hdSnap := hd.clone()
		// the loop condition for an unbounded iteration number, so that the
		// range of k does not decide it
		var condU *Poly
		k0 := loopSym(depth, nil)
		if ls.trip == nil {
			hu := hd.clone()
			if useGuess {
				hu.mem[gkey] = &Content{arity: 0, body: add(ginit, mul2(ls.istep, atomP(k0)))}
			}
			var tmp []*Ev
			I.st, I.pc, I.ev = hu, One, &tmp
			I.loops = append(I.loops, k0)
			mark := len(I.fr.exits)
			condU = ls.cond()
			I.fr.exits = I.fr.exits[:mark]
			I.loops = I.loops[:depth]
		}
		// run one iteration
		var evs []*Ev
		I.st, I.pc, I.ev = hd, One, &evs
		I.loops = append(I.loops, k)
		mark := len(I.fr.exits)
		cond := One
		if ls.trip == nil {
			cond = ls.cond()
		}
		if ls.pre != nil {
			ls.pre(atomP(k))
		}
		alive := ls.body()
		alive = I.joinContinues(mark, alive, ls.label, One)
		if alive && ls.post != nil {
			ls.post()
		}
		I.loops = I.loops[:depth]
		end := I.st
		exits := append([]Exit{}, I.fr.exits[mark:]...)
		I.fr.exits = I.fr.exits[:baseMark]
		I.ev = ev0
		// which locations does an iteration modify?
		grew := false
		note := func(s *State) {
			for key, c := range s.mem {
				if key.o.local {
					if _, ok := st0.mem[key]; !ok {
						continue
					}
				}
				if useGuess && key == gkey {
					continue
				}
				if _, ok := mod[key]; ok {
					continue
				}
				t := leafType[key]
				old := I.content(hdSnap, key.o, key.path, t)
				if c.same(old) {
					continue
				}
				mod[key] = t
				grew = true
				sample[key] = c
				// slices that grow in place
				if t != nil {
					if _, ok := t.Underlying().(*types.Slice); ok && c.arity == 0 {
						if a := old.body.single(); a != nil && a.op == "slice" {
							si := I.sliceInfo(a)
							if ok := I.sameBase(c.body, si); ok {
								slMode[key] = &si
							} else if b := c.body.single(); b != nil && b.op == "slice" && !hasPhi(c.body, phiMap(phis)) {
								direct[key] = c.body
							}
						}
					}
				}
			}
		}
		if alive {
			note(end)
		}
		for _, e := range exits {
			_ = e
		}
		if grew {
			continue
		}
		if useGuess {
			// the guessed induction has to be confirmed
			ok := true
			if alive {
				c := I.content(end, gkey.o, gkey.path, leafType[gkey])
				want := add(ginit, mul2(ls.istep, add(atomP(k), One)))
				ok = c.arity == 0 && c.body == want
			}
			if !ok {
				useGuess = false
				mod[gkey] = leafType[gkey]
				T = nil
				k = loopSym(depth, nil)
				continue
			}
		}
		res = &roundRes{phis: phis, st: end, hd: hdSnap, cond: cond, exits: exits, ev: evs, alive: alive}
		// next values
		bad := false
		if alive {
			pm := phiMap(phis)
			for key, d := range direct {
				nx := I.content(end, key.o, key.path, mod[key])
				if nx.arity != 0 || nx.body != d {
					if hasPhi(nx.body, pm) {
						unsup("slice evolution")
					}
					direct[key] = nx.body
					bad = true
				}
			}
			for _, p := range phis {
				if p.sl != nil || p.ar != 0 || p.typ == nil || direct[p.key] != nil {
					continue
				}
				if _, ok := p.typ.Underlying().(*types.Slice); !ok {
					continue
				}
				nx := I.content(end, p.key.o, p.key.path, p.typ)
				if sm := cases(nx.body); slMode[p.key] == nil && len(sm) == 1 && sm[0].a != nil && sm[0].a.op == "slice" && !hasPhi(nx.body, pm) && nx.body != p.init {
					direct[p.key] = nx.body
					bad = true
				}
			}
			if bad {
				for key := range mod {
					if strings.Contains(key.o.name, "φ") {
						delete(mod, key)
					}
				}
				if round > 8 {
					unsup("slice evolution")
				}
				continue
			}
			for _, p := range phis {
				c := I.content(end, p.key.o, p.key.path, p.typ)
				if p.sl != nil {
					ln, ok := I.lenOver(c.body, *p.sl)
					if !ok {
						delete(slMode, p.key)
						bad = true
						break
					}
					p.next = ln
				} else {
					p.next = c.flat()
				}
			}
			if bad {
				if round > 8 {
					unsup("slice evolution")
				}
				continue
			}
			solvePhis(phis, k)
		} else {
			for _, p := range phis {
				p := p
				p.solve = func(n *Poly) *Poly { return p.init }
				p.at = p.init
			}
		}
		if verifyT {
			c := substPhi(phis, condU)
			if k != k0 {
				c = subst1(c, k, atomP(k0))
			}
			nt := tripOf(c, k0)
			if occurs(nt, k0) {
				unsup("trip count")
			}
			if nt != T {
				if T == nil {
					// now bounded: run again with the range of k known
					T = nt
					k = loopSym(depth, T)
					continue
				}
				if !useGuess && round > 6 {
					T = nt
				} else {
					useGuess = false
					if ls.ivar != nil {
						mod[gkey] = leafType[gkey]
					}
					T = nil
					k = loopSym(depth, nil)
					continue
				}
			}
		}
		break
	}
	// assemble
	sub1 := func(p *Poly) *Poly { return substPhi(res.phis, p) }
	evs := substEvents(res.ev, sub1)
	exits := res.exits
	E := T
	if len(exits) > 0 {
		x := Zero
		for i := range exits {
			exits[i].cond = sub1(exits[i].cond)
			x = or(x, exits[i].cond)
		}
		E = mkFirst(k, T, x)
	}
	if len(evs) > 0 {
		ev := &Ev{Kind: "loop", K: k, Trip: T, A: evs, Pos: ls.pos, Exits: len(exits) > 0}
		I.ev = ev0
		I.emit(ev)
	}
	inst := func(v *Poly, n *Poly) *Poly { return subst1(sub1(v), k, n) }
	// state after normal termination
	fin := st0.clone()
	normal := true
	if T == infP {
		normal = false
	}
	if normal {
		for _, p := range res.phis {
			v := p.solve(T)
			if p.sl != nil {
				fin.mem[p.key] = &Content{arity: 0, body: sliceP(p.sl.o, p.sl.path, p.sl.el, p.sl.off, v, p.sl.idx)}
			} else {
				fin.mem[p.key] = &Content{arity: p.ar, body: v}
			}
		}
		for key, d := range direct {
			old := I.content(st0, key.o, key.path, mod[key])
			fin.mem[key] = &Content{arity: 0, body: ite(eqp(T, Zero), old.flat(), substPhi(res.phis, subst1(d, k, sub(T, One))))}
		}
		if useGuess {
			fin.mem[gkey] = &Content{arity: 0, body: add(ginit, mul2(ls.istep, T))}
		}
	}
	I.st = fin
	I.pc = pc0
	alive := normal
	if len(exits) > 0 {
		left := lt(E, T)
		if T == infP {
			left = One
		}
		before := One
		var brk []Exit
		for i := range exits {
			e := exits[i]
			c := inst(e.cond, E)
			es := st0.clone()
			for key, ct := range e.st.mem {
				if key.o.local {
					if _, ok := st0.mem[key]; !ok {
						continue
					}
				}
				if old, ok := st0.mem[key]; ok && old == ct {
					continue
				}
				n := &Content{arity: ct.arity, body: inst(ct.body, E)}
				for _, kk := range sortedOv(ct.over) {
					if n.over == nil {
						n.over = map[string]ovE{}
					}
					n.over[kk] = ovE{ct.over[kk].idx, inst(ct.over[kk].v, E)}
				}
				es.mem[key] = n
			}
			full := mul(left, before, c)
			before = and(before, not(c))
			if full == Zero {
				continue
			}
			switch {
			case e.kind == xRet:
				var vs []Value
				for _, v := range e.vals {
					vs = append(vs, substValue(v, func(p *Poly) *Poly { return inst(p, E) }))
				}
				I.fr.exits = append(I.fr.exits, Exit{kind: xRet, cond: and(pc0, full), vals: vs, st: es, ndef: len(I.fr.defers)})
				if I.soft > 0 {
					I.pc = sub(I.pc, and(pc0, full))
				}
			case e.kind == xBrk && (e.label == "" || e.label == ls.label):
				brk = append(brk, Exit{kind: xBrk, cond: full, st: es})
			default:
				e.cond = and(pc0, full)
				e.st = es
				I.fr.exits = append(I.fr.exits, e)
				if I.soft > 0 {
					I.pc = sub(I.pc, e.cond)
				}
			}
		}
		if len(brk) > 0 {
			st := I.st
			if !alive {
				st = brk[len(brk)-1].st
				brk = brk[:len(brk)-1]
			}
			for j := len(brk) - 1; j >= 0; j-- {
				st = I.merge(brk[j].cond, brk[j].st, st)
			}
			I.st = st
			alive = true
		}
	}
	return alive
}

func (I *Interp) sameBase(p *Poly, si sliceI) bool {
	_, ok := I.lenOver(p, si)
	return ok
}

// lenOver: p is a slice over the same storage as si; returns its length.
func (I *Interp) lenOver(p *Poly, si sliceI) (*Poly, bool) {
	r := Zero
	for _, c := range cases(p) {
		if c.a == nil || c.a.op != "slice" {
			return nil, false
		}
		s := I.sliceInfo(c.a)
		if s.o != si.o || s.path != si.path || s.off != si.off || len(s.idx) != len(si.idx) {
			return nil, false
		}
		for i := range s.idx {
			if s.idx[i] != si.idx[i] {
				return nil, false
			}
		}
		r = add(r, mul2(c.cond, s.ln))
	}
	return r, true
}

// ---------------------------------------------------------------- recurrences

func phiMap(phis []*phi) map[string]*phi {
	m := map[string]*phi{}
	for _, p := range phis {
		m[p.name] = p
	}
	return m
}

func hasPhi(n Node, m map[string]*phi) bool {
	found := false
	seen := map[int]bool{}
	var walk func(n Node)
	var walkA func(a *Atom)
	walkA = func(a *Atom) {
		if found || seen[-a.id] {
			return
		}
		seen[-a.id] = true
		if a.op == "app" {
			if q, ok := m[a.name]; ok && q.solve == nil {
				found = true
				return
			}
		}
		for _, x := range a.args {
			walk(x)
		}
	}
	walk = func(n Node) {
		if found || seen[n.nid()] {
			return
		}
		seen[n.nid()] = true
		switch x := n.(type) {
		case *Poly:
			for _, t := range x.t {
				for _, f := range t.m.f {
					walkA(f.a)
				}
			}
		case *Lam:
			walk(x.body)
			if x.n != nil {
				walk(x.n)
			}
		case *Tup:
			for _, y := range x.x {
				walk(y)
			}
		case *Atom:
			walkA(x)
		}
	}
	walk(n)
	return found
}

// substPhi replaces solved loop-carried values by their closed forms in k.
func substPhi(phis []*phi, p *Poly) *Poly {
	if len(phis) == 0 {
		return p
	}
	m := phiMap(phis)
	var s *Subst
	s = &Subst{memo: map[int]Node{}}
	s.fn = func(s *Subst, a *Atom) (*Poly, bool) {
		if a.op != "app" || !strings.HasPrefix(a.name, "φ") {
			return nil, false
		}
		q, ok := m[a.name]
		if !ok || q.solve == nil {
			return nil, false
		}
		idx := make([]*Poly, len(a.args))
		for i := range idx {
			idx[i] = s.poly(a.args[i].(*Poly))
		}
		return instBody(q.at, idx), true
	}
	return s.poly(p)
}

func solvePhis(phis []*phi, k *Atom) {
	m := phiMap(phis)
	kp := atomP(k)
	left := append([]*phi{}, phis...)
	all := append([]*phi{}, phis...)
	parent := map[*phi]*phi{}
	finish := func(p *phi, f func(n *Poly) *Poly) {
		p.solve = f
		p.at = f(kp)
		for q := p; parent[q] != nil; q = parent[q] {
			q, up := q, parent[q]
			up.solve = func(n *Poly) *Poly {
				idx := make([]*Poly, q.ar)
				for i := range idx {
					idx[i] = paramP(i + 1)
				}
				return ite(eqp(paramP(0), q.row), instBody(q.solve(n), idx), up.init)
			}
			up.at = up.solve(kp)
		}
		for i, q := range left {
			if q == p {
				left = append(left[:i], left[i+1:]...)
				break
			}
		}
	}
	// scalars first: arrays index by them
	sort.SliceStable(left, func(i, j int) bool { return left[i].ar < left[j].ar })
	for len(left) > 0 {
		progress := false
		for _, p := range append([]*phi{}, left...) {
			p.next = substPhi(all, p.next)
		}
		for _, p := range append([]*phi{}, left...) {
			if f := trySolve(p, phis, m, left, k); f != nil {
				finish(p, f)
				progress = true
				break
			}
		}
		if progress {
			continue
		}
		for _, p := range append([]*phi{}, left...) {
			q := specialise(p, k, m)
			if q == nil {
				continue
			}
			m[q.name] = q
			for i, x := range left {
				if x == p {
					left[i] = q
				}
			}
			all = append(all, q)
			for _, x := range left {
				x.next = rowSubst(p, q, x.next)
			}
			parent[q] = p
			progress = true
			break
		}
		if progress {
			continue
		}
		// opaque fold over a smallest dependency component
		comp := smallestComp(left, m)
		folds := foldComp(comp, k)
		for i, p := range comp {
			finish(p, folds[i])
		}
	}
}

func selfApp(p *phi) *Poly {
	idx := make([]*Poly, p.ar)
	for i := range idx {
		idx[i] = paramP(i)
	}
	if p.sl != nil {
		return appKP(p.name, KInt, nil, true)
	}
	return p.app(idx)
}

func trySolve(p *phi, phis []*phi, m map[string]*phi, left []*phi, k *Atom) func(n *Poly) *Poly {
	self := selfApp(p)
	next := p.next
	D := sub(next, self)
	if D == Zero {
		return func(n *Poly) *Poly { return p.init }
	}
	D = untouchedReads(D, m, left, k)
	if !hasPhi(D, m) {
		return func(n *Poly) *Poly { return add(p.init, mkSum(k, n, D)) }
	}
	if nx := untouchedReads(next, m, left, k); !hasPhi(nx, m) {
		return func(n *Poly) *Poly {
			return ite(eqz(n), p.init, subst1(nx, k, sub(n, One)))
		}
	}
	// A*self + B
	if a := self.single(); a != nil {
		A, B, ok := linIn(next, a)
		if ok && !hasPhi(A, m) && !hasPhi(B, m) {
			if B == Zero {
				return func(n *Poly) *Poly { return mul2(p.init, mkProd(k, n, A)) }
			}
			if !occurs(A, k) && !occurs(B, k) && p.kind != KOther && topBool(A) == nil {
				// geometric with constant coefficients: leave to the fold form
				_ = A
			}
		}
	}
	return nil
}

// untouchedReads replaces reads of locations that no earlier iteration wrote
// by their value before the loop.
func untouchedReads(D *Poly, m map[string]*phi, left []*phi, k *Atom) *Poly {
	if !hasPhi(D, m) {
		return D
	}
	r := newAcc()
	for _, t := range D.t {
		mono := monoP(t.m)
		if !hasPhi(mono, m) {
			r.add(mono, t.c)
			continue
		}
		c := One
		for _, f := range t.m.f {
			if f.a.kind == KBool && !hasPhi(f.a, m) {
				c = mul2(c, atomP(f.a))
			}
		}
		var s *Subst
		s = &Subst{memo: map[int]Node{}}
		s.fn = func(s *Subst, a *Atom) (*Poly, bool) {
			if a.op != "app" || !strings.HasPrefix(a.name, "φ") {
				return nil, false
			}
			q, ok := m[a.name]
			if !ok || q.solve != nil {
				return nil, false
			}
			idx := make([]*Poly, len(a.args))
			for i := range idx {
				idx[i] = s.poly(a.args[i].(*Poly))
			}
			if q.ar > 0 && untouched(q, idx, c, m, k) {
				return instBody(q.init, idx), true
			}
			if q.sl != nil {
				return appKP(q.name, KInt, nil, true), true
			}
			return q.app(idx), true
		}
		r.add(s.poly(mono), t.c)
	}
	return r.poly()
}

var untouchedMemo = map[string]bool{}

// untouched: no iteration j<k modifies q at idx (under condition c).
func untouched(q *phi, idx []*Poly, c *Poly, m map[string]*phi, k *Atom) bool {
	key := fmt.Sprint(q.name, "|", q.next.id, "|", k.id, "|", c.id)
	for _, e := range idx {
		key += fmt.Sprint("|", e.id)
	}
	if r, ok := untouchedMemo[key]; ok {
		return r
	}
	r := untouched1(q, idx, c, m, k)
	untouchedMemo[key] = r
	return r
}

var writtenMemo = map[string][]*Poly{}

func untouched1(q *phi, idx []*Poly, c *Poly, m map[string]*phi, k *Atom) bool {
	for _, e := range idx {
		if hasPhi(e, m) {
			return false
		}
	}
	key := fmt.Sprint(q.name, "|", q.next.id, "|", k.id)
	for _, e := range idx {
		key += fmt.Sprint("|", e.id)
	}
	ss, ok := writtenMemo[key]
	if !ok {
		ss = writtenConds(q, idx, m, k)
		writtenMemo[key] = ss
	}
	for _, s := range ss {
		if z := mul2(c, s); z != Zero && !caseZero(z, 6) {
			return false
		}
	}
	return true
}

// writtenConds: how often (as sums over the earlier iterations) q is modified at
// idx; all of them are zero iff it is untouched.
func writtenConds(q *phi, idx []*Poly, m map[string]*phi, k *Atom) (res []*Poly) {
	D := sub(q.next, selfApp(q))
	if D == Zero {
		return nil
	}
	type grp struct{ b *acc }
	gs := map[int]*grp{}
	var order []int
	for _, t := range D.t {
		var bf, nf []Factor
		dirty := false
		for _, f := range t.m.f {
			if f.a.kind == KBool && f.a.op != "app" {
				if hasPhi(f.a, m) {
					dirty = true
					continue
				}
				bf = append(bf, f)
			} else {
				nf = append(nf, f)
			}
		}
		id := internMono(nf).id
		if dirty {
			id = -newID()
		}
		g, ok := gs[id]
		if !ok {
			g = &grp{newAcc()}
			gs[id] = g
			order = append(order, id)
		}
		g.b.addMono(t.c, internMono(bf))
	}
	j := freshSym("j", KInt)
	j.nonneg = true
	seen := map[int]bool{}
	for _, id := range order {
		b := gs[id].b.poly()
		if seen[b.id] {
			continue
		}
		seen[b.id] = true
		// evaluate the write condition of iteration j at idx: substitute
		// parameters and the iteration simultaneously
		mm := map[*Atom]*Poly{k: atomP(j)}
		for i, e := range idx {
			mm[param(i)] = e
		}
		s := mkSum(j, atomP(k), substP(b, mm))
		if s != Zero && !seen[-s.id] {
			seen[-s.id] = true
			res = append(res, s)
		}
	}
	return res
}

func phiDeps(p *phi, m map[string]*phi) map[string]bool {
	r := map[string]bool{}
	seen := map[int]bool{}
	var walk func(n Node)
	var walkA func(a *Atom)
	walkA = func(a *Atom) {
		if seen[-a.id] {
			return
		}
		seen[-a.id] = true
		if a.op == "app" {
			if q, ok := m[a.name]; ok && q.solve == nil {
				r[a.name] = true
			}
		}
		for _, x := range a.args {
			walk(x)
		}
	}
	walk = func(n Node) {
		if seen[n.nid()] {
			return
		}
		seen[n.nid()] = true
		switch x := n.(type) {
		case *Poly:
			for _, t := range x.t {
				for _, f := range t.m.f {
					walkA(f.a)
				}
			}
		case *Lam:
			walk(x.body)
			if x.n != nil {
				walk(x.n)
			}
		case *Tup:
			for _, y := range x.x {
				walk(y)
			}
		case *Atom:
			walkA(x)
		}
	}
	walk(p.next)
	return r
}

func smallestComp(left []*phi, m map[string]*phi) []*phi {
	var best []*phi
	for _, p := range left {
		reach := map[string]bool{p.name: true}
		work := []*phi{p}
		for len(work) > 0 {
			q := work[len(work)-1]
			work = work[:len(work)-1]
			for n := range phiDeps(q, m) {
				if !reach[n] {
					reach[n] = true
					work = append(work, m[n])
				}
			}
		}
		var c []*phi
		for _, q := range left {
			if reach[q.name] {
				c = append(c, q)
			}
		}
		if best == nil || len(c) < len(best) {
			best = c
		}
	}
	// canonical order: by initial value and shape, so that equal loops agree
	sort.SliceStable(best, func(i, j int) bool {
		if best[i].ar != best[j].ar {
			return best[i].ar < best[j].ar
		}
		return best[i].init.String() < best[j].init.String()
	})
	return best
}

// foldTag names the accumulator after the nesting depth of its loop.
func foldTag(k *Atom) string {
	s := k.name
	if i := strings.IndexByte(s, '<'); i >= 0 {
		s = s[:i]
	}
	return s
}

// specialise: every write of the loop to p goes to the same leading index E, so
// only that row of p is loop-carried.
func specialise(p *phi, k *Atom, m map[string]*phi) *phi {
	if p.ar == 0 || p.sl != nil {
		return nil
	}
	D := sub(p.next, selfApp(p))
	if D == Zero {
		return nil
	}
	var E *Poly
	for _, t := range D.t {
		var e *Poly
		for _, f := range t.m.f {
			if f.a.op != "eq" {
				continue
			}
			x, ok := solveFor(f.a.args[0].(*Poly), param(0))
			if !ok || occurs(x, k) || hasPhi(x, m) {
				continue
			}
			bad := false
			for i := 0; i < p.ar; i++ {
				if occurs(x, param(i)) {
					bad = true
				}
			}
			if !bad {
				e = x
				break
			}
		}
		if e == nil || (E != nil && e != E) {
			return nil
		}
		E = e
	}
	q := &phi{key: p.key, name: p.name + "'", ar: p.ar - 1, kind: p.kind, typ: p.typ}
	idx := []*Poly{E}
	for i := 0; i < p.ar-1; i++ {
		idx = append(idx, paramP(i))
	}
	q.init = instBody(p.init, idx)
	q.next = instBody(p.next, idx)
	q.row = E
	return q
}

// rowSubst replaces reads of p by reads of its loop-carried row q.
func rowSubst(p, q *phi, t *Poly) *Poly {
	s := &Subst{memo: map[int]Node{}}
	s.fn = func(s *Subst, a *Atom) (*Poly, bool) {
		if a.op != "app" || a.name != p.name {
			return nil, false
		}
		idx := make([]*Poly, len(a.args))
		for i := range idx {
			idx[i] = s.poly(a.args[i].(*Poly))
		}
		return ite(eqp(idx[0], q.row), q.app(idx[1:]), instBody(p.init, idx)), true
	}
	return s.poly(t)
}

func foldComp(comp []*phi, k *Atom) []func(n *Poly) *Poly {
	// replace φ_i(args) by acc_i(args)
	m := map[string]int{}
	for i, p := range comp {
		m[p.name] = i
	}
	var steps []Node
	var inits []Node
	for _, p := range comp {
		var s *Subst
		s = &Subst{memo: map[int]Node{}}
		s.fn = func(s *Subst, a *Atom) (*Poly, bool) {
			if a.op != "app" || !strings.HasPrefix(a.name, "φ") {
				return nil, false
			}
			i, ok := m[a.name]
			if !ok {
				return nil, false
			}
			args := make([]Node, len(a.args))
			for j := range args {
				args[j] = s.poly(a.args[j].(*Poly))
			}
			q := comp[i]
			return appKP(fmt.Sprintf("acc%s.%d", foldTag(k), i), q.kind, q.pay(), false, args...), true
		}
		var b Node = s.poly(p.next)
		for i := p.ar - 1; i >= 0; i-- {
			b = mkLam(param(i), b)
		}
		steps = append(steps, mkLam(k, b))
		var in Node = p.init
		for i := p.ar - 1; i >= 0; i-- {
			in = mkLam(param(i), in)
		}
		inits = append(inits, in)
	}
	st := mkTup(steps...)
	it := mkTup(inits...)
	var r []func(n *Poly) *Poly
	for i := range comp {
		i := i
		p := comp[i]
		r = append(r, func(n *Poly) *Poly {
			if n == Zero {
				return p.init
			}
			args := []Node{st, it, n}
			for j := 0; j < p.ar; j++ {
				args = append(args, paramP(j))
			}
			return appKP(fmt.Sprintf("fold%d", i), p.kind, p.pay(), false, args...)
		})
	}
	return r
}

// ---------------------------------------------------------------- substitution in values and events

func substValue(v Value, f func(*Poly) *Poly) Value {
	switch x := v.(type) {
	case nil:
		return nil
	case *Poly:
		return f(x)
	case *StructV:
		r := &StructV{typ: x.typ}
		for _, y := range x.f {
			r.f = append(r.f, substValue(y, f))
		}
		return r
	case *ArrV:
		r := &ArrV{typ: x.typ, leaves: map[string]*Content{}}
		for k, c := range x.leaves {
			r.leaves[k] = substContent(c, f)
		}
		return r
	case *DenseV:
		n := *x
		n.l.idx = nil
		for _, p := range x.l.idx {
			n.l.idx = append(n.l.idx, f(p))
		}
		return &n
	}
	return v
}

func substContent(c *Content, f func(*Poly) *Poly) *Content {
	n := &Content{arity: c.arity, body: f(c.body)}
	for k, e := range c.over {
		if n.over == nil {
			n.over = map[string]ovE{}
		}
		n.over[k] = ovE{e.idx, f(e.v)}
	}
	return n
}

func substEvents(evs []*Ev, f func(*Poly) *Poly) []*Ev {
	r := make([]*Ev, len(evs))
	for i, e := range evs {
		n := *e
		if n.Recv != nil {
			n.Recv = substValue(n.Recv, f)
		}
		n.Args = nil
		for _, a := range e.Args {
			n.Args = append(n.Args, substValue(a, f))
		}
		n.Res = nil
		for _, a := range e.Res {
			n.Res = append(n.Res, substValue(a, f))
		}
		if n.Cond != nil {
			n.Cond = f(n.Cond)
		}
		if n.Trip != nil {
			n.Trip = f(n.Trip)
		}
		n.A = substEvents(e.A, f)
		n.B = substEvents(e.B, f)
		r[i] = &n
	}
	return r
}
