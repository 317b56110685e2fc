package main

// Abstract interpretation of type-checked Go: statements transform a state of
// value numbers; joins are gated merges; loops are summarised (loop.go);
// repository functions are inlined, external ones are described by transfer
// functions (intr.go) or treated as uninterpreted with an effect event.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

type unsupErr struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupErr{fmt.Sprintf(f, a...)}) }

type Cfg struct {
	leaf           func(full string, typ types.Type, idx []*Poly) *Poly
	lenOf          func(full string, idx []*Poly) *Poly
	nonneg         func(full string) bool
	realFields     bool
	intr           map[string]Intrinsic
	opaque         func(fn *types.Func) bool // repository functions not to inline
	dim            *Poly                     // dimension of frequency vectors
	noPanicPC      bool
	maxUnroll      int
	funcVal        map[string]Intrinsic // opaque function values by name
	opaqueReadsOut func(name string) bool
	freshRet       bool                      // opaque functions return fresh storage
	noSnap         func(fn *types.Func) bool // opaque functions independent of the field values
	model          func(*types.Func) *types.Func
	snapshot       func(I *Interp) []Node
	noModel        func(full string) bool // library models not to use
	readOnly       func(full string) bool // opaque callees that do not write to their arguments
	pureIface      bool                   // interface methods of symbolic values are functions of their arguments
	opaquePure     bool                   // functions kept opaque are functions of their arguments
}

type Intrinsic func(c *Call) []Value

type Call struct {
	I    *Interp
	name string
	recv Value
	args []Value
	pos  token.Pos
	sig  *types.Signature
	ell  bool
	fn   *types.Func
	expr *ast.CallExpr
}

func (c *Call) p(i int) *Poly {
	p, ok := c.args[i].(*Poly)
	if !ok {
		unsup("argument %d of %s is not scalar", i, c.name)
	}
	return p
}

type Ev struct {
	Kind  string // call, if, loop, ret, fatal, store
	Name  string
	Fn    *types.Func
	Recv  Value
	Args  []Value
	Res   []Value
	Cond  *Poly
	A, B  []*Ev
	K     *Atom
	Trip  *Poly
	Pos   token.Pos
	In    string // enclosing function
	Loc   *Loc
	Ell   bool
	Exits bool
}

type exitKind int

const (
	xRet exitKind = iota
	xBrk
	xCont
)

type Exit struct {
	kind  exitKind
	label string
	cond  *Poly
	vals  []Value
	st    *State
	ndef  int // deferred calls registered so far
}

type Frame struct {
	name    string
	pkg     *Pkg
	env     map[types.Object]*Poly
	exits   []Exit
	results []types.Object
	locals  []*Obj
	defers  []deferred
	sig     *types.Signature
	esc     map[types.Object]bool
	body    ast.Node
}

type Interp struct {
	prog      *Prog
	cfg       *Cfg
	objTab    map[string]*Obj
	defaults  map[contKey]*Content
	objCount  int
	nilCount  int
	st        *State
	pc        *Poly
	loops     []*Atom
	ctx       []string
	fr        *Frame
	stack     []*types.Func
	ev        *[]*Ev
	nfun      map[string]bool
	ncall     int
	nloop     int
	steps     int
	opaqueN   map[string]int
	opq       map[string]bool
	taint     string // repository functions kept opaque that were called
	quiet     int
	globals   map[types.Object]*Poly
	zeroAdded bool // fields the specifications do not know start at zero
	escCache  map[ast.Node]map[types.Object]bool
	assume    *Poly
	pcs       []*Poly
	frames    []*Frame
	soft      int // inside verifTry: path conditions are kept exact
	tryFrame  int
	tryPC     int
	deaths    []death
	inSummary int
}

func newInterp(p *Prog, cfg *Cfg) *Interp {
	if cfg == nil {
		cfg = &Cfg{}
	}
	I := &Interp{prog: p, cfg: cfg, objTab: map[string]*Obj{}, defaults: map[contKey]*Content{}, nfun: map[string]bool{},
		st: &State{mem: map[contKey]*Content{}}, pc: One, opaqueN: map[string]int{}, globals: map[types.Object]*Poly{},
		escCache: map[ast.Node]map[types.Object]bool{}}
	I.ev = &[]*Ev{}
	I.objCount = objBase
	return I
}

// object ids are global so that atoms of different interpreters never clash
var objBase = 0

func (I *Interp) done() { objBase = I.objCount + 1 }

func (I *Interp) emit(e *Ev) {
	if I.fr != nil {
		e.In = I.fr.name
	}
	*I.ev = append(*I.ev, e)
}

func (I *Interp) siteKey(pos token.Pos) string {
	return strings.Join(I.ctx, ">") + "@" + strconv.Itoa(int(pos))
}

func (I *Interp) loopIdx() []*Poly {
	r := make([]*Poly, len(I.loops))
	for i, k := range I.loops {
		r[i] = atomP(k)
	}
	return r
}

// allocObj creates (or re-creates) the object of an allocation site.
func (I *Interp) allocObj(kind string, pos token.Pos, typ types.Type, seq bool, ln *Poly, local bool) (*Obj, []*Poly) {
	key := kind + ":" + I.siteKey(pos)
	var idx []*Poly
	if !local {
		idx = I.loopIdx()
		key += fmt.Sprintf("/%d", len(idx))
	}
	o, ok := I.objTab[key]
	if !ok {
		o = I.newObjRaw(key, typ)
		o.alloc = true
		o.seq = seq
		o.nidx = len(idx)
		o.local = local
		I.objTab[key] = o
	}
	if seq && ln != nil {
		b := ln
		for i, k := range I.loops {
			if !local {
				b = subst1(b, k, paramP(i))
			}
		}
		o.lenBody = b
	}
	// fresh contents
	for k, c := range I.st.mem {
		if k.o != o {
			continue
		}
		if o.nidx == 0 {
			delete(I.st.mem, k)
			continue
		}
		d := I.defaultContent(o, k.path, leafType[k])
		cond := One
		for i := range idx {
			cond = and(cond, eqp(paramP(i), idx[i]))
		}
		I.st.mem[k] = &Content{arity: c.arity, body: ite(cond, d.flat(), c.flat())}
	}
	return o, idx
}

// fullPC is the path condition including those of the callers.
func (I *Interp) fullPC() *Poly {
	p := I.pc
	for _, q := range I.pcs {
		p = and(p, q)
	}
	return p
}

// ---------------------------------------------------------------- merging

func (I *Interp) merge(c *Poly, a, b *State) *State {
	if c == One {
		return a
	}
	if c == Zero {
		return b
	}
	r := &State{mem: make(map[contKey]*Content, len(a.mem))}
	get := func(s *State, k contKey) *Content {
		if x, ok := s.mem[k]; ok {
			return x
		}
		return I.defaultContent(k.o, k.path, leafType[k])
	}
	for k, x := range a.mem {
		y, ok := b.mem[k]
		if !ok {
			if k.o.local {
				continue
			}
			y = get(b, k)
		}
		r.mem[k] = iteContent(c, x, y)
	}
	for k, y := range b.mem {
		if _, ok := a.mem[k]; ok {
			continue
		}
		if k.o.local {
			continue
		}
		r.mem[k] = iteContent(c, get(a, k), y)
	}
	return r
}

// fork runs two alternatives under c and joins them; it reports liveness.
func (I *Interp) fork(c *Poly, pos token.Pos, a, b func() bool) bool {
	if c == One {
		return a()
	}
	if c == Zero {
		return b()
	}
	base, pc0, ev0 := I.st, I.pc, I.ev
	n0 := I.nBrk()
	var ea, eb []*Ev
	I.st, I.pc, I.ev = base.clone(), and(pc0, c), &ea
	la := a()
	sa, pa := I.st, I.pc
	n1 := I.nBrk()
	I.st, I.pc, I.ev = base, and(pc0, not(c)), &eb
	lb := b()
	sb, pb := I.st, I.pc
	n2 := I.nBrk()
	I.ev = ev0
	if len(ea)+len(eb) > 0 {
		I.emit(&Ev{Kind: "if", Cond: c, A: ea, B: eb, Pos: pos})
	}
	switch {
	case la && lb:
		I.st = I.merge(c, sa, sb)
		if I.soft > 0 {
			I.pc = add(pa, pb)
		} else if n0 == n2 {
			I.pc = pc0
		} else {
			I.pc = add(pa, pb)
		}
		return true
	case la:
		I.st = sa
		I.pc = pa
		if n1 == n2 && I.soft == 0 {
			I.pc = pc0
			if n0 != n1 {
				I.pc = pa
			}
		}
		return true
	case lb:
		I.st = sb
		I.pc = pb
		if n0 == n1 && I.soft == 0 {
			I.pc = pc0
			if n1 != n2 {
				I.pc = pb
			}
		}
		return true
	}
	return false
}

// nBrk counts break/continue exits of the current frame (their negation has to
// stay in the path condition).
func (I *Interp) nBrk() int {
	n := 0
	if I.fr == nil {
		return 0
	}
	for _, e := range I.fr.exits {
		if e.kind != xRet {
			n++
		}
	}
	return n
}

// ---------------------------------------------------------------- functions

func (I *Interp) callDecl(fn *types.Func, recv Value, args []Value, pos token.Pos) []Value {
	fd := I.prog.Decls[fn]
	pk := I.prog.PkgOf[fn]
	if fd == nil || fd.Body == nil {
		unsup("no body for %s", fn.FullName())
	}
	n := 0
	for _, f := range I.stack {
		if f == fn {
			n++
		}
	}
	lim := 6
	for _, a := range args {
		// partial evaluation of a parser
		if p, ok := a.(*Poly); ok {
			if _, ok := p.strConst(); ok {
				lim = 40
			}
		}
	}
	if n > lim {
		unsup("recursion in %s", fn.FullName())
	}
	I.stack = append(I.stack, fn)
	defer func() { I.stack = I.stack[:len(I.stack)-1] }()
	I.nfun[shortName(fn)] = true
	sig := fn.Type().(*types.Signature)
	env := map[types.Object]*Poly{}
	return I.callBody(shortName(fn), pk, sig, fd.Recv, fd.Type, fd.Body, env, recv, args, pos)
}

func shortName(fn *types.Func) string {
	return strings.ReplaceAll(fn.FullName(), modPath+"/", "")
}

func (I *Interp) callBody(name string, pk *Pkg, sig *types.Signature, rl *ast.FieldList, ft *ast.FuncType, body *ast.BlockStmt,
	env map[types.Object]*Poly, recv Value, args []Value, pos token.Pos) []Value {
	if len(I.ctx) > 60 {
		unsup("call depth in %s", name)
	}
	savedFr, savedPC := I.fr, I.pc
	I.pcs = append(I.pcs, savedPC)
	I.ctx = append(I.ctx, strconv.Itoa(int(pos)))
	fr := &Frame{name: name, pkg: pk, env: env, sig: sig, body: body}
	if e, ok := I.escCache[body]; ok {
		fr.esc = e
	} else {
		fr.esc = escaping(pk, body)
		I.escCache[body] = fr.esc
	}
	I.fr = fr
	I.pc = One
	I.frames = append(I.frames, fr)
	nfr := len(I.frames)
	restore := func() {
		I.frames = I.frames[:nfr-1]
		I.fr = savedFr
		I.pc = savedPC
		I.pcs = I.pcs[:len(I.pcs)-1]
		I.ctx = I.ctx[:len(I.ctx)-1]
	}
	if rl != nil && len(rl.List) == 1 && len(rl.List[0].Names) == 1 {
		if o := pk.Info.Defs[rl.List[0].Names[0]]; o != nil {
			I.declare(o, recv, rl.Pos())
		}
	}
	i := 0
	for _, f := range ft.Params.List {
		for _, nm := range f.Names {
			if o := pk.Info.Defs[nm]; o != nil && nm.Name != "_" {
				I.declare(o, args[i], nm.Pos())
			}
			i++
		}
		if len(f.Names) == 0 {
			i++
		}
	}
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, nm := range f.Names {
				o := pk.Info.Defs[nm]
				fr.results = append(fr.results, o)
				if o != nil {
					I.declare(o, I.zeroValue(o.Type()), nm.Pos())
				}
			}
		}
	}
	alive := I.block(body.List)
	if alive {
		pc := One
		if I.soft > 0 {
			pc = I.pc
		}
		fr.exits = append(fr.exits, Exit{kind: xRet, cond: pc, vals: I.namedResults(), st: I.st, ndef: len(fr.defers)})
	}
	if len(fr.exits) == 0 {
		// never returns normally
		restore()
		panic(mkDead())
	}
	if len(fr.defers) > 0 {
		var left []Exit
		for _, e := range fr.exits {
			I.st, I.pc = e.st, e.cond
			if !I.runDefers(fr, e.ndef) {
				continue
			}
			e.st = I.st
			if I.soft > 0 {
				e.cond = I.pc
			}
			if len(fr.results) > 0 && fr.results[0] != nil {
				e.vals = I.namedResults()
			}
			left = append(left, e)
		}
		fr.exits = left
		if len(left) == 0 {
			restore()
			panic(mkDead())
		}
	}
	// first matching exit wins
	last := fr.exits[len(fr.exits)-1]
	st, vals := last.st, last.vals
	for j := len(fr.exits) - 2; j >= 0; j-- {
		e := fr.exits[j]
		if e.kind != xRet {
			unsup("stray break in %s", name)
		}
		st = I.merge(e.cond, e.st, st)
		nv := make([]Value, len(vals))
		for k := range vals {
			nv[k] = iteValue(e.cond, e.vals[k], vals[k])
		}
		vals = nv
	}
	I.st = st
	if I.soft > 0 {
		p := Zero
		for _, e := range fr.exits {
			p = add(p, e.cond)
		}
		savedPC = and(savedPC, p)
	}
	for _, o := range fr.locals {
		for k := range I.st.mem {
			if k.o == o {
				delete(I.st.mem, k)
			}
		}
	}
	restore()
	return vals
}

// deadEnd is raised when every path of a call terminates the program.
type deadEnd struct{}

func (I *Interp) namedResults() []Value {
	var r []Value
	for _, o := range I.fr.results {
		if o == nil {
			r = append(r, Zero)
			continue
		}
		r = append(r, I.loadVar(o))
	}
	if len(I.fr.results) == 0 && I.fr.sig.Results().Len() > 0 {
		// unreachable fallthrough (function ends in panic)
		for i := 0; i < I.fr.sig.Results().Len(); i++ {
			r = append(r, I.zeroValue(I.fr.sig.Results().At(i).Type()))
		}
	}
	return r
}

func (I *Interp) declare(o types.Object, v Value, pos token.Pos) {
	local := !I.fr.esc[o]
	ob, idx := I.allocObj("var", pos, o.Type(), false, nil, local)
	if local {
		I.fr.locals = append(I.fr.locals, ob)
	}
	I.fr.env[o] = refP(ob, "", o.Type(), idx, false)
	I.store(I.st, Loc{ob, "", idx, o.Type()}, v)
}

func (I *Interp) loadVar(o types.Object) Value {
	if o.Pkg() != nil && o.Pkg().Path() == "io" && o.Name() == "EOF" {
		return appK("errors.New", KOther, strP("EOF"))
	}
	return I.loadPtr(I.varRef(o))
}

func (I *Interp) varRef(o types.Object) *Poly {
	if r, ok := I.fr.env[o]; ok {
		return r
	}
	// package level variable
	if o.Parent() != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
		if r, ok := I.globals[o]; ok {
			return r
		}
		ob := I.symObj("global."+o.Pkg().Name()+"."+o.Name(), o.Type(), 0)
		r := refP(ob, "", o.Type(), nil, false)
		I.globals[o] = r
		return r
	}
	unsup("unknown variable %s", o.Name())
	return nil
}

// initPkg evaluates the initializers of the package's variables and runs its
// init functions.
func (I *Interp) initPkg(pk *Pkg, pos token.Pos) {
	spec := func(p token.Pos) bool { return strings.HasPrefix(I.prog.Fset.Position(p).Filename, "/spec/") }
	sc := pk.Types.Scope()
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok && !spec(v.Pos()) {
			I.storeL(I.ptrLvals(I.varRef(v)), I.zeroValue(v.Type()))
		}
	}
	saved := I.fr
	fr := &Frame{name: "init", pkg: pk, env: map[types.Object]*Poly{}, esc: map[types.Object]bool{}, body: &ast.BlockStmt{},
		sig: types.NewSignatureType(nil, nil, nil, nil, nil, false)}
	for _, in := range pk.Info.InitOrder {
		if spec(in.Rhs.Pos()) {
			continue
		}
		if len(in.Lhs) != 1 {
			unsup("initializer of several variables")
		}
		I.fr = fr
		v := I.convertTo(I.eval(in.Rhs), I.typeOf(in.Rhs), in.Lhs[0].Type())
		I.storeL(I.ptrLvals(I.varRef(in.Lhs[0])), v)
		I.fr = saved
	}
	for _, f := range pk.Files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && !spec(fd.Pos()) {
				if fn, ok := pk.Info.Defs[fd.Name].(*types.Func); ok {
					I.callDecl(fn, nil, nil, pos)
				}
			}
		}
	}
}

func refLoc(a *Atom) (Loc, bool) {
	rp, ok := a.pay.(*refPay)
	if a.op != "ref" || !ok {
		return Loc{}, false
	}
	idx := make([]*Poly, len(a.args))
	for i := range idx {
		idx[i] = a.args[i].(*Poly)
	}
	return Loc{rp.obj, rp.path, idx, rp.typ}, true
}

func (I *Interp) loadPtr(p *Poly) Value {
	cs := cases(p)
	var cc []*Poly
	var vs []Value
	for _, c := range cs {
		if c.a != nil && c.a.op == "nil" {
			continue // would panic
		}
		if c.a == nil {
			unsup("load through %s", short(p.String()))
		}
		l, ok := refLoc(c.a)
		if !ok {
			l = I.opaquePtr(c.a)
		}
		cc = append(cc, c.cond)
		vs = append(vs, I.load(I.st, l))
	}
	if len(vs) == 0 {
		unsup("load through nil")
	}
	if len(vs) == 1 {
		return vs[0]
	}
	return combine(cc, vs)
}

// opaquePtr materialises the object behind an uninterpreted pointer value.
func (I *Interp) opaquePtr(a *Atom) Loc {
	t, _ := a.pay.(types.Type)
	if t == nil {
		unsup("pointer value %s", short(a.String()))
	}
	var elem types.Type
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		elem = u.Elem()
	case *types.Map:
		elem = t
	default:
		unsup("not a pointer: %s", short(a.String()))
	}
	o := I.symObj("*"+a.String(), elem, 0)
	return Loc{o, "", nil, elem}
}

type lval struct {
	cond *Poly
	l    Loc
}

func (I *Interp) ptrLvals(p *Poly) []lval {
	var r []lval
	for _, c := range cases(p) {
		if c.a == nil {
			unsup("store through %s", short(p.String()))
		}
		if c.a.op == "nil" {
			continue
		}
		l, ok := refLoc(c.a)
		if !ok {
			l = I.opaquePtr(c.a)
		}
		r = append(r, lval{c.cond, l})
	}
	if len(r) == 1 {
		r[0].cond = One
	}
	return r
}

func (I *Interp) storeL(ls []lval, v Value) {
	for _, x := range ls {
		if x.cond == One {
			I.store(I.st, x.l, v)
		} else {
			I.store(I.st, x.l, iteValue(x.cond, v, I.load(I.st, x.l)))
		}
	}
}

// escaping lists variables whose address may outlive the statement.
func escaping(pk *Pkg, body ast.Node) map[types.Object]bool {
	r := map[types.Object]bool{}
	mark := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				e = x.X
				continue
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.Ident:
				if o := pk.Info.Uses[x]; o != nil {
					r[o] = true
				}
			}
			return
		}
	}
	var lits []*ast.FuncLit
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, x)
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				mark(x.X)
			}
		case *ast.SliceExpr:
			if _, ok := pk.Info.TypeOf(x.X).Underlying().(*types.Array); ok {
				mark(x.X)
			}
		case *ast.SelectorExpr:
			if s := pk.Info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
				if sg, ok := s.Obj().Type().(*types.Signature); ok && sg.Recv() != nil {
					if _, ptr := sg.Recv().Type().(*types.Pointer); ptr {
						if _, isPtr := pk.Info.TypeOf(x.X).Underlying().(*types.Pointer); !isPtr {
							mark(x.X)
						}
					}
				}
			}
		}
		return true
	})
	for _, l := range lits {
		ast.Inspect(l, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if o, ok := pk.Info.Uses[id].(*types.Var); ok && (o.Pos() < l.Pos() || o.Pos() > l.End()) {
					r[o] = true
				}
			}
			return true
		})
	}
	return r
}

// ---------------------------------------------------------------- statements

func (I *Interp) block(list []ast.Stmt) bool {
	for _, s := range list {
		if !I.stmt(s) {
			return false
		}
	}
	return true
}

// guardDead converts a call that never returns into a dead path.
func (I *Interp) guardDead(f func() bool) (alive bool) {
	fr, nctx, nloops, nstack, ev, nfr, npcs := I.fr, len(I.ctx), len(I.loops), len(I.stack), I.ev, len(I.frames), len(I.pcs)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(deadEnd); ok {
				alive = false
				I.fr, I.ctx, I.loops, I.stack, I.ev = fr, I.ctx[:nctx], I.loops[:nloops], I.stack[:nstack], ev
				I.frames, I.pcs = I.frames[:nfr], I.pcs[:npcs]
				return
			}
			panic(r)
		}
	}()
	return f()
}

func (I *Interp) stmt(s ast.Stmt) bool {
	I.steps++
	if I.steps > 400000 {
		panic(tooBig{"statement budget"})
	}
	alive := I.guardDead(func() bool { return I.stmt1(s, "") })
	if !alive && debugNil {
		println("dead statement", I.prog.Fset.Position(s.Pos()).String())
	}
	return alive
}

func (I *Interp) stmt1(s ast.Stmt, label string) bool {
	switch x := s.(type) {
	case *ast.EmptyStmt:
		return true
	case *ast.BlockStmt:
		return I.block(x.List)
	case *ast.ExprStmt:
		I.evalN(x.X)
		return true
	case *ast.LabeledStmt:
		return I.stmt1(x.Stmt, x.Label.Name)
	case *ast.IncDecStmt:
		ls := I.lvalsOf(x.X)
		v := I.loadL(ls).(*Poly)
		d := One
		if x.Tok == token.DEC {
			d = constP(-1)
		}
		I.storeL(ls, add(v, d))
		return true
	case *ast.AssignStmt:
		I.assign(x)
		return true
	case *ast.DeclStmt:
		gd := x.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return true
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			var vals []Value
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				vals = I.evalN(vs.Values[0])
			} else {
				for _, e := range vs.Values {
					vals = append(vals, I.eval(e))
				}
			}
			for i, nm := range vs.Names {
				o := I.fr.pkg.Info.Defs[nm]
				if o == nil {
					continue
				}
				var v Value
				if len(vals) > 0 {
					v = I.convertTo(vals[i], I.srcType(vs.Values, i, vals), o.Type())
				} else {
					v = nil
				}
				if v == nil {
					I.declareZero(o, nm.Pos())
				} else {
					I.declare(o, v, nm.Pos())
				}
			}
		}
		return true
	case *ast.ReturnStmt:
		var vals []Value
		res := I.fr.sig.Results()
		if len(x.Results) == 0 {
			vals = I.namedResults()
		} else if len(x.Results) == 1 && res.Len() > 1 {
			vals = I.evalN(x.Results[0])
			tp := I.fr.pkg.Info.TypeOf(x.Results[0]).(*types.Tuple)
			for i := range vals {
				vals[i] = I.convertTo(vals[i], tp.At(i).Type(), res.At(i).Type())
			}
		} else {
			for i, e := range x.Results {
				vals = append(vals, I.convertTo(I.eval(e), I.typeOf(e), res.At(i).Type()))
			}
		}
		if len(I.fr.results) > 0 && len(x.Results) > 0 {
			for i, o := range I.fr.results {
				if o != nil {
					I.storeL(I.ptrLvals(I.varRef(o)), vals[i])
				}
			}
		}
		I.emit(&Ev{Kind: "ret", Args: vals, Pos: x.Pos()})
		I.fr.exits = append(I.fr.exits, Exit{kind: xRet, cond: I.pc, vals: vals, st: I.st, ndef: len(I.fr.defers)})
		return false
	case *ast.BranchStmt:
		lb := ""
		if x.Label != nil {
			lb = x.Label.Name
		}
		switch x.Tok {
		case token.BREAK:
			I.fr.exits = append(I.fr.exits, Exit{kind: xBrk, label: lb, cond: I.pc, st: I.st})
		case token.CONTINUE:
			I.fr.exits = append(I.fr.exits, Exit{kind: xCont, label: lb, cond: I.pc, st: I.st})
		default:
			unsup("%s statement", x.Tok)
		}
		I.emit(&Ev{Kind: x.Tok.String(), Pos: x.Pos()})
		return false
	case *ast.IfStmt:
		if x.Init != nil {
			if !I.stmt(x.Init) {
				return false
			}
		}
		c := I.cond(x.Cond)
		return I.fork(c, x.Cond.Pos(), func() bool { return I.block(x.Body.List) }, func() bool {
			if x.Else != nil {
				return I.stmt(x.Else)
			}
			return true
		})
	case *ast.SwitchStmt:
		return I.switchStmt(x, label)
	case *ast.TypeSwitchStmt:
		return I.typeSwitch(x, label)
	case *ast.ForStmt:
		return I.forStmt(x, label)
	case *ast.RangeStmt:
		return I.rangeStmt(x, label)
	case *ast.DeferStmt:
		I.deferStmt(x)
		return true
	case *ast.GoStmt:
		unsup("go statement")
	}
	unsup("statement %T", s)
	return false
}

func (I *Interp) srcType(es []ast.Expr, i int, vals []Value) types.Type {
	if len(es) == len(vals) {
		return I.typeOf(es[i])
	}
	return I.typeOf(es[0]).(*types.Tuple).At(i).Type()
}

func (I *Interp) declareZero(o types.Object, pos token.Pos) {
	local := !I.fr.esc[o]
	ob, idx := I.allocObj("var", pos, o.Type(), false, nil, local)
	if local {
		I.fr.locals = append(I.fr.locals, ob)
	}
	I.fr.env[o] = refP(ob, "", o.Type(), idx, false)
	if len(idx) > 0 {
		I.eachLeaf(o.Type(), "", func(path string, t types.Type) {
			if pathArity(ob, path) == len(idx) {
				d := I.defaultContent(ob, path, t)
				leafType[contKey{ob, path}] = t
				I.st.mem[contKey{ob, path}] = I.content(I.st, ob, path, t).set(idx, d.get(idx))
			}
		})
	} else if local {
		// present in the state from here on: a later loop must not take it for its own
		I.eachLeaf(o.Type(), "", func(path string, t types.Type) {
			leafType[contKey{ob, path}] = t
			I.st.mem[contKey{ob, path}] = I.content(I.st, ob, path, t)
		})
	}
}

func (I *Interp) deferStmt(x *ast.DeferStmt) {
	fn, recv, args, fv := I.prepCall(x.Call)
	pos := x.Call.Pos()
	frame := I.fr
	I.fr.defers = append(I.fr.defers, deferred{I.pc, func() bool {
		sv := I.fr
		I.fr = frame
		alive := I.guardDead(func() bool {
			I.doCall(x.Call, fn, recv, args, fv, pos)
			return true
		})
		I.fr = sv
		return alive
	}})
}

type deferred struct {
	cond *Poly
	run  func() bool
}

// runDefers executes the deferred calls registered before an exit in the
// current state and reports whether the exit is still reached. A deferred call
// that panics itself runs the remaining ones first.
func (I *Interp) runDefers(fr *Frame, n int) (alive bool) {
	all := fr.defers
	defer func() { fr.defers = all }()
	for j := n - 1; j >= 0; j-- {
		d := all[j]
		fr.defers = all[:j:j]
		both := and(I.pc, d.cond)
		switch {
		case both == Zero:
		case both == I.pc:
			if !d.run() {
				return false
			}
		default:
			if !I.fork(d.cond, token.NoPos, d.run, func() bool { return true }) {
				return false
			}
		}
	}
	return true
}

// death is a path that ends by panic or termination inside verifTry.
type death struct {
	cond *Poly
	st   *State
}

// die ends the current path.
func (I *Interp) die(isPanic bool) {
	if I.soft > 0 {
		if I.inSummary > 0 {
			unsup("termination inside a summarised loop")
		}
		if isPanic {
			fr, pc := I.fr, I.pc
			for j := len(I.frames) - 1; j >= I.tryFrame; j-- {
				f := I.frames[j]
				if len(f.defers) > 0 && !I.runDefers(f, len(f.defers)) {
					panic(mkDead()) // a deferred call ended the path itself
				}
			}
			I.fr, I.pc = fr, pc
		}
		p := I.pc
		for _, q := range I.pcs[I.tryPC:] {
			p = and(p, q)
		}
		I.deaths = append(I.deaths, death{p, I.st.clone()})
	}
	panic(mkDead())
}

// try runs f and reports under which condition it does not return.
func (I *Interp) try(f func()) *Poly {
	fr, pc, nctx, nloops, nstack, nfr, npcs := I.fr, I.pc, len(I.ctx), len(I.loops), len(I.stack), len(I.frames), len(I.pcs)
	d0, tf, tp := I.deaths, I.tryFrame, I.tryPC
	I.deaths, I.tryFrame, I.tryPC = nil, nfr, npcs+1
	I.soft++
	alive := I.guardDead(func() bool { f(); return true })
	I.soft--
	ds := I.deaths
	I.deaths, I.tryFrame, I.tryPC = d0, tf, tp
	I.fr, I.pc, I.ctx, I.loops, I.stack, I.frames, I.pcs = fr, pc, I.ctx[:nctx], I.loops[:nloops], I.stack[:nstack], I.frames[:nfr], I.pcs[:npcs]
	if !alive && len(ds) == 0 {
		panic(mkDead())
	}
	st := I.st
	died := Zero
	for j := len(ds) - 1; j >= 0; j-- {
		if !alive && j == len(ds)-1 {
			st = ds[j].st
		} else {
			st = I.merge(ds[j].cond, ds[j].st, st)
		}
		died = add(died, ds[j].cond)
	}
	if !alive {
		died = One
	}
	I.st = st
	return died
}

func (I *Interp) assign(x *ast.AssignStmt) {
	info := I.fr.pkg.Info
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		ls := I.lvalsOf(x.Lhs[0])
		l := I.loadL(ls)
		r := I.eval(x.Rhs[0])
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
			token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR}[x.Tok]
		I.storeL(ls, I.binop(op, l.(*Poly), r.(*Poly), I.typeOf(x.Lhs[0])))
		return
	}
	var vals []Value
	var ts []types.Type
	if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
		vals = I.evalMulti(x.Rhs[0], len(x.Lhs))
		if tp, ok := I.typeOf(x.Rhs[0]).(*types.Tuple); ok {
			for i := 0; i < tp.Len(); i++ {
				ts = append(ts, tp.At(i).Type())
			}
		} else {
			ts = []types.Type{I.typeOf(x.Rhs[0]), types.Typ[types.Bool]}
		}
	} else {
		for _, e := range x.Rhs {
			vals = append(vals, I.eval(e))
			ts = append(ts, I.typeOf(e))
		}
	}
	type tgt struct {
		ls  []lval
		new types.Object
		t   types.Type
	}
	tg := make([]tgt, len(x.Lhs))
	for i, e := range x.Lhs {
		if id, ok := e.(*ast.Ident); ok {
			if id.Name == "_" {
				continue
			}
			if x.Tok == token.DEFINE {
				if o := info.Defs[id]; o != nil {
					tg[i].new = o
					continue
				}
			}
		}
		tg[i].t = I.typeOf(e)
		tg[i].ls = I.lvalsOf(e)
	}
	for i := range tg {
		if tg[i].new != nil {
			I.declare(tg[i].new, I.convertTo(vals[i], ts[i], tg[i].new.Type()), x.Lhs[i].Pos())
			continue
		}
		if tg[i].ls != nil {
			I.storeL(tg[i].ls, I.convertTo(vals[i], ts[i], tg[i].t))
		}
	}
}

func (I *Interp) loadL(ls []lval) Value {
	if len(ls) == 1 {
		return I.load(I.st, ls[0].l)
	}
	var cc []*Poly
	var vs []Value
	for _, x := range ls {
		cc = append(cc, x.cond)
		vs = append(vs, I.load(I.st, x.l))
	}
	return combine(cc, vs)
}

func (I *Interp) typeOf(e ast.Expr) types.Type { return I.fr.pkg.Info.TypeOf(e) }

// lvalsOf evaluates an assignable expression to locations.
func (I *Interp) lvalsOf(e ast.Expr) []lval {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return I.lvalsOf(x.X)
	case *ast.Ident:
		if x.Name == "_" {
			return nil
		}
		o := I.fr.pkg.Info.Uses[x]
		if o == nil {
			o = I.fr.pkg.Info.Defs[x]
		}
		return I.ptrLvals(I.varRef(o))
	case *ast.StarExpr:
		return I.ptrLvals(I.eval(x.X).(*Poly))
	case *ast.SelectorExpr:
		sel := I.fr.pkg.Info.Selections[x]
		if sel == nil {
			if o, ok := I.fr.pkg.Info.Uses[x.Sel].(*types.Var); ok {
				return I.ptrLvals(I.varRef(o))
			}
			unsup("selector %s", x.Sel.Name)
		}
		return I.fieldLvals(I.baseLvals(x.X), sel.Recv(), sel.Index())
	case *ast.IndexExpr:
		switch t := I.typeOf(x.X).Underlying().(type) {
		case *types.Slice:
			s := I.eval(x.X).(*Poly)
			i := I.eval(x.Index).(*Poly)
			return I.elemLvals(s, i)
		case *types.Array:
			base := I.lvalsOf(x.X)
			i := I.eval(x.Index).(*Poly)
			for j := range base {
				base[j].l = Loc{base[j].l.o, base[j].l.path + "[]", append(append([]*Poly{}, base[j].l.idx...), i), t.Elem()}
			}
			return base
		case *types.Pointer:
			at := t.Elem().Underlying().(*types.Array)
			base := I.ptrLvals(I.eval(x.X).(*Poly))
			i := I.eval(x.Index).(*Poly)
			for j := range base {
				base[j].l = Loc{base[j].l.o, base[j].l.path + "[]", append(append([]*Poly{}, base[j].l.idx...), i), at.Elem()}
			}
			return base
		case *types.Map:
			m := I.eval(x.X).(*Poly)
			k := I.convertTo(I.eval(x.Index), I.typeOf(x.Index), t.Key())
			var r []lval
			for _, lv := range I.ptrLvals(m) {
				idx := append(append([]*Poly{}, lv.l.idx...), mapKey(k))
				r = append(r, lval{lv.cond, Loc{lv.l.o, lv.l.path + "{}", idx, t.Elem()}})
				// presence
				pl := Loc{lv.l.o, lv.l.path + "{?}", idx, types.Typ[types.Bool]}
				I.storeL([]lval{{lv.cond, pl}}, One)
			}
			return r
		}
	}
	unsup("assignment target %T", e)
	return nil
}

func mapKey(k Value) *Poly {
	switch x := k.(type) {
	case *Poly:
		return x
	}
	n := flatten(k)
	return atomP(rawAtom("app", "tuplekey", KOther, n...))
}

// baseLvals: locations of the operand of a field selection.
func (I *Interp) baseLvals(e ast.Expr) []lval {
	if _, ok := I.typeOf(e).Underlying().(*types.Pointer); ok {
		return I.ptrLvals(I.eval(e).(*Poly))
	}
	switch x := e.(type) {
	case *ast.Ident, *ast.StarExpr, *ast.SelectorExpr, *ast.ParenExpr:
		return I.lvalsOf(e)
	case *ast.IndexExpr:
		if _, ok := I.typeOf(x.X).Underlying().(*types.Map); !ok {
			return I.lvalsOf(e)
		}
	}
	// temporary
	v := I.eval(e)
	o, idx := I.allocObj("tmp", e.Pos(), I.typeOf(e), false, nil, false)
	l := Loc{o, "", idx, I.typeOf(e)}
	I.store(I.st, l, v)
	return []lval{{One, l}}
}

func (I *Interp) fieldLvals(base []lval, recv types.Type, index []int) []lval {
	for n, fi := range index {
		var r []lval
		for _, b := range base {
			t := b.l.typ
			if p, ok := t.Underlying().(*types.Pointer); ok && n > 0 {
				// embedded pointer
				for _, q := range I.ptrLvals(I.load(I.st, b.l).(*Poly)) {
					st := p.Elem().Underlying().(*types.Struct)
					f := st.Field(fi)
					r = append(r, lval{and(b.cond, q.cond), Loc{q.l.o, q.l.path + "." + f.Name(), q.l.idx, f.Type()}})
				}
				continue
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				unsup("field of %v", t)
			}
			f := st.Field(fi)
			r = append(r, lval{b.cond, Loc{b.l.o, b.l.path + "." + f.Name(), b.l.idx, f.Type()}})
		}
		base = r
	}
	return base
}

// elemLvals: element i of slice value s.
func (I *Interp) elemLvals(s *Poly, i *Poly) []lval {
	var r []lval
	for _, c := range cases(s) {
		if c.a != nil && c.a.op == "nil" {
			continue
		}
		si := I.sliceInfo(c.a)
		r = append(r, lval{c.cond, si.elem(i)})
	}
	if len(r) == 1 {
		r[0].cond = One
	}
	return r
}

type sliceI struct {
	o    *Obj
	path string
	el   types.Type
	off  *Poly
	ln   *Poly
	idx  []*Poly
}

func (s sliceI) elem(i *Poly) Loc {
	return Loc{s.o, s.path + "[]", append(append([]*Poly{}, s.idx...), add(s.off, i)), s.el}
}

func (s sliceI) poly() *Poly { return sliceP(s.o, s.path, s.el, s.off, s.ln, s.idx) }

// full reports whether the slice covers its whole backing sequence.
func (s sliceI) full() bool {
	if s.off != Zero {
		return false
	}
	if s.o.seq && s.path == "" {
		return s.o.lenBody != nil && instBody(s.o.lenBody, s.idx) == s.ln
	}
	return false
}

func (I *Interp) sliceInfo(a *Atom) sliceI {
	if a == nil {
		unsup("slice value")
	}
	if a.op == "slice" {
		p := a.pay.(*slicePay)
		idx := make([]*Poly, len(a.args)-2)
		for i := range idx {
			idx[i] = a.args[i+2].(*Poly)
		}
		return sliceI{p.obj, p.path, p.elem, a.args[0].(*Poly), a.args[1].(*Poly), idx}
	}
	if t, ok := a.pay.(types.Type); ok {
		if u, ok := t.Underlying().(*types.Slice); ok {
			// uninterpreted slice value: its own symbolic sequence, addressed by the
			// arguments of the application so that substitution stays exact
			var idx []*Poly
			name := a.name
			for _, x := range a.args {
				if p, ok := x.(*Poly); ok {
					idx = append(idx, p)
				} else {
					name += "|" + strconv.Itoa(x.nid())
				}
			}
			return I.sliceInfo(I.symSlice(name, u.Elem(), idx).single())
		}
	}
	unsup("slice value %s", short(a.String()))
	return sliceI{}
}

func (I *Interp) switchStmt(x *ast.SwitchStmt, label string) bool {
	if x.Init != nil && !I.stmt(x.Init) {
		return false
	}
	var tag *Poly
	if x.Tag != nil {
		v, ok := I.eval(x.Tag).(*Poly)
		if !ok {
			unsup("switch on composite")
		}
		tag = v
	}
	var clauses []*ast.CaseClause
	def := -1
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = len(clauses)
		}
		clauses = append(clauses, cc)
	}
	mark := len(I.fr.exits)
	pc0 := I.pc
	var run func(i int) bool
	body := func(i int) bool {
		for {
			list := clauses[i].Body
			ft := false
			if n := len(list); n > 0 {
				if b, ok := list[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
					list = list[:n-1]
					ft = true
				}
			}
			if !I.block(list) {
				return false
			}
			if !ft {
				return true
			}
			i++
		}
	}
	run = func(i int) bool {
		if i == len(clauses) {
			if def >= 0 {
				return body(def)
			}
			return true
		}
		if i == def {
			return run(i + 1)
		}
		c := Zero
		for _, e := range clauses[i].List {
			if tag != nil {
				c = or(c, eqp(tag, I.convertTo(I.eval(e), I.typeOf(e), I.typeOf(x.Tag)).(*Poly)))
			} else {
				c = or(c, I.cond(e))
			}
		}
		return I.fork(c, clauses[i].Pos(), func() bool { return body(i) }, func() bool { return run(i + 1) })
	}
	alive := run(0)
	return I.joinBreaks(mark, alive, label, pc0)
}

func (I *Interp) typeSwitch(x *ast.TypeSwitchStmt, label string) bool {
	if x.Init != nil && !I.stmt(x.Init) {
		return false
	}
	var subj ast.Expr
	var bind *ast.Ident
	switch a := x.Assign.(type) {
	case *ast.ExprStmt:
		subj = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		subj = a.Rhs[0].(*ast.TypeAssertExpr).X
		bind = a.Lhs[0].(*ast.Ident)
	}
	_ = bind
	v := I.eval(subj).(*Poly)
	mark := len(I.fr.exits)
	pc0 := I.pc
	var clauses []*ast.CaseClause
	def := -1
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = len(clauses)
		}
		clauses = append(clauses, cc)
	}
	body := func(i int, t types.Type) bool {
		if o := I.fr.pkg.Info.Implicits[clauses[i]]; o != nil {
			var vv Value = v
			if t != nil {
				vv, _ = I.assertType(v, t)
			}
			I.declare(o, vv, clauses[i].Pos())
		}
		return I.block(clauses[i].Body)
	}
	var run func(i int) bool
	run = func(i int) bool {
		if i == len(clauses) {
			if def >= 0 {
				return body(def, nil)
			}
			return true
		}
		if i == def {
			return run(i + 1)
		}
		c := Zero
		var t types.Type
		for _, e := range clauses[i].List {
			tv := I.fr.pkg.Info.Types[e]
			if tv.IsNil() {
				c = or(c, eqp(v, nilP()))
				continue
			}
			t = tv.Type
			_, ok := I.assertType(v, t)
			c = or(c, ok)
		}
		if len(clauses[i].List) != 1 {
			t = nil
		}
		return I.fork(c, clauses[i].Pos(), func() bool { return body(i, t) }, func() bool { return run(i + 1) })
	}
	alive := run(0)
	return I.joinBreaks(mark, alive, label, pc0)
}

// joinBreaks merges breaks recorded since mark that target this statement.
func (I *Interp) joinBreaks(mark int, alive bool, label string, pc0 *Poly) bool {
	var keep []Exit
	var brk []Exit
	for i, e := range I.fr.exits {
		if i >= mark && e.kind == xBrk && (e.label == "" || e.label == label) {
			brk = append(brk, e)
		} else {
			keep = append(keep, e)
		}
	}
	if len(brk) == 0 {
		return alive
	}
	I.fr.exits = keep
	return I.joinExits(brk, alive, pc0)
}

// joinExits merges jump states (in program order) with the fallthrough state.
func (I *Interp) joinExits(brk []Exit, alive bool, pc0 *Poly) bool {
	st := I.st
	all := brk
	if !alive {
		st = brk[len(brk)-1].st
		brk = brk[:len(brk)-1]
	}
	for j := len(brk) - 1; j >= 0; j-- {
		st = I.merge(brk[j].cond, brk[j].st, st)
	}
	I.st = st
	if I.soft > 0 {
		p := Zero
		if alive {
			p = I.pc
		}
		for _, e := range all {
			p = add(p, e.cond)
		}
		I.pc = p
		return true
	}
	I.pc = pc0
	return true
}
