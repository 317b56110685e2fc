package main

// Abstract memory: objects with (possibly symbolic) index parameters.  An
// object allocated inside a loop is a family indexed by the loop iteration; a
// slice element is addressed by its index.  Each scalar leaf of an object has
// a content: a value number over the index parameters %0, %1, ...

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type Obj struct {
	id      int
	name    string
	typ     types.Type // root type (element type for sequences)
	alloc   bool       // created by analysed code (distinct from every other object)
	symb    bool       // initial contents symbolic (otherwise zero)
	seq     bool       // backing store of a slice; elements at path "[]"
	nidx    int        // number of leading index parameters
	lenBody *Poly      // length of the sequence over the leading params
	local   bool       // non-escaping variable: dropped when its loop iteration ends
	site    string
	initFn  func(path string, typ types.Type, nparam int) Value // override of symbolic initial leaf
}

type refPay struct {
	obj      *Obj
	path     string
	typ      types.Type
	maybeNil bool
}

type slicePay struct {
	obj  *Obj
	path string
	elem types.Type
}

type boxPay struct{ typ types.Type }

type closPay struct {
	lit  *ast.FuncLit
	fd   *ast.FuncDecl
	vars []types.Object
	pkg  *Pkg
	site string
}

type boundPay struct {
	fn   *types.Func
	recv types.Type
}

func rebuildPay(pay interface{}, old, n []Node) interface{} { return pay }

// Value: *Poly, *StructV, *ArrV
type Value interface{}

type StructV struct {
	typ types.Type
	f   []Value
}

type ArrV struct {
	typ    types.Type
	leaves map[string]*Content // path below the array ("[]..."), arity = extra indices
}

type Content struct {
	arity int
	body  *Poly
	over  map[string]ovE
}

type ovE struct {
	idx []int64
	v   *Poly
}

func param(i int) *Atom {
	a := sym("%"+strconv.Itoa(i), KInt)
	a.rank = 3 + i
	return a
}

func paramP(i int) *Poly { return atomP(param(i)) }

func constIdx(idx []*Poly) ([]int64, string, bool) {
	r := make([]int64, len(idx))
	var sb strings.Builder
	for i, p := range idx {
		c, ok := p.intConst()
		if !ok {
			return nil, "", false
		}
		r[i] = c
		sb.WriteString(strconv.FormatInt(c, 10))
		sb.WriteByte(',')
	}
	return r, sb.String(), true
}

func instBody(body *Poly, idx []*Poly) *Poly {
	m := map[*Atom]*Poly{}
	for i, e := range idx {
		m[param(i)] = e
	}
	return substP(body, m)
}

func (c *Content) get(idx []*Poly) *Poly {
	if c.arity == 0 {
		return c.body
	}
	if len(c.over) > 0 {
		if _, k, ok := constIdx(idx); ok {
			if e, ok := c.over[k]; ok {
				return e.v
			}
			return instBody(c.body, idx)
		}
		// single-dimension lookup without flattening everything when indices differ
		r := instBody(c.body, idx)
		for _, k := range sortedOv(c.over) {
			e := c.over[k]
			cond := One
			for i := range idx {
				cond = and(cond, eqp(idx[i], constP(e.idx[i])))
				if cond == Zero {
					break
				}
			}
			r = ite(cond, e.v, r)
		}
		return r
	}
	return instBody(c.body, idx)
}

func sortedOv(m map[string]ovE) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := m[ks[i]].idx, m[ks[j]].idx
		for x := range a {
			if a[x] != b[x] {
				return a[x] < b[x]
			}
		}
		return false
	})
	return ks
}

func (c *Content) flat() *Poly {
	if len(c.over) == 0 {
		return c.body
	}
	idx := make([]*Poly, c.arity)
	for i := range idx {
		idx[i] = paramP(i)
	}
	return c.get(idx)
}

func (c *Content) set(idx []*Poly, v *Poly) *Content {
	if c.arity == 0 {
		return &Content{0, v, nil}
	}
	if ci, k, ok := constIdx(idx); ok {
		n := &Content{c.arity, c.body, make(map[string]ovE, len(c.over)+1)}
		for kk, e := range c.over {
			n.over[kk] = e
		}
		n.over[k] = ovE{ci, v}
		return n
	}
	cond := One
	for i := range idx {
		cond = and(cond, eqp(paramP(i), idx[i]))
	}
	return &Content{c.arity, ite(cond, v, c.flat()), nil}
}

func (c *Content) same(d *Content) bool {
	if c == d {
		return true
	}
	if c.body == d.body && len(c.over) == len(d.over) {
		eq := true
		for k, e := range c.over {
			if x, ok := d.over[k]; !ok || x.v != e.v {
				eq = false
				break
			}
		}
		if eq {
			return true
		}
	}
	if len(c.over) == 0 && len(d.over) == 0 {
		return false
	}
	return c.flat() == d.flat()
}

func iteContent(c *Poly, a, b *Content) *Content {
	if a.same(b) {
		return a
	}
	r := &Content{arity: a.arity, body: ite(c, a.body, b.body)}
	if len(a.over) > 0 || len(b.over) > 0 {
		r.over = map[string]ovE{}
		for _, s := range []*Content{a, b} {
			for k, e := range s.over {
				if _, done := r.over[k]; done {
					continue
				}
				idx := make([]*Poly, len(e.idx))
				for i := range idx {
					idx[i] = constP(e.idx[i])
				}
				r.over[k] = ovE{e.idx, ite(c, a.get(idx), b.get(idx))}
			}
		}
	}
	return r
}

type contKey struct {
	o    *Obj
	path string
}

type State struct {
	mem map[contKey]*Content
}

func (s *State) clone() *State {
	n := &State{mem: make(map[contKey]*Content, len(s.mem))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return n
}

// leaf type by path is needed to create default contents; keep a registry.
var leafType = map[contKey]types.Type{}

func (I *Interp) content(st *State, o *Obj, path string, typ types.Type) *Content {
	k := contKey{o, path}
	if c, ok := st.mem[k]; ok {
		return c
	}
	if _, ok := leafType[k]; !ok {
		leafType[k] = typ
	}
	return I.defaultContent(o, path, leafType[k])
}

func pathArity(o *Obj, path string) int {
	return o.nidx + strings.Count(path, "[]") + strings.Count(path, "{}") + strings.Count(path, "{?}") + 2*strings.Count(path, "#d")
}

func (I *Interp) defaultContent(o *Obj, path string, typ types.Type) *Content {
	k := contKey{o, path}
	if c, ok := I.defaults[k]; ok {
		return c
	}
	ar := pathArity(o, path)
	idx := make([]*Poly, ar)
	for i := range idx {
		idx[i] = paramP(i)
	}
	var body *Poly
	if o.symb {
		body = I.symLeaf(o, path, typ, idx)
	} else {
		body = I.zeroLeaf(o, path, typ, idx)
	}
	c := &Content{arity: ar, body: body}
	I.defaults[k] = c
	return c
}

func nilP() *Poly { return atomP(rawAtom("nil", "", KOther)) }

func (I *Interp) newObjRaw(name string, typ types.Type) *Obj {
	I.objCount++
	return &Obj{id: I.objCount, name: name, typ: typ}
}

func (I *Interp) zeroLeaf(o *Obj, path string, typ types.Type, idx []*Poly) *Poly {
	if strings.HasSuffix(path, "{?}") {
		return Zero
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strP("")
		}
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			return nilP()
		}
		return Zero
	case *types.Slice:
		// nil slice: empty sequence with its own (future) backing store
		k := fmt.Sprintf("nil:%d%s", o.id, path)
		b := I.seqObj(k, u.Elem(), len(idx), false)
		b.alloc = true
		b.lenBody = nil
		return sliceP(b, "", u.Elem(), Zero, Zero, idx)
	}
	return nilP()
}

func (I *Interp) seqObj(key string, elem types.Type, nidx int, symb bool) *Obj {
	if o, ok := I.objTab[key]; ok {
		return o
	}
	o := I.newObjRaw(key, elem)
	o.seq = true
	o.nidx = nidx
	o.symb = symb
	I.objTab[key] = o
	return o
}

func polyNodes(p []*Poly) []Node {
	r := make([]Node, len(p))
	for i := range p {
		r[i] = p[i]
	}
	return r
}

func refP(o *Obj, path string, typ types.Type, idx []*Poly, maybeNil bool) *Poly {
	nm := strconv.Itoa(o.id) + path
	if maybeNil {
		nm += "?"
	}
	mk := func(n []Node) *Poly {
		a := rawAtom("ref", nm, KOther, n...)
		if a.pay == nil {
			a.pay = &refPay{o, path, typ, maybeNil}
		}
		return atomP(a)
	}
	return lifted(polyNodes(idx), mk)
}

func sliceP(o *Obj, path string, elem types.Type, off, ln *Poly, idx []*Poly) *Poly {
	args := append([]Node{off, ln}, polyNodes(idx)...)
	return lifted(args, func(n []Node) *Poly {
		a := rawAtom("slice", strconv.Itoa(o.id)+path, KOther, n...)
		if a.pay == nil {
			a.pay = &slicePay{o, path, elem}
		}
		return atomP(a)
	})
}

func basicKind(t types.Type) (Kind, bool) {
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		return KOther, false
	}
	i := u.Info()
	switch {
	case i&types.IsBoolean != 0:
		return KBool, false
	case i&types.IsInteger != 0:
		return KInt, i&types.IsUnsigned != 0
	case i&types.IsFloat != 0:
		return KReal, false
	case i&types.IsComplex != 0:
		return KCplx, false
	}
	return KOther, false
}

// symLeaf is the symbolic initial value of a leaf.
func (I *Interp) symLeaf(o *Obj, path string, typ types.Type, idx []*Poly) *Poly {
	if o.initFn != nil {
		if v := o.initFn(path, typ, len(idx)); v != nil {
			return v.(*Poly)
		}
	}
	full := o.name + path
	if I.cfg.leaf != nil {
		if p := I.cfg.leaf(full, typ, idx); p != nil {
			return p
		}
	}
	if I.zeroAdded && I.prog.zeroStorage(full) {
		if strings.HasSuffix(path, "{?}") {
			return Zero
		}
		return I.symValueLeaf(full, typ, idx)
	}
	if strings.HasSuffix(path, "{?}") {
		return appK("has:"+strings.TrimSuffix(full, "{?}"), KBool, polyNodes(idx)...)
	}
	return I.symValueLeaf(full, typ, idx)
}

func (I *Interp) symValueLeaf(full string, typ types.Type, idx []*Poly) *Poly {
	if I.zeroAdded && I.prog.zeroStorage(full) {
		if _, ok := typ.Underlying().(*types.Map); !ok {
			if u, ok := typ.Underlying().(*types.Slice); ok {
				b := I.seqObj("nil:"+full, u.Elem(), len(idx), false)
				b.alloc = true
				return sliceP(b, "", u.Elem(), Zero, Zero, idx)
			}
			return I.zeroLeaf(nil, "", typ, idx)
		}
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		k, uns := basicKind(typ)
		if k == KCplx && I.cfg.realFields {
			k = KReal
		}
		if I.cfg.nonneg != nil && I.cfg.nonneg(full) {
			uns = true
		}
		return appKP("in:"+full, k, nil, uns, polyNodes(idx)...)
	case *types.Pointer:
		o := I.symObj(full+"*", u.Elem(), len(idx))
		return refP(o, "", u.Elem(), idx, true)
	case *types.Slice:
		return I.symSlice(full, u.Elem(), idx)
	case *types.Map:
		o := I.symObj(full+"*", typ, len(idx))
		return refP(o, "", typ, idx, true)
	}
	p := appK("in:"+full, KOther, polyNodes(idx)...)
	if a := p.single(); a != nil && a.pay == nil {
		a.pay = typ
	}
	return p
}

func (I *Interp) symSlice(full string, elem types.Type, idx []*Poly) *Poly {
	key := "seq:" + full
	o, ok := I.objTab[key]
	if !ok {
		o = I.seqObj(key, elem, len(idx), true)
		o.name = full
		ps := make([]*Poly, len(idx))
		for i := range ps {
			ps[i] = paramP(i)
		}
		o.lenBody = I.lenOf(full, ps)
	}
	return sliceP(o, "", elem, Zero, instBody(o.lenBody, idx), idx)
}

func (I *Interp) lenOf(full string, idx []*Poly) *Poly {
	if I.cfg.lenOf != nil {
		if p := I.cfg.lenOf(full, idx); p != nil {
			return p
		}
	}
	return appKP("len:"+full, KInt, nil, true, polyNodes(idx)...)
}

func (I *Interp) symObj(full string, typ types.Type, nidx int) *Obj {
	key := "obj:" + full
	if o, ok := I.objTab[key]; ok {
		return o
	}
	o := I.newObjRaw(full, typ)
	o.symb = true
	o.nidx = nidx
	I.objTab[key] = o
	return o
}

// ---------------------------------------------------------------- typed load/store

type Loc struct {
	o    *Obj
	path string
	idx  []*Poly
	typ  types.Type
}

func (I *Interp) load(st *State, l Loc) Value {
	if isDense(l.typ) {
		return &DenseV{I, l}
	}
	switch u := l.typ.Underlying().(type) {
	case *types.Struct:
		s := &StructV{typ: l.typ}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			s.f = append(s.f, I.load(st, Loc{l.o, l.path + "." + f.Name(), l.idx, f.Type()}))
		}
		return s
	case *types.Array:
		a := &ArrV{typ: l.typ, leaves: map[string]*Content{}}
		I.eachLeaf(u.Elem(), "[]", func(sub string, t types.Type) {
			c := I.content(st, l.o, l.path+sub, t)
			a.leaves[sub] = partial(c, l.idx)
		})
		return a
	}
	return I.content(st, l.o, l.path, l.typ).get(l.idx)
}

// partial fixes the leading indices of a content.
func partial(c *Content, idx []*Poly) *Content {
	n := c.arity - len(idx)
	r := &Content{arity: n}
	full := append([]*Poly{}, idx...)
	for i := 0; i < n; i++ {
		full = append(full, paramP(i))
	}
	if ci, _, ok := constIdx(idx); ok || len(idx) == 0 {
		r.body = substShift(c.body, full)
		for _, k := range sortedOv(c.over) {
			e := c.over[k]
			match := true
			for i := range ci {
				if e.idx[i] != ci[i] {
					match = false
				}
			}
			if match {
				if r.over == nil {
					r.over = map[string]ovE{}
				}
				rest := e.idx[len(idx):]
				ps := make([]*Poly, len(rest))
				for i := range rest {
					ps[i] = constP(rest[i])
				}
				_, kk, _ := constIdx(ps)
				r.over[kk] = ovE{rest, e.v}
			}
		}
		return r
	}
	r.body = substShift(c.flat(), full)
	return r
}

// substShift substitutes params simultaneously.
func substShift(body *Poly, full []*Poly) *Poly { return instBody(body, full) }

func (I *Interp) eachLeaf(t types.Type, path string, f func(string, types.Type)) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isDense(t) {
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			I.eachLeaf(u.Field(i).Type(), path+"."+u.Field(i).Name(), f)
		}
		return
	case *types.Array:
		I.eachLeaf(u.Elem(), path+"[]", f)
		return
	}
	f(path, t)
}

func (I *Interp) store(st *State, l Loc, v Value) {
	switch x := v.(type) {
	case *StructV:
		u, ok := l.typ.Underlying().(*types.Struct)
		if !ok || len(x.f) != u.NumFields() {
			unsup("store of struct into %v", l.typ)
		}
		for i := range x.f {
			f := u.Field(i)
			I.store(st, Loc{l.o, l.path + "." + f.Name(), l.idx, f.Type()}, x.f[i])
		}
	case *ArrV:
		for sub, c := range x.leaves {
			t := leafTypeOf(l.typ, sub)
			old := I.content(st, l.o, l.path+sub, t)
			st.mem[contKey{l.o, l.path + sub}] = mergePartial(old, l.idx, c)
		}
	case *DenseV:
		I.storeDense(st, l, x)
	case *Poly:
		k := contKey{l.o, l.path}
		st.mem[k] = I.content(st, l.o, l.path, l.typ).set(l.idx, x)
	default:
		unsup("store of %T", v)
	}
}

func leafTypeOf(t types.Type, sub string) types.Type {
	for sub != "" {
		switch {
		case strings.HasPrefix(sub, "[]"):
			t = t.Underlying().(*types.Array).Elem()
			sub = sub[2:]
		case sub[0] == '.':
			s := t.Underlying().(*types.Struct)
			rest := sub[1:]
			end := strings.IndexAny(rest, ".[{")
			nm := rest
			if end >= 0 {
				nm = rest[:end]
				sub = rest[end:]
			} else {
				sub = ""
			}
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == nm {
					t = s.Field(i).Type()
					break
				}
			}
		default:
			return t
		}
	}
	return t
}

// mergePartial writes sub-content c at leading indices idx of old.
func mergePartial(old *Content, idx []*Poly, c *Content) *Content {
	if len(idx) == 0 {
		return c
	}
	cond := One
	for i := range idx {
		cond = and(cond, eqp(paramP(i), idx[i]))
	}
	shift := make([]*Poly, c.arity)
	for i := range shift {
		shift[i] = paramP(i + len(idx))
	}
	return &Content{arity: old.arity, body: ite(cond, instBody(c.flat(), shift), old.flat())}
}

// ---------------------------------------------------------------- value helpers

func (I *Interp) zeroValue(t types.Type) Value {
	if isDense(t) {
		return &DenseV{I, Loc{I.newObjRaw("zerodense", t), "", nil, t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, I.zeroValue(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &ArrV{typ: t, leaves: map[string]*Content{}}
		I.eachLeaf(u.Elem(), "[]", func(sub string, lt types.Type) {
			n := strings.Count(sub, "[]")
			a.leaves[sub] = &Content{arity: n, body: I.zeroScalar(lt)}
		})
		return a
	}
	return I.zeroScalar(t)
}

func (I *Interp) zeroScalar(t types.Type) *Poly {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strP("")
		}
		if u.Kind() == types.UntypedNil {
			return nilP()
		}
		return Zero
	case *types.Slice:
		I.nilCount++
		b := I.seqObj(fmt.Sprintf("nilv:%s:%d", I.siteKey(0), I.nilCount), u.Elem(), 0, false)
		b.alloc = true
		return sliceP(b, "", u.Elem(), Zero, Zero, nil)
	}
	return nilP()
}

func iteValue(c *Poly, a, b Value) Value {
	if c == One {
		return a
	}
	if c == Zero {
		return b
	}
	switch x := a.(type) {
	case *Poly:
		y, ok := b.(*Poly)
		if !ok {
			unsup("merge of %T and %T", a, b)
		}
		return ite(c, x, y)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			unsup("merge of structs")
		}
		r := &StructV{typ: x.typ}
		for i := range x.f {
			r.f = append(r.f, iteValue(c, x.f[i], y.f[i]))
		}
		return r
	case *ArrV:
		y := b.(*ArrV)
		r := &ArrV{typ: x.typ, leaves: map[string]*Content{}}
		for k, v := range x.leaves {
			r.leaves[k] = iteContent(c, v, y.leaves[k])
		}
		return r
	case *DenseV:
		if y, ok := b.(*DenseV); ok && x.l.o == y.l.o {
			return a
		}
		unsup("merge of matrices")
	}
	unsup("merge of %T", a)
	return nil
}

// linear combination Σ cond_i * v_i (conditions form a partition)
func combine(cs []*Poly, vs []Value) Value {
	if len(vs) == 1 && cs[0] == One {
		return vs[0]
	}
	switch vs[0].(type) {
	case *Poly:
		r := Zero
		for i := range vs {
			r = add(r, mul2(cs[i], vs[i].(*Poly)))
		}
		return r
	case *StructV:
		n := len(vs[0].(*StructV).f)
		r := &StructV{typ: vs[0].(*StructV).typ}
		for j := 0; j < n; j++ {
			col := make([]Value, len(vs))
			for i := range vs {
				col[i] = vs[i].(*StructV).f[j]
			}
			r.f = append(r.f, combine(cs, col))
		}
		return r
	}
	unsup("conditional combination of %T", vs[0])
	return nil
}

type caseE struct {
	cond *Poly
	a    *Atom // nil for a constant part
	rest *Poly
}

// cases splits a non-numeric value into (condition, atom) pairs.
func cases(p *Poly) []caseE {
	m := map[*Atom]*Poly{}
	var order []*Atom
	for _, t := range p.t {
		var at *Atom
		var bf []Factor
		for _, f := range t.m.f {
			if f.a.kind == KBool {
				bf = append(bf, f)
			} else if at == nil && f.e == 1 {
				at = f.a
			} else {
				unsup("pointer-like value %s", short(p.String()))
			}
		}
		c := internPoly([]Term{{t.c, internMono(bf)}})
		if _, ok := m[at]; !ok {
			m[at] = Zero
			order = append(order, at)
		}
		m[at] = add(m[at], c)
	}
	var r []caseE
	for _, a := range order {
		if m[a] != Zero {
			r = append(r, caseE{cond: m[a], a: a})
		}
	}
	return r
}

// flatten lists the scalar leaves of a value.
func flatten(v Value) []Node {
	switch x := v.(type) {
	case *Poly:
		return []Node{x}
	case *StructV:
		var r []Node
		for _, f := range x.f {
			r = append(r, flatten(f)...)
		}
		return r
	case *ArrV:
		var ks []string
		for k := range x.leaves {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var r []Node
		for _, k := range ks {
			r = append(r, contentLam(x.leaves[k]))
		}
		return r
	case *DenseV:
		return []Node{refP(x.l.o, x.l.path, x.l.typ, x.l.idx, false)}
	case nil:
		return nil
	}
	unsup("flatten %T", v)
	return nil
}

// contentLam closes a content over its parameters.
func contentLam(c *Content) Node {
	var n Node = c.flat()
	for i := c.arity - 1; i >= 0; i-- {
		n = mkLam(param(i), n)
	}
	return n
}

func (I *Interp) unflatten(t types.Type, args []Node) (Value, []Node) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isDense(t) {
			break
		}
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			var v Value
			v, args = I.unflatten(u.Field(i).Type(), args)
			s.f = append(s.f, v)
		}
		return s, args
	case *types.Array:
		a := &ArrV{typ: t, leaves: map[string]*Content{}}
		var ks []string
		lt := map[string]types.Type{}
		I.eachLeaf(u.Elem(), "[]", func(sub string, t types.Type) { ks = append(ks, sub); lt[sub] = t })
		sort.Strings(ks)
		for _, k := range ks {
			n := strings.Count(k, "[]")
			var b Node = args[0]
			args = args[1:]
			for i := 0; i < n; i++ {
				b = b.(*Lam).open(paramP(i))
			}
			a.leaves[k] = &Content{arity: n, body: b.(*Poly)}
		}
		return a, args
	}
	return args[0].(*Poly), args[1:]
}

// symbolic value of a type rooted at a name
func (I *Interp) symValue(full string, t types.Type, idx []*Poly) Value {
	if isDense(t) {
		o := I.symObj(full, t, len(idx))
		return &DenseV{I, Loc{o, "", idx, t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, I.symValue(full+"."+u.Field(i).Name(), u.Field(i).Type(), idx))
		}
		return s
	case *types.Array:
		o := I.symObj(full, t, len(idx))
		return I.load(&State{mem: map[contKey]*Content{}}, Loc{o, "", idx, t})
	case *types.Tuple:
		unsup("tuple")
	}
	if I.cfg.leaf != nil {
		if p := I.cfg.leaf(full, t, idx); p != nil {
			return p
		}
	}
	return I.symValueLeaf(full, t, idx)
}
