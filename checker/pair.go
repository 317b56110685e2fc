package main

// Obligations stated as Go: a driver X_impl exercises the repository through
// its exported API, X_spec computes the documented result directly.  Both are
// type-checked inside the package they talk about and analysed (never run) with
// the same symbolic arguments; their results have to be equal for all inputs.
// X_holds is a predicate that has to be true for all inputs.

import (
	"embed"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

//go:embed specs
var specFS embed.FS

type Oblig struct {
	More  []string
	Name  string
	Prop  string
	File  string
	Pkg   *Pkg
	Impl  *types.Func
	Spec  *types.Func
	Holds *types.Func
	Dir   map[string][]string
	Doc   string

	zeroAdded bool
}

type Result struct {
	Ob      string   `json:"obligation"`
	Status  string   `json:"status"` // proved, agreed, violated, undecided
	Detail  string   `json:"detail,omitempty"`
	Where   []string `json:"analysed,omitempty"`
	Leaves  int      `json:"value_pairs"`
	Wall    float64  `json:"wall_s"`
	Anchor  string   `json:"anchor,omitempty"`
	Samples int      `json:"interpretations,omitempty"`
}

func readSpecs() map[string]map[string]string {
	r := map[string]map[string]string{}
	ents, err := specFS.ReadDir("specs")
	if err != nil {
		return r
	}
	base := ""
	if b, err := specFS.ReadFile("specs/base.txt"); err == nil {
		base = string(b)
	}
	var add func(n string, b []byte)
	add = func(n string, b []byte) {
		if strings.HasPrefix(n, "all_") { // one copy per package named in the first line
			l := strings.SplitN(string(b), "\n", 2)
			for _, pk := range strings.Fields(strings.TrimPrefix(l[0], "//verif:packages")) {
				add(pk+"_"+n[len("all_"):], []byte(strings.Replace(l[1], "package ghost", "package "+pk, 1)))
			}
			return
		}
		pk := n[:strings.IndexAny(n, "_.")]
		path := modPath + "/" + pk
		if r[path] == nil {
			r[path] = map[string]string{"/spec/" + pk + "_00base.go": "package " + pk + "\n" + base}
		}
		r[path]["/spec/"+strings.TrimSuffix(n, ".txt")] = string(b)
	}
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go.txt") {
			continue
		}
		b, _ := specFS.ReadFile("specs/" + n)
		add(n, b)
	}
	if d := os.Getenv("GC_EXTRA"); d != "" { // self tests of the engine
		fs, _ := os.ReadDir(d)
		for _, e := range fs {
			b, _ := os.ReadFile(d + "/" + e.Name())
			add(e.Name(), b)
		}
	}
	return r
}

// directiveGroups: functions named …Models carry directives for "use".
func directiveGroups(p *Prog) map[string]map[string][]string {
	r := map[string]map[string][]string{}
	for _, path := range p.Order {
		pk := p.Pkgs[path]
		for _, f := range pk.Files {
			if !strings.HasPrefix(p.Fset.Position(f.Pos()).Filename, "/spec/") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || !strings.HasSuffix(fd.Name.Name, "Models") || fd.Doc == nil {
					continue
				}
				m := map[string][]string{}
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//verif:") {
						if f := strings.Fields(c.Text[len("//verif:"):]); len(f) > 0 {
							m[f[0]] = append(m[f[0]], strings.Join(f[1:], " "))
						}
					}
				}
				r[pk.Path+"."+fd.Name.Name] = m
			}
		}
	}
	return r
}

func obligations(p *Prog) []*Oblig {
	var r []*Oblig
	byName := map[string]*Oblig{}
	groups := directiveGroups(p)
	for _, path := range p.Order {
		pk := p.Pkgs[path]
		for _, f := range pk.Files {
			fn := p.Fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(fn, "/spec/") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				nm := fd.Name.Name
				i := strings.LastIndexByte(nm, '_')
				if i < 0 {
					continue
				}
				o, _ := pk.Info.Defs[fd.Name].(*types.Func)
				suf := nm[i+1:]
				if suf != "impl" && suf != "spec" && suf != "holds" {
					continue
				}
				key := pk.Path + "." + nm[:i]
				ob := byName[key]
				if ob == nil {
					ob = &Oblig{Name: nm[:i], Pkg: pk, Dir: map[string][]string{}, File: fn}
					byName[key] = ob
					r = append(r, ob)
				}
				switch suf {
				case "impl":
					ob.Impl = o
				case "spec":
					ob.Spec = o
				case "holds":
					ob.Holds = o
				}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if strings.HasPrefix(c.Text, "//verif:") {
							f := strings.Fields(c.Text[len("//verif:"):])
							if len(f) == 0 {
								continue
							}
							if f[0] == "prop" {
								ob.Prop = f[1]
								ob.More = f[2:]
							} else if f[0] == "use" {
								for _, g := range f[1:] {
									for k, v := range groups[pk.Path+"."+g] {
										ob.Dir[k] = append(ob.Dir[k], v...)
									}
								}
							} else {
								ob.Dir[f[0]] = append(ob.Dir[f[0]], strings.Join(f[1:], " "))
							}
						} else {
							ob.Doc += strings.TrimPrefix(c.Text, "// ") + " "
						}
					}
				}
			}
		}
	}
	// "prop A B": one obligation per property
	for _, ob := range r {
		for _, m := range ob.More {
			o := *ob
			o.Prop, o.More = m, nil
			r = append(r, &o)
		}
	}
	// "dim 2 3": one obligation per dimension
	var q []*Oblig
	for _, ob := range r {
		ds := strings.Fields(strings.Join(ob.Dir["dim"], " "))
		if len(ds) < 2 {
			q = append(q, ob)
			continue
		}
		for _, d := range ds {
			o := *ob
			o.Dir = map[string][]string{}
			for k, v := range ob.Dir {
				o.Dir[k] = v
			}
			o.Dir["dim"] = []string{d}
			o.Name = ob.Name + "." + d + "d"
			q = append(q, &o)
		}
	}
	return q
}

func (ob *Oblig) cfg(I *Interp) *Cfg {
	c := &Cfg{intr: map[string]Intrinsic{}, pureIface: true}
	type pat struct {
		pat string
		p   *Poly
	}
	var lens []pat
	for _, l := range ob.Dir["len"] {
		kv := strings.SplitN(l, "=", 2)
		var e *Poly
		v := strings.TrimSpace(kv[1])
		e = One
		for _, f := range strings.Split(v, "*") {
			var n int64
			if _, err := fmt.Sscanf(f, "%d", &n); err == nil {
				e = mul2(e, constP(n))
			} else {
				a := symN(strings.TrimSpace(f), KInt)
				a.lo = One
				e = mul2(e, atomP(a))
			}
		}
		lens = append(lens, pat{strings.TrimSpace(kv[0]), e})
	}
	if len(lens) > 0 {
		c.lenOf = func(full string, idx []*Poly) *Poly {
			for _, l := range lens {
				if globMatch(l.pat, full) {
					return l.p
				}
			}
			return nil
		}
	}
	for _, d := range ob.Dir["dim"] {
		var n int64
		fmt.Sscanf(d, "%d", &n)
		c.dim = constP(n)
	}
	if nn := ob.Dir["nonneg"]; len(nn) > 0 {
		var ps []string
		for _, x := range nn {
			ps = append(ps, strings.Fields(x)...)
		}
		c.nonneg = func(full string) bool {
			for _, p := range ps {
				if globMatch(p, full) {
					return true
				}
			}
			return false
		}
	}
	if _, ok := ob.Dir["real"]; ok {
		c.realFields = true
	}
	if u := ob.Dir["unroll"]; len(u) > 0 {
		c.maxUnroll, _ = strconv.Atoi(strings.TrimSpace(u[0]))
	}
	if _, ok := ob.Dir["freshret"]; ok {
		c.freshRet = true
	}
	if ro, ok := ob.Dir["readsout"]; ok {
		ps := strings.Fields(strings.Join(ro, " "))
		c.opaqueReadsOut = func(n string) bool {
			for _, p := range ps {
				if globMatch(p, n) {
					return true
				}
			}
			return len(ps) == 0
		}
	}
	if _, ok := ob.Dir["realbrick"]; ok {
		c.intr["("+modPath+"/pf.Brick).Get"] = func(c *Call) []Value {
			return []Value{appK("brickget", KReal, c.recv.(*Poly), c.p(0))}
		}
	}
	if op := ob.Dir["opaque"]; len(op) > 0 {
		var ps []string
		for _, x := range op {
			ps = append(ps, strings.Fields(x)...)
		}
		c.opaque = func(fn *types.Func) bool {
			n := plainName(fn)
			for _, p := range ps {
				if globMatch(p, n) {
					return true
				}
			}
			return false
		}
		c.opaquePure = true
	}
	if ns := strings.Fields(strings.Join(ob.Dir["nosnap"], " ")); len(ns) > 0 {
		c.noSnap = func(fn *types.Func) bool {
			n := plainName(fn)
			for _, p := range ns {
				if globMatch(p, n) {
					return true
				}
			}
			return false
		}
	}
	if ms := ob.Dir["model"]; len(ms) > 0 {
		type mp struct {
			pat string
			fn  *types.Func
		}
		var l []mp
		for _, m := range ms {
			kv := strings.SplitN(m, "=", 2)
			g, _ := ob.Pkg.Types.Scope().Lookup(strings.TrimSpace(kv[1])).(*types.Func)
			if g != nil {
				l = append(l, mp{strings.TrimSpace(kv[0]), g})
			}
		}
		c.model = func(fn *types.Func) *types.Func {
			n := plainName(fn)
			for _, m := range l {
				if globMatch(m.pat, n) {
					return m.fn
				}
			}
			return nil
		}
	}
	if rd := ob.Dir["readonly"]; len(rd) > 0 {
		ps := strings.Fields(strings.Join(rd, " "))
		c.readOnly = func(n string) bool {
			for _, p := range ps {
				if globMatch(p, n) {
					return true
				}
			}
			return false
		}
	}
	if _, ok := ob.Dir["concretefft"]; ok {
		c.noModel = func(n string) bool { return strings.HasPrefix(n, "(*"+modPath+"/pfutil.FFTWWrapper).") }
	}
	verifIntr(c.intr)
	return c
}

// plainName is package.Type.Method or package.Function.
func plainName(fn *types.Func) string {
	return strings.NewReplacer("(*", "", "(", "", ")", "").Replace(shortName(fn))
}

// globMatch: '?' is not special, '*' is literal in access paths; '…' is a wildcard.
func globMatch(pat, s string) bool {
	parts := strings.Split(pat, "…")
	if len(parts) == 1 {
		return pat == s
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for _, p := range parts[1 : len(parts)-1] {
		i := strings.Index(s, p)
		if i < 0 {
			return false
		}
		s = s[i+len(p):]
	}
	return strings.HasSuffix(s, parts[len(parts)-1])
}

func verifIntr(m map[string]Intrinsic) {
	for _, pk := range []string{"pf", "pfutil", "pfc", "elasticity", "cmd"} {
		b := modPath + "/" + pk + "."
		sqlIntr(m, b)
		m[b+"verifInit"] = func(c *Call) []Value {
			c.I.initPkg(c.I.fr.pkg, c.pos)
			return nil
		}
		m[b+"verifTry"] = func(c *Call) []Value {
			I := c.I
			f := c.args[0].(*Poly)
			return []Value{I.try(func() { I.callValue(nil, f, types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, c.pos) })}
		}
		m[b+"verifAssume"] = func(c *Call) []Value {
			I := c.I
			I.assume = and(I.assume, or(not(I.fullPC()), c.p(0)))
			return nil
		}
		lbl := func(c *Call) string {
			s, ok := c.p(0).strConst()
			if !ok {
				unsup("label")
			}
			return s
		}
		m[b+"verifIndex"] = func(c *Call) []Value {
			n := c.p(1)
			a := sym(fmt.Sprintf("%s<%d", lbl(c), n.id), KInt)
			a.nonneg, a.lo, a.hi, a.rank = true, Zero, sub(n, One), 2
			return []Value{atomP(a)}
		}
		m[b+"verifNat"] = func(c *Call) []Value {
			a := symN(lbl(c), KInt)
			a.lo = Zero
			return []Value{atomP(a)}
		}
		m[b+"verifPos"] = func(c *Call) []Value {
			a := symN(lbl(c), KInt)
			a.lo = One
			return []Value{atomP(a)}
		}
		m[b+"verifD"] = func(c *Call) []Value { return []Value{deriv(c.p(0), c.p(1))} }
		m[b+"verifReal2"] = func(c *Call) []Value { return []Value{appK("any:"+lbl(c), KReal, c.p(1))} }
		m[b+"verifCmplx2"] = func(c *Call) []Value { return []Value{appK("any:"+lbl(c), KCplx, c.p(1))} }
		m[b+"verifInt2"] = func(c *Call) []Value { return []Value{appK("any:"+lbl(c), KInt, c.p(1))} }
		m[b+"verifInt"] = func(c *Call) []Value { return []Value{atomP(sym(lbl(c), KInt))} }
		m[b+"verifCmplx"] = func(c *Call) []Value { return []Value{atomP(sym(lbl(c), KCplx))} }
		m[b+"verifReal"] = func(c *Call) []Value { return []Value{atomP(sym(lbl(c), KReal))} }
	}
}

// walkLams closes the state reachable through an access path: "Fields[].Data[]".
func (I *Interp) walkLams(v Value, t types.Type, path string) Node {
	if path == "" {
		if p, ok := v.(*Poly); ok {
			return p
		}
		return mkTup(flatten(v)...)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return I.walkLams(I.loadPtr(v.(*Poly)), u.Elem(), path)
	case *types.Struct:
		if path[0] != '.' {
			unsup("path %s", path)
		}
		rest := path[1:]
		e := strings.IndexAny(rest, ".[")
		nm := rest
		if e >= 0 {
			nm, rest = rest[:e], rest[e:]
		} else {
			rest = ""
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == nm {
				return I.walkLams(v.(*StructV).f[i], u.Field(i).Type(), rest)
			}
		}
		unsup("no field %s", nm)
	case *types.Slice:
		n := I.lenOfValue(v.(*Poly))
		w := openVar(n)
		defer closeVar()
		e := I.loadL(I.elemLvals(v.(*Poly), atomP(w)))
		return mkLamN(w, n, I.walkLams(e, u.Elem(), strings.TrimPrefix(path, "[]")))
	}
	unsup("path %s at %v", path, t)
	return nil
}

type capture struct {
	vals []Value
	st   *State
	dead bool
	ev   []*Ev
}

// run decides an obligation.  When functions kept opaque make the two sides
// differ, the difference is confirmed under weaker assumptions about them.
func (ob *Oblig) run(p *Prog, tier string) Result {
	res, calls := ob.run1(p, tier)
	if res.Status == "undecided" && p.added().anyZero() && strings.Contains(res.Detail, addedMark) {
		// not so whatever an added field holds: begin with it at zero, the
		// sequences of calls show what its methods leave in it
		o := *ob
		o.zeroAdded = true
		if r, c := o.run1(p, tier); r.Status != "undecided" {
			res, calls = r, c
			ob = &o
		}
	}
	if res.Status != "violated" || len(ob.Dir["opaque"]) == 0 {
		return res
	}
	_, fr := ob.Dir["freshret"]
	o := *ob
	o.Dir = map[string][]string{}
	for k, v := range ob.Dir {
		o.Dir[k] = v
	}
	again := func(what string) bool {
		r, c := o.run1(p, tier)
		calls = c
		if r.Status == "violated" {
			res = r
			return true
		}
		r.Detail = "differs while " + what + ", then: " + r.Detail
		r.Ob = res.Ob
		res = r
		return false
	}
	if !fr {
		o.Dir["freshret"] = []string{""}
		if !again("opaque results are shared") {
			return res
		}
	}
	// the code no longer calls what the obligation keeps opaque: expand it
	if !calls {
		delete(o.Dir, "opaque")
		delete(o.Dir, "freshret")
		again("helpers are opaque")
	}
	return res
}

func (ob *Oblig) run1(p *Prog, tier string) (res Result, calls bool) {
	t0 := time.Now()
	res.Ob = ob.key()
	limit := 120 * time.Second
	if tier == "thorough" {
		limit = 240 * time.Second
	}
	workDeadline = time.Now().Add(limit)
	I := newInterp(p, nil)
	I.assume = One
	I.zeroAdded = ob.zeroAdded
	defer I.done()
	defer func() {
		res.Wall = time.Since(t0).Seconds()
		for f := range I.nfun {
			if !strings.Contains(f, "_impl") && !strings.Contains(f, "_spec") && !strings.Contains(f, "_holds") {
				res.Where = append(res.Where, f)
			}
		}
		sort.Strings(res.Where)
	}()
	defer func() {
		if r := recover(); r != nil {
			res.Status = "undecided"
			switch x := r.(type) {
			case unsupErr:
				res.Detail = x.msg
			case tooBig:
				res.Detail = "size limit: " + x.what
			case deadEnd:
				res.Detail = "no path reaches the end"
			default:
				res.Detail = fmt.Sprint("internal: ", r)
				if os.Getenv("GCDEBUG") != "" {
					debug.PrintStack()
				}
			}
		}
	}()
	I.cfg = ob.cfg(I)
	main := ob.Impl
	if ob.Holds != nil {
		main = ob.Holds
	}
	I.initAdded()
	sig := main.Type().(*types.Signature)
	var args []Value
	for i := 0; i < sig.Params().Len(); i++ {
		args = append(args, I.symValue(fmt.Sprintf("a%d", i), sig.Params().At(i).Type(), nil))
	}
	if sn := ob.Dir["snapshot"]; len(sn) > 0 {
		var paths []string
		for _, s := range sn {
			paths = append(paths, strings.Fields(s)...)
		}
		busy := false
		I.cfg.snapshot = func(I *Interp) []Node {
			if busy {
				return nil
			}
			busy = true
			defer func() { busy = false }()
			var r []Node
			for _, s := range paths {
				var n int
				fmt.Sscanf(s, "a%d", &n)
				rest := s[2:]
				r = append(r, I.walkLams(args[n], sig.Params().At(n).Type(), rest))
			}
			return r
		}
	}
	st0 := I.st
	exec := func(fn *types.Func) (c capture) {
		I.opq = map[string]bool{}
		I.st = st0.clone()
		I.pc = One
		I.loops = nil
		var ev []*Ev
		I.ev = &ev
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(deadEnd); ok {
					if os.Getenv("GCDEBUG") != "" {
						debug.PrintStack()
					}
					c.dead = true
					c.ev = ev
					I.fr = nil
					return
				}
				panic(r)
			}
		}()
		vals := I.callDecl(fn, nil, args, fn.Pos())
		return capture{vals: vals, st: I.st, ev: ev}
	}
	cmp := &comparer{I: I, ob: ob}
	if ob.Holds != nil {
		c := exec(ob.Holds)
		if c.dead {
			unsup("predicate never returns")
		}
		for i, v := range c.vals {
			cmp.scalar(fmt.Sprintf("result %d", i), v.(*Poly), One)
		}
	} else {
		ci := exec(ob.Impl)
		hi := I.opq
		cs := exec(ob.Spec)
		calls = len(hi) == len(I.opq)
		for f := range hi {
			calls = calls && I.opq[f]
		}
		if ci.dead != cs.dead && !I.zeroAdded && len(p.added().fields) > 0 {
			unsup("%s a field: one side always terminates the program", addedMark)
		}
		if ci.dead != cs.dead {
			res.Status = "violated"
			res.Detail = "one side always terminates the program"
			return
		}
		if !ci.dead {
			rs := ob.Impl.Type().(*types.Signature).Results()
			for i := range ci.vals {
				cmp.value(resName(rs, i), rs.At(i).Type(), ci.vals[i], ci.st, cs.vals[i], cs.st, 0)
			}
			if _, ok := ob.Dir["state"]; ok {
				cmp.state(ci.st, cs.st)
			}
		}
	}
	res.Leaves = cmp.n
	res.Samples = cmp.samples
	switch {
	case len(cmp.bad) > 0 && I.taint != "":
		res.Status = "undecided"
		res.Detail = "not modelled: " + I.taint + "; " + strings.Join(cmp.bad, "; ")
	case len(cmp.bad) > 0:
		res.Status = "violated"
		res.Detail = strings.Join(cmp.bad, "; ")
	case len(cmp.unk) > 0:
		res.Status = "undecided"
		res.Detail = strings.Join(cmp.unk, "; ")
	case cmp.n == 0:
		res.Status = "undecided"
		res.Detail = "nothing compared"
	case cmp.agreed > 0:
		res.Status = "agreed"
		res.Detail = fmt.Sprintf("%d of %d value pairs by random interpretation", cmp.agreed, cmp.n)
	default:
		res.Status = "proved"
	}
	return
}

func resName(t *types.Tuple, i int) string {
	if n := t.At(i).Name(); n != "" {
		return n
	}
	return fmt.Sprintf("result%d", i)
}

const addedMark = "depends on what the program keeps in"

type comparer struct {
	I       *Interp
	ob      *Oblig
	n       int
	agreed  int
	samples int
	bad     []string
	unk     []string
	pre     []*Poly
}

func (c *comparer) scalar(what string, a, b *Poly) {
	c.n++
	if len(c.bad) > 0 {
		return
	}
	pre := c.I.assume
	for _, p := range c.pre {
		pre = and(pre, p)
	}
	if os.Getenv("GCDUMP") != "" {
		fmt.Printf("-- %s %s\n   impl %s\n   spec %s\n   pre %s\n", c.ob.Name, what, a, b, pre)
	}
	d := decide(a, b, pre, nil)
	c.samples += d.samples
	if d.v == vDiffer || d.v == vAgree {
		// the sampler draws the keys of a map independently of its contents
		seen := map[Node]bool{}
		if mentions(a, "mapkey", seen) || mentions(b, "mapkey", seen) {
			d.v = vUnknown
			d.witness = "depends on the order of the keys of a map; " + d.witness
		}
	}
	if d.v == vDiffer || d.v == vAgree {
		if n := c.I.prog.mentionsAdded(a, map[Node]bool{}); n != "" && d.v == vDiffer {
			d.v = vUnknown
			d.witness = addedMark + " " + n
		}
		if n := onlyIn(a, b); n != "" {
			d.v = vUnknown
			d.witness = "depends on the unmodelled " + n
		}
	}
	switch d.v {
	case vEqual:
	case vAgree:
		c.agreed++
	case vDiffer:
		c.bad = append(c.bad, fmt.Sprintf("%s: computed %s, required %s (witness: %s)", what, short2(a.String(), 200), short2(b.String(), 200), d.witness))
	case vUnknown:
		c.unk = append(c.unk, fmt.Sprintf("%s: %s", what, d.witness))
	}
}

func short2(s string, n int) string {
	r := []rune(s)
	if len(r) > n {
		return string(r[:n]) + "…"
	}
	return s
}

func (c *comparer) with(st *State, f func() Value) Value {
	sv := c.I.st
	c.I.st = st
	defer func() { c.I.st = sv }()
	return f()
}

var errorType = types.Universe.Lookup("error").Type()

func (c *comparer) value(what string, t types.Type, a Value, sa *State, b Value, sb *State, depth int) {
	I := c.I
	if depth > 8 {
		return
	}
	if isDense(t) || isDensePtr(t) {
		ra, ca, fa := c.dense(a, sa)
		rb, cb, fb := c.dense(b, sb)
		c.scalar(what+" rows", ra, rb)
		c.scalar(what+" columns", ca, cb)
		w := openVar(rb)
		v := openVar(cb)
		x := c.with(sa, func() Value { return fa(atomP(w), atomP(v)) }).(*Poly)
		y := c.with(sb, func() Value { return fb(atomP(w), atomP(v)) }).(*Poly)
		c.scalar(what+"[i,j]", x, y)
		closeVar()
		closeVar()
		return
	}
	if types.Identical(t, errorType) {
		c.scalar(what+"==nil", eqp(a.(*Poly), nilP()), eqp(b.(*Poly), nilP()))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		x, y := a.(*StructV), b.(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			if _, ok := I.prog.added().fields[u.Field(i).Name()]; ok {
				continue
			}
			c.value(what+"."+u.Field(i).Name(), u.Field(i).Type(), x.f[i], sa, y.f[i], sb, depth+1)
		}
	case *types.Pointer:
		x := c.with(sa, func() Value { return I.loadPtr(a.(*Poly)) })
		y := c.with(sb, func() Value { return I.loadPtr(b.(*Poly)) })
		c.value("*"+what, u.Elem(), x, sa, y, sb, depth+1)
	case *types.Slice:
		la, lb := I.lenOfValue(a.(*Poly)), I.lenOfValue(b.(*Poly))
		c.scalar("len("+what+")", la, lb)
		if n, ok := lb.intConst(); ok && n <= 128 {
			for i := int64(0); i < n; i++ {
				x := c.with(sa, func() Value { return I.loadL(I.elemLvals(a.(*Poly), constP(i))) })
				y := c.with(sb, func() Value { return I.loadL(I.elemLvals(b.(*Poly), constP(i))) })
				c.value(fmt.Sprintf("%s[%d]", what, i), u.Elem(), x, sa, y, sb, depth+1)
			}
			return
		}
		w := openVar(lb)
		x := c.with(sa, func() Value { return I.loadL(I.elemLvals(a.(*Poly), atomP(w))) })
		y := c.with(sb, func() Value { return I.loadL(I.elemLvals(b.(*Poly), atomP(w))) })
		c.value(what+"[i]", u.Elem(), x, sa, y, sb, depth+1)
		closeVar()
	case *types.Array:
		x, y := a.(*ArrV), b.(*ArrV)
		for _, k := range sortedLeaves(x) {
			xc, yc := x.leaves[k], y.leaves[k]
			var idx []*Poly
			n := u.Len()
			for i := 0; i < xc.arity; i++ {
				idx = append(idx, atomP(openVar(constP(n))))
			}
			c.scalar(what+k, xc.get(idx), yc.get(idx))
			for range idx {
				closeVar()
			}
		}
	case *types.Basic:
		c.scalar(what, a.(*Poly), b.(*Poly))
	case *types.Interface:
		xa, ya := a.(*Poly).single(), b.(*Poly).single()
		if xa != nil && ya != nil && xa.op == "box" && ya.op == "box" {
			ta, tb := xa.pay.(*boxPay).typ, ya.pay.(*boxPay).typ
			if !types.Identical(ta, tb) {
				c.n++
				c.bad = append(c.bad, fmt.Sprintf("%s: dynamic type %v, required %v", what, ta, tb))
				return
			}
			x, _ := I.unflatten(ta, xa.args)
			y, _ := I.unflatten(tb, ya.args)
			c.value(what, ta, x, sa, y, sb, depth+1)
			return
		}
		c.scalar(what, a.(*Poly), b.(*Poly))
	case *types.Signature:
		c.scalar(what, a.(*Poly), b.(*Poly))
	default:
		unsup("comparison of %v", t)
	}
}

func sortedLeaves(x *ArrV) []string {
	var r []string
	for k := range x.leaves {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func isDensePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isDense(p.Elem())
}

func (c *comparer) dense(v Value, st *State) (*Poly, *Poly, func(i, j *Poly) Value) {
	sv := c.I.st
	c.I.st = st
	defer func() { c.I.st = sv }()
	l := c.I.denseLoc(v)
	r, cc, at := c.I.denseAt(l)
	return r, cc, func(i, j *Poly) Value { return at(i, j) }
}

// state compares everything reachable by the caller.
func (c *comparer) state(sa, sb *State) {
	keys := map[contKey]bool{}
	for k := range sa.mem {
		keys[k] = true
	}
	for k := range sb.mem {
		keys[k] = true
	}
	var ks []contKey
	skip := strings.Fields(strings.Join(c.ob.Dir["nostate"], " "))
outer:
	for k := range keys {
		if !k.o.symb || k.o.initFn != nil {
			continue
		}
		if c.I.prog.addedStorage(k.o.name + k.path) {
			continue
		}
		for _, s := range skip {
			if globMatch(s, k.o.name+k.path) {
				continue outer
			}
		}
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].o.name != ks[j].o.name {
			return ks[i].o.name < ks[j].o.name
		}
		return ks[i].path < ks[j].path
	})
	for _, k := range ks {
		t := leafType[k]
		a := c.I.content(sa, k.o, k.path, t)
		b := c.I.content(sb, k.o, k.path, t)
		if a.same(b) {
			c.n++
			continue
		}
		var idx []*Poly
		cl := 0
		for i := 0; i < a.arity; i++ {
			if i == k.o.nidx && k.o.seq && k.o.lenBody != nil {
				idx = append(idx, atomP(openVar(instBody(k.o.lenBody, idx))))
				cl++
				continue
			}
			x := sym(fmt.Sprintf("ι%d", i), KInt)
			x.nonneg = true
			x.lo = Zero
			idx = append(idx, atomP(x))
		}
		c.scalar("caller-visible "+k.o.name+k.path, a.get(idx), b.get(idx))
		for ; cl > 0; cl-- {
			closeVar()
		}
	}
}
