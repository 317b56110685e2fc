package main

import (
	_ "embed"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

// Names of struct fields and package variables the specifications were
// written against. What a later version adds is storage of its own: it is not
// part of the behaviour a caller relies on, only what is computed from it is.
//
//go:embed known.txt
var knownDecls string

func isSpecPos(p *Prog, pos token.Pos) bool {
	return strings.HasPrefix(p.Fset.Position(pos).Filename, "/spec/")
}

// declaredNames lists "f NAME" and "v pkg.NAME" for the repository's sources.
func declaredNames(p *Prog) map[string]types.Object {
	r := map[string]types.Object{}
	for path, pk := range p.Pkgs {
		if path != modPath && !strings.HasPrefix(path, modPath+"/") || pk.Info == nil {
			continue
		}
		for id, o := range pk.Info.Defs {
			v, ok := o.(*types.Var)
			if !ok || isSpecPos(p, id.Pos()) {
				continue
			}
			switch {
			case v.IsField():
				r["f "+v.Name()] = v
			case v.Parent() == pk.Types.Scope():
				r["v "+pk.Types.Name()+"."+v.Name()] = v
			}
		}
	}
	return r
}

func namesMain(p *Prog) []string {
	var r []string
	for n := range declaredNames(p) {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

type newNames struct {
	fields map[string]bool // true: only ever assigned by methods of its type
	vars   map[string]*types.Var
}

func (p *Prog) added() *newNames {
	if p.newN != nil {
		return p.newN
	}
	known := map[string]bool{}
	for _, l := range strings.Split(knownDecls, "\n") {
		known[l] = true
	}
	n := &newNames{fields: map[string]bool{}, vars: map[string]*types.Var{}}
	for k, o := range declaredNames(p) {
		if known[k] || o.Name() == "_" {
			continue
		}
		if k[0] == 'f' {
			n.fields[o.Name()] = true
		} else {
			n.vars[k[2:]] = o.(*types.Var)
		}
	}
	for f := range n.fields {
		n.fields[f] = p.bornZero(f)
	}
	p.newN = n
	return n
}

// bornZero tells whether a field is zero until a method of its type assigns it.
func (p *Prog) bornZero(name string) bool {
	ok := true
	for path, pk := range p.Pkgs {
		if path != modPath && !strings.HasPrefix(path, modPath+"/") || pk.Info == nil {
			continue
		}
		for _, file := range pk.Files {
			if isSpecPos(p, file.Pos()) {
				continue
			}
			for _, d := range file.Decls {
				recv := ""
				if fd, is := d.(*ast.FuncDecl); is && fd.Recv != nil && len(fd.Recv.List) == 1 {
					recv = typeName(pk.Info.TypeOf(fd.Recv.List[0].Type))
				}
				ast.Inspect(d, func(x ast.Node) bool {
					switch x := x.(type) {
					case *ast.CompositeLit:
						t := pk.Info.TypeOf(x)
						st, is := t.Underlying().(*types.Struct)
						if !is || len(x.Elts) == 0 {
							return true
						}
						for _, e := range x.Elts {
							if kv, is := e.(*ast.KeyValueExpr); is {
								if id, is := kv.Key.(*ast.Ident); is && id.Name == name {
									ok = false
								}
								continue
							}
							for i := 0; i < st.NumFields(); i++ {
								if st.Field(i).Name() == name {
									ok = false
								}
							}
						}
					case *ast.AssignStmt:
						for _, l := range x.Lhs {
							if s, is := ast.Unparen(l).(*ast.SelectorExpr); is && s.Sel.Name == name && (recv == "" || typeName(pk.Info.TypeOf(s.X)) != recv) {
								ok = false
							}
						}
					case *ast.UnaryExpr:
						if s, is := ast.Unparen(x.X).(*ast.SelectorExpr); is && x.Op == token.AND && s.Sel.Name == name && recv == "" {
							ok = false
						}
					}
					return true
				})
			}
		}
	}
	return ok
}

func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t = q.Elem()
	}
	return t.String()
}

// anyZero tells whether some added field starts at zero.
func (n *newNames) anyZero() bool {
	for _, z := range n.fields {
		if z {
			return true
		}
	}
	return false
}

// zeroStorage tells whether a location lies in an added field that starts at zero.
func (p *Prog) zeroStorage(full string) bool {
	n := p.added()
	if !n.anyZero() {
		return false
	}
	z := false
	for _, m := range fieldRe.FindAllStringSubmatch(full, -1) {
		if b, ok := n.fields[m[1]]; ok {
			z = b
		}
	}
	return z
}

// mentionsAdded tells whether a value depends on what an added field or
// variable held at the start.
func (p *Prog) mentionsAdded(x Node, seen map[Node]bool) string {
	n := p.added()
	if len(n.fields) == 0 && len(n.vars) == 0 || seen[x] {
		return ""
	}
	seen[x] = true
	switch x := x.(type) {
	case *Poly:
		for _, t := range x.t {
			for _, f := range t.m.f {
				if f.a.op == "app" {
					if _, rest, ok := strings.Cut(f.a.name, ":"); ok && p.addedStorage(rest) {
						return f.a.name
					}
				}
				for _, y := range f.a.args {
					if s := p.mentionsAdded(y, seen); s != "" {
						return s
					}
				}
			}
		}
	case *Lam:
		return p.mentionsAdded(x.body, seen)
	case *Tup:
		for _, y := range x.x {
			if s := p.mentionsAdded(y, seen); s != "" {
				return s
			}
		}
	}
	return ""
}

var fieldRe = regexp.MustCompile(`\.([A-Za-z_][A-Za-z0-9_]*)`)

// addedStorage tells whether a location lies in a field or variable that the
// specifications do not know.
func (p *Prog) addedStorage(full string) bool {
	n := p.added()
	if strings.HasPrefix(full, "global.") {
		rest := strings.TrimPrefix(full, "global.")
		for v := range n.vars {
			if rest == v || strings.HasPrefix(rest, v) && !isIdent(rest[len(v)]) {
				return true
			}
		}
	}
	if len(n.fields) == 0 {
		return false
	}
	for _, m := range fieldRe.FindAllStringSubmatch(full, -1) {
		if _, ok := n.fields[m[1]]; ok {
			return true
		}
	}
	return false
}

func isIdent(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// initAdded gives the added package variables their initial values: the
// obligations start with the program.
func (I *Interp) initAdded() {
	vars := I.prog.added().vars
	if len(vars) == 0 {
		return
	}
	var names []string
	for n := range vars {
		names = append(names, n)
	}
	sort.Strings(names)
	saved := I.fr
	defer func() { I.fr = saved }()
	for _, pk := range I.prog.Pkgs {
		if pk.Info == nil || pk.Types == nil {
			continue
		}
		I.fr = &Frame{name: "init", pkg: pk, env: map[types.Object]*Poly{}, esc: map[types.Object]bool{}, body: &ast.BlockStmt{},
			sig: types.NewSignatureType(nil, nil, nil, nil, nil, false)}
		for _, n := range names {
			if v := vars[n]; v.Pkg() == pk.Types {
				if !hasInit(pk, v) {
					I.storeL(I.ptrLvals(I.varRef(v)), I.zeroValue(v.Type()))
				}
			}
		}
		for _, in := range pk.Info.InitOrder {
			if len(in.Lhs) != 1 || vars[pk.Types.Name()+"."+in.Lhs[0].Name()] != in.Lhs[0] {
				continue
			}
			I.initVar(in)
		}
	}
}

func hasInit(pk *Pkg, v *types.Var) bool {
	for _, in := range pk.Info.InitOrder {
		for _, l := range in.Lhs {
			if l == v {
				return true
			}
		}
	}
	return false
}

// initVar leaves a variable whose initializer is not modelled symbolic.
func (I *Interp) initVar(in *types.Initializer) {
	st, pc, fr := I.st.clone(), I.pc, I.fr
	defer func() {
		if r := recover(); r != nil {
			I.st, I.pc, I.fr = st, pc, fr
		}
	}()
	v := I.convertTo(I.eval(in.Rhs), I.typeOf(in.Rhs), in.Lhs[0].Type())
	I.storeL(I.ptrLvals(I.varRef(in.Lhs[0])), v)
}
