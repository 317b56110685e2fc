package main

// Loading: the repository's packages are parsed and type-checked from the
// current source; dependencies are imported from compiler export data.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// srcPkgs are small packages outside the module that are interpreted from
// their sources.
var srcPkgs = map[string]bool{"gonum.org/v1/gonum/spatial/r3": true}

const modPath = "github.com/davidkleiven/gopf"

type Pkg struct {
	Path  string
	Dir   string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
	Spec  bool
}

type Prog struct {
	Fset    *token.FileSet
	Pkgs    map[string]*Pkg
	Order   []string
	Decls   map[*types.Func]*ast.FuncDecl
	PkgOf   map[*types.Func]*Pkg
	Repo    string
	sizes   types.Sizes
	imp     types.Importer
	nsrc    int
	specErr map[string]string
	newN    *newNames
}

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Imports    []string
	Standard   bool
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

func goEnv() []string {
	env := os.Environ()
	set := map[string]string{"GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod", "GOPROXY": "off", "CGO_ENABLED": "1",
		"GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build"}
	for k, v := range set {
		if (k == "GOPATH" || k == "GOCACHE" || k == "GOMODCACHE") && os.Getenv(k) != "" {
			continue
		}
		env = append(env, k+"="+v)
	}
	return env
}

type impT struct {
	p  *Prog
	gc types.Importer
}

func (i *impT) Import(path string) (*types.Package, error) {
	if q, ok := i.p.Pkgs[path]; ok && q.Types != nil {
		return q.Types, nil
	}
	return i.gc.Import(path)
}

// specFiles: package path -> list of (name, source) type-checked together with
// the package.
func loadProg(repo string, specs map[string]map[string]string) (*Prog, error) {
	cmd := exec.Command("go", "list", "-e", "-deps", "-export", "-json=ImportPath,Dir,GoFiles,CgoFiles,Export,Imports,Standard,Error", "./...")
	cmd.Dir = repo
	cmd.Env = goEnv()
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	p := &Prog{Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, Decls: map[*types.Func]*ast.FuncDecl{}, PkgOf: map[*types.Func]*Pkg{}, Repo: repo,
		specErr: map[string]string{}}
	exp := map[string]string{}
	var repoPk []*listPkg
	dec := json.NewDecoder(&out)
	for {
		var l listPkg
		if err := dec.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if l.ImportPath == modPath || strings.HasPrefix(l.ImportPath, modPath+"/") || srcPkgs[l.ImportPath] {
			if strings.Contains(l.ImportPath, "/examples/") {
				continue
			}
			repoPk = append(repoPk, &l)
			continue
		}
		exp[l.ImportPath] = l.Export
	}
	gc := importer.ForCompiler(p.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exp[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	im := &impT{p, gc}
	p.imp = im
	for _, l := range repoPk { // -deps lists dependencies first
		pk := &Pkg{Path: l.ImportPath, Dir: l.Dir}
		names := append([]string{}, l.GoFiles...)
		sort.Strings(names)
		for _, n := range names {
			fn := filepath.Join(l.Dir, n)
			f, err := parser.ParseFile(p.Fset, fn, nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			pk.Files = append(pk.Files, f)
			p.nsrc++
		}
		files := append([]*ast.File{}, pk.Files...)
		base := files
		for _, n := range sortedKeys(specs[l.ImportPath]) {
			src := specs[l.ImportPath][n]
			f, err := parser.ParseFile(p.Fset, n, src, parser.ParseComments)
			if err != nil {
				return nil, fmt.Errorf("spec %s: %v", n, err)
			}
			// a specification function that no longer type-checks against the
			// package is left out (and reported by the checks that need it)
			var try []*ast.File
			for round := 0; ; round++ {
				try = append(append([]*ast.File{}, files...), f)
				_, _, err := typeCheck(p, l.ImportPath, try)
				if err == nil {
					break
				}
				if !p.dropDecl(f, err) || round > 60 {
					p.specErr[n] = err.Error()
					try = files
					break
				}
			}
			files = try
		}
		if len(files) == len(base) {
			files = base
		}
		tp, info, err := typeCheck(p, l.ImportPath, files)
		if err != nil {
			return nil, fmt.Errorf("type check %s: %v", l.ImportPath, err)
		}
		pk.Files = files
		pk.Types = tp
		pk.Info = info
		p.Pkgs[l.ImportPath] = pk
		p.Order = append(p.Order, l.ImportPath)
		for _, f := range files {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o, ok := info.Defs[fd.Name].(*types.Func); ok {
						p.Decls[o] = fd
						p.PkgOf[o] = pk
					}
				}
			}
		}
	}
	return p, nil
}

// dropDecl removes the declaration of a specification file an error points at.
func (p *Prog) dropDecl(f *ast.File, err error) bool {
	te, ok := err.(types.Error)
	if !ok {
		return false
	}
	for i, d := range f.Decls {
		if d.Pos() <= te.Pos && te.Pos < d.End() {
			if fd, ok := d.(*ast.FuncDecl); ok {
				p.specErr[fd.Name.Name] = te.Msg
			} else if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				return false
			}
			f.Decls = append(append([]ast.Decl{}, f.Decls[:i]...), f.Decls[i+1:]...)
			return true
		}
	}
	return false
}

func sortedKeys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func typeCheck(p *Prog, path string, files []*ast.File) (*types.Package, *types.Info, error) {
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
	}
	var first error
	conf := types.Config{Importer: p.imp, GoVersion: "go1.13", Error: func(err error) {
		if te, ok := err.(types.Error); ok && te.Soft && strings.HasPrefix(p.Fset.Position(te.Pos).Filename, "/spec/") {
			return
		}
		if first == nil {
			first = err
		}
	}, FakeImportC: true}
	tp, err := conf.Check(path, p.Fset, files, info)
	_ = err
	if first != nil {
		return nil, nil, first
	}
	return tp, info, nil
}

// Func looks up a function or method: "pf.Build", "pf.Euler.Step".
func (p *Prog) Func(q string) *types.Func {
	parts := strings.Split(q, ".")
	pk := p.pkg(parts[0])
	if pk == nil {
		return nil
	}
	if len(parts) == 2 {
		f, _ := pk.Types.Scope().Lookup(parts[1]).(*types.Func)
		return f
	}
	t := pk.Types.Scope().Lookup(parts[1])
	if t == nil {
		return nil
	}
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t.Type()), true, pk.Types, parts[2])
	f, _ := o.(*types.Func)
	return f
}

func (p *Prog) Type(q string) types.Type {
	parts := strings.Split(q, ".")
	pk := p.pkg(parts[0])
	if pk == nil {
		return nil
	}
	t := pk.Types.Scope().Lookup(parts[1])
	if t == nil {
		return nil
	}
	return t.Type()
}

func (p *Prog) pkg(short string) *Pkg {
	if short == "main" {
		return p.Pkgs[modPath]
	}
	return p.Pkgs[modPath+"/"+short]
}

func (p *Prog) pos(x token.Pos) string {
	q := p.Fset.Position(x)
	f := q.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
