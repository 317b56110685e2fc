package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

// runSym analyses a function with symbolic receiver and parameters.
func (I *Interp) runSym(fn *types.Func, over map[string]Value) (res []Value) {
	sig := fn.Type().(*types.Signature)
	var recv Value
	if r := sig.Recv(); r != nil {
		nm := r.Name()
		if nm == "" {
			nm = "recv"
		}
		nm = "recv"
		if v, ok := over[nm]; ok {
			recv = v
		} else {
			recv = I.symValue(nm, r.Type(), nil)
		}
	}
	var args []Value
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		nm := fmt.Sprintf("a%d", i)
		if v, ok := over[nm]; ok {
			args = append(args, v)
			continue
		}
		args = append(args, I.symValue(nm, p.Type(), nil))
	}
	return I.callDecl(fn, recv, args, 0)
}

func dumpVal(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *Poly:
		return x.String()
	case *StructV:
		s := "{"
		for _, f := range x.f {
			s += dumpVal(f) + "; "
		}
		return s + "}"
	case *ArrV:
		return "arr"
	}
	return fmt.Sprintf("%T", v)
}

func repoDir() string {
	if d := os.Getenv("GOPF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func survey(p *Prog) {
	var fns []*types.Func
	for f, d := range p.Decls {
		if d.Body != nil {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].FullName() < fns[j].FullName() })
	for _, fn := range fns {
		func() {
			t0 := time.Now()
			msg := "ok"
			defer func() {
				fmt.Printf("%-9s %-80s %s\n", time.Since(t0).Round(time.Millisecond), strings.ReplaceAll(fn.FullName(), modPath+"/", ""), msg)
			}()
			I := newInterp(p, &Cfg{})
			defer I.done()
			defer func() {
				if r := recover(); r != nil {
					msg = fmt.Sprintf("%T %v", r, r)
				}
			}()
			I.runSym(fn, nil)
		}()
	}
}

func main() {
	if f := os.Getenv("GCPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "one":
		oneMain(os.Args[2:])
		return
	}
	if os.Args[1] == "try" {
		p, err := loadProg(repoDir(), readSpecs())
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for n, e := range p.specErr {
			fmt.Println("SPEC", n, e)
		}
		verboseJobs = true
		var jobs []job
		sel := func(prop, name, key string) bool {
			ok := len(os.Args) == 2
			for _, a := range os.Args[2:] {
				if a == prop || strings.HasPrefix(name, a) || strings.HasPrefix(key, a) {
					ok = true
				}
			}
			return ok
		}
		for _, ob := range obligations(p) {
			if sel(ob.Prop, ob.Name, ob.key()) {
				jobs = append(jobs, job{"ob", ob.key()})
			}
		}
		for _, a := range analyses {
			if sel(a.Prop, a.Name, a.Name) {
				jobs = append(jobs, job{"an", a.Prop + "/" + a.Name})
			}
		}
		if os.Getenv("GCDUMP") != "" || os.Getenv("GCDEBUG") != "" {
			for _, ob := range obligations(p) {
				if sel(ob.Prop, ob.Name, ob.key()) {
					r := ob.run(p, "quick")
					fmt.Printf("%-9s %-4s %-36s %6.2fs %3d  %s\n", r.Status, ob.Prop, r.Ob, r.Wall, r.Leaves, r.Detail)
				}
			}
			return
		}
		runJobs(jobs, "quick")
		return
	}
	if os.Args[1] == "names" {
		p, err := loadProg(repoDir(), nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, n := range namesMain(p) {
			fmt.Println(n)
		}
		return
	}
	if os.Args[1] == "survey" {
		p, err := loadProg("/repo", nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		survey(p)
		return
	}
	if os.Args[1] == "dump" {
		p, err := loadProg("/repo", nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, nm := range os.Args[2:] {
			fmt.Println("==", nm)
			fn := p.Func(nm)
			if fn == nil {
				fmt.Println("not found")
				continue
			}
			func() {
				I := newInterp(p, &Cfg{})
				defer I.done()
				defer func() {
					if r := recover(); r != nil {
						if u, ok := r.(unsupErr); ok {
							fmt.Println("UNSUP:", u.msg)
							return
						}
						if _, ok := r.(deadEnd); ok {
							fmt.Println("DEAD")
							return
						}
						panic(r)
					}
				}()
				res := I.runSym(fn, nil)
				for i, v := range res {
					fmt.Println(" ret", i, dumpVal(v))
				}
				var ks []string
				for k, c := range I.st.mem {
					if k.o.local {
						continue
					}
					ks = append(ks, k.o.name+" "+k.path+" := "+c.flat().String())
				}
				sort.Strings(ks)
				for _, s := range ks {
					fmt.Println("  ", short(s))
				}
			}()
		}
	}
}
