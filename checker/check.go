package main

// The check command: runs every obligation and every custom analysis of one
// property against the current source and writes the evidence file.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// An Analysis is a dataflow/typestate/effect analysis registered for a property.
type Analysis struct {
	Prop string
	Name string
	Rule string
	Run  func(p *Prog, tier string) []Result
}

var analyses []Analysis

func registerAnalysis(prop, name, rule string, f func(p *Prog, tier string) []Result) {
	analyses = append(analyses, Analysis{prop, name, rule, f})
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type known struct {
	prop, key, text string
}

// known findings: lines "finding: property=<id> key=<obligation> <text>";
// "fixed:" lines are a record only and suppress nothing.
func readKnown() []known {
	var r []known
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "finding:" {
			continue
		}
		k := known{prop: strings.TrimPrefix(f[1], "property="), key: strings.TrimPrefix(f[2], "key="), text: strings.Join(f[3:], " ")}
		r = append(r, k)
	}
	return r
}

func oneMain(args []string) {
	// gc one TIER KIND NAME
	p, err := loadProg(repoDir(), readSpecs())
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var out []Result
	if args[1] == "ob" {
		for _, ob := range obligations(p) {
			if ob.key() == args[2] {
				out = append(out, ob.run(p, args[0]))
			}
		}
	} else {
		for _, a := range analyses {
			if a.Prop+"/"+a.Name == args[2] {
				out = append(out, a.Run(p, args[0])...)
			}
		}
	}
	b, _ := json.Marshal(out)
	fmt.Println("JSON" + string(b))
}

func (ob *Oblig) key() string { return strings.TrimPrefix(ob.Pkg.Path, modPath+"/") + "." + ob.Name }

func checkMain(args []string) int {
	prop := args[0]
	tier := "quick"
	if len(args) > 1 {
		tier = args[1]
	}
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	p, err := loadProg(repoDir(), readSpecs())
	if err != nil {
		fmt.Println("cannot load the repository:", err)
		return 3
	}
	var jobs []job
	var results []Result
	for _, ob := range obligations(p) {
		if ob.Prop != prop {
			continue
		}
		if len(ob.Dir["thorough"]) > 0 && tier == "quick" {
			continue
		}
		if ob.Holds == nil && (ob.Impl == nil || ob.Spec == nil) {
			continue
		}
		jobs = append(jobs, job{"ob", ob.key()})
	}
	rules := []string{}
	for _, a := range analyses {
		if a.Prop == prop {
			jobs = append(jobs, job{"an", a.Prop + "/" + a.Name})
			rules = append(rules, a.Name+": "+a.Rule)
		}
	}
	for n, e := range p.specErr {
		// exported names the specification is written against are gone
		results = append(results, Result{Ob: n, Status: "undecided", Detail: "the specification no longer type-checks: " + e})
	}
	results = append(results, runJobs(jobs, tier)...)
	sort.SliceStable(results, func(i, j int) bool { return results[i].Ob < results[j].Ob })
	kn := readKnown()
	cnt := map[string]int{}
	analysed := map[string]bool{}
	leaves, samples := 0, 0
	var viol []Result
	for _, r := range results {
		leaves += r.Leaves
		samples += r.Samples
		for _, w := range r.Where {
			analysed[w] = true
		}
		st := r.Status
		if st == "violated" {
			listed := false
			for _, k := range kn {
				if k.prop == prop && k.key == r.Ob {
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, k.text, r.Ob)
					listed = true
					break
				}
			}
			if listed {
				st = "known finding"
			} else {
				viol = append(viol, r)
			}
		}
		cnt[st]++
		if os.Getenv("VERIF_VERBOSE") != "" || st == "violated" || st == "undecided" {
			fmt.Printf("%-9s %s %s\n", st, r.Ob, short2(r.Detail, 600))
		}
	}
	var fns []string
	for f := range analysed {
		fns = append(fns, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fns)
	decided := cnt["proved"] + cnt["agreed"]
	cov := map[string]interface{}{
		"explanation": fmt.Sprintf("%d obligations decided on the current source: %d by equal normal forms (or a completed dataflow argument), %d by agreement of value numbers under %d random interpretations; %d undecided. %d functions analysed.",
			len(results), cnt["proved"], cnt["agreed"], samples, cnt["undecided"], len(fns)),
		"obligations": len(results), "discharged": decided, "violated": len(viol), "undecided": cnt["undecided"],
		"value_pairs": leaves, "functions_analysed": fns, "source_files": p.nsrc, "rules": rules,
		"samples": results,
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": len(viol),
		"assumptions": []string{"real arithmetic (rounding ignored)", "indices in range; a fatal exit ends the path", "third-party libraries behave as modelled in DESIGN.md"}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	evf := filepath.Join(verifDir(), "evidence", prop+".json")
	if err := os.WriteFile(evf, append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 3
	}
	fmt.Printf("property %s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs)\n", prop, len(results), decided, cnt["undecided"], len(viol), time.Since(t0).Seconds())
	if len(viol) > 0 {
		rp := filepath.Join(verifDir(), "evidence", prop+".violation.json")
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		return 1
	}
	return 0
}

type job struct{ kind, name string }

var verboseJobs bool

// runJobs analyses every obligation in a process of its own.
func runJobs(jobs []job, tier string) (results []Result) {
	limit := 150 * time.Second
	if tier == "thorough" {
		limit = 300 * time.Second
	}
	self, _ := os.Executable()
	var mu sync.Mutex
	var wg sync.WaitGroup
	nw := runtime.NumCPU()
	if nw > 6 {
		nw = 6
	}
	sem := make(chan bool, nw)
	for _, j := range jobs {
		wg.Add(1)
		sem <- true
		go func(j job) {
			defer wg.Done()
			defer func() { <-sem }()
			ctx, cancel := context.WithTimeout(context.Background(), limit)
			defer cancel()
			c := exec.CommandContext(ctx, self, "one", tier, j.kind, j.name)
			c.Env = append(os.Environ(), "GOMEMLIMIT=4GiB", "GOMAXPROCS=2")
			var so, se bytes.Buffer
			c.Stdout, c.Stderr = &so, &se
			err := c.Run()
			var rs []Result
			ok := false
			for _, l := range strings.Split(so.String(), "\n") {
				if strings.HasPrefix(l, "JSON") {
					if json.Unmarshal([]byte(l[4:]), &rs) == nil {
						ok = true
					}
				}
			}
			if !ok {
				d := fmt.Sprint("analysis did not finish: ", err)
				if s := se.String(); s != "" {
					d += " " + short2(s, 300)
				}
				rs = []Result{{Ob: j.name, Status: "undecided", Detail: d}}
			}
			mu.Lock()
			results = append(results, rs...)
			if verboseJobs {
				for _, r := range rs {
					fmt.Printf("%-9s %-44s %6.2fs %3d  %s\n", r.Status, r.Ob, r.Wall, r.Leaves, short2(r.Detail, 700))
				}
			}
			mu.Unlock()
		}(j)
	}
	wg.Wait()
	return results
}
