package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// The check driver: verifies every contract a property rests on and writes the
// property's evidence.

type failedObl struct {
	Unit       string `json:"unit"`
	Obligation string `json:"obligation"`
	Kind       string `json:"kind"`
	Position   string `json:"position"`
	Paths      int    `json:"failing_paths"`
	Path       string `json:"first_failing_path,omitempty"`
}

type runner struct {
	p    *Program
	sp   *Specs
	pool *SolverPool
	jobs int
	mult float64
	tag  string
}

// bad counts the failed obligations that matter to a property.
func (u *UnitResult) bad(prop string) int {
	n := 0
	if u.Err != "" {
		n = 1000
	}
	for _, o := range u.Obls {
		if !o.OK && (len(o.Props) == 0 || o.Props[prop]) {
			n++
		}
	}
	return n
}

// runUnits verifies the given contracts and, transitively, the contracts their
// proofs rely on.
func (r *runner) runUnits(start []string, closure bool) (res map[string]*UnitResult, missing []string) {
	res = map[string]*UnitResult{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, r.jobs)
	seen := map[string]bool{}
	var add func(n string)
	add = func(n string) {
		mu.Lock()
		if seen[n] {
			mu.Unlock()
			return
		}
		seen[n] = true
		id := len(seen)
		mu.Unlock()
		c := r.sp.con[n]
		if c == nil || c.Trusted || c.NoVerify || c.Inline {
			return
		}
		if len(c.Impls) > 0 {
			for _, im := range c.Impls {
				add(im)
			}
			return
		}
		fn := r.p.byName[n]
		if fn == nil && c.Lemma == nil {
			mu.Lock()
			missing = append(missing, n)
			mu.Unlock()
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			b := 180 * time.Second
			if c.Budget > 0 {
				b = time.Duration(c.Budget) * time.Second
			}
			b = time.Duration(float64(b) * r.mult)
			u := verifyUnit(r.p, r.sp, r.pool, c, fn, fmt.Sprintf("u%s%d", r.tag, id), b)
			<-sem
			mu.Lock()
			res[n] = u
			mu.Unlock()
			if closure {
				for _, d := range u.Used {
					add(d)
				}
			}
		}()
	}
	for _, n := range start {
		add(n)
	}
	wg.Wait()
	sort.Strings(missing)
	return
}

// exportedName reports whether a contract target is API (its absence means the
// contract no longer fits the code) rather than a private helper.
func exportedName(n string) bool {
	i := strings.LastIndexByte(n, '.')
	s := n[i+1:]
	return s != "" && unicode.IsUpper(rune(s[0])) && !strings.Contains(s, "$")
}

type knownFinding struct{ property, match, text string }

func loadKnown(path, prop string) (out []knownFinding) {
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=<id> obligation="<unit>: <obligation>" <what fails>
		l = strings.TrimPrefix(l, "finding: ")
		if !strings.HasPrefix(l, "property="+prop+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "property="+prop+" ")
		if !strings.HasPrefix(l, "obligation=") {
			continue
		}
		q, err := strconv.QuotedPrefix(strings.TrimPrefix(l, "obligation="))
		if err != nil {
			continue
		}
		m, _ := strconv.Unquote(q)
		out = append(out, knownFinding{prop, m, strings.TrimSpace(strings.TrimPrefix(l, "obligation="+q))})
	}
	return
}

func checkMain(repo, verif, prop, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	onlyProp = prop
	initStrAxioms()
	initModelAxioms()
	overlay, err := driverOverlay(repo, verif)
	if err != nil {
		fmt.Println("ERROR driver:", err)
		return 2
	}
	p, err := loadProgram(repo, overlay)
	if err != nil {
		fmt.Println("ERROR the repository does not load:", err)
		return 2
	}
	sp, err := loadSpecs(p, filepath.Join(verif, "contracts"))
	var failed []failedObl
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), prop)
	ev := map[string]interface{}{}
	cov := map[string]interface{}{}
	assumptions := map[string]bool{}
	trusted := map[string]bool{}
	nObl, nOK := 0, 0
	if err != nil {
		// the contracts mention code that is gone: they no longer apply
		failed = append(failed, failedObl{Unit: "contracts", Obligation: "contracts fit the code: " + err.Error(), Kind: "contract"})
	} else {
		jobs := runtime.NumCPU()
		pool := newPool(jobs)
		r := &runner{p: p, sp: sp, pool: pool, jobs: jobs, mult: 1}
		if tier == "thorough" {
			r.mult = 3
		}
		var start []string
		for _, n := range sp.order {
			if sp.con[n].allProps()[prop] {
				start = append(start, n)
			}
		}
		res, missing := r.runUnits(start, true)
		// Solvers are heuristic: a unit that failed is tried again with other
		// seeds and longer limits before its failure is reported.
		for attempt := 1; attempt <= 2; attempt++ {
			bad := map[string]bool{}
			for n, u := range res {
				if u.bad(prop) > 0 {
					bad[n] = true
				}
			}
			if len(bad) == 0 || len(bad) > 6 || time.Since(t0) > 300*time.Second {
				break
			}
			timeScale, z3Seed = attempt+1, 7+attempt*31
			var again []string
			for n := range bad {
				again = append(again, n)
			}
			sort.Strings(again)
			r2 := &runner{p: p, sp: sp, pool: pool, jobs: jobs, mult: r.mult * (1 + 0.5*float64(attempt)), tag: fmt.Sprintf("r%d", attempt)}
			res2, _ := r2.runUnits(again, false)
			for n, u := range res2 {
				if u.bad(prop) < res[n].bad(prop) {
					res[n] = u
				}
			}
		}
		timeScale, z3Seed = 1, 7
		pool.Close()
		isStart := map[string]bool{}
		for _, n := range start {
			isStart[n] = true
		}
		for _, n := range missing {
			if exportedName(n) || !isStart[n] {
				failed = append(failed, failedObl{Unit: n, Obligation: "the function under contract exists", Kind: "contract"})
			}
		}
		var names []string
		for n := range res {
			names = append(names, n)
		}
		sort.Strings(names)
		backends := map[string]int{}
		var solverMS int64
		var fnList []map[string]interface{}
		elsewhere := map[string]bool{}
		for _, n := range names {
			u := res[n]
			uo, uk := 0, 0
			agg := map[string]*failedObl{}
			var order []string
			for _, o := range u.Obls {
				if o.Props != nil && len(o.Props) > 0 && !o.Props[prop] {
					if !isStart[n] || true {
						for q := range o.Props {
							elsewhere[o.Name+" (checked under "+q+")"] = true
						}
						continue
					}
				}
				uo++
				solverMS += o.MS
				if o.OK {
					uk++
					if o.Backend != "" {
						backends[o.Backend]++
					}
					continue
				}
				key := o.Kind + o.Name + o.Pos
				if agg[key] == nil {
					agg[key] = &failedObl{Unit: n, Obligation: o.Name, Kind: o.Kind, Position: o.Pos, Path: o.Detail}
					order = append(order, key)
				}
				agg[key].Paths++
			}
			for _, k := range order {
				failed = append(failed, *agg[k])
			}
			if u.Err != "" {
				uo++
				failed = append(failed, failedObl{Unit: n, Obligation: "verification completes: " + u.Err, Kind: "completeness"})
			}
			nObl += uo
			nOK += uk
			for _, t := range u.Trust {
				trusted[t] = true
			}
			fnList = append(fnList, map[string]interface{}{"function": n, "at": u.File, "obligations": uo, "discharged": uk, "paths": u.Paths, "ms": u.MS, "inlined": u.Inlined})
		}
		cov["functions_under_contract"] = fnList
		cov["backends"] = backends
		cov["solver_ms"] = solverMS
		cov["solver_queries"] = pool.Queries
		cov["clauses_checked_under_other_properties"] = sortedStrs(elsewhere)
		if len(start) == 0 {
			failed = append(failed, failedObl{Unit: "contracts", Obligation: "the property has contracts", Kind: "contract"})
		}
	}
	var errs []string
	smtErrors.Range(func(k, v interface{}) bool { errs = append(errs, k.(string)); return true })
	if len(errs) > 0 {
		cov["solver_errors"] = errs
	}
	// known findings
	var live []failedObl
	hitKnown := map[string]bool{}
	for _, f := range failed {
		k := false
		for _, kf := range known {
			if kf.match == f.Unit+": "+f.Obligation {
				k = true
				hitKnown[kf.text] = true
			}
		}
		if !k {
			live = append(live, f)
		}
	}
	for _, kf := range known {
		if hitKnown[kf.text] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf.text)
			delete(hitKnown, kf.text)
		}
	}
	for _, t := range standingAssumptions {
		assumptions[t] = true
	}
	violations := 0
	if len(live) > 0 {
		violations = 1
		dir := filepath.Join(verif, "replay")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, prop+".json")
		rep := map[string]interface{}{"property": prop, "failed_obligations": live, "verifier": "gvc check -prop " + prop + " (z3, cvc5)"}
		budget := 100 * time.Second
		if tier == "thorough" {
			budget = 300 * time.Second
		}
		input, out := falsify(repo, verif, prop, seed, budget)
		suffix := " no-failing-input-found"
		if input != nil {
			rep["failing_input"] = input
			suffix = ""
		}
		rep["falsifier_output"] = out
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(path, b, 0644)
		for i, f := range live {
			if i >= 8 {
				fmt.Printf("  ... and %d more\n", len(live)-i)
				break
			}
			fmt.Printf("  failed obligation: %s: %s [%s] %s\n", f.Unit, f.Obligation, f.Kind, f.Position)
		}
		if input != nil {
			fmt.Printf("  failing input: %s\n", trunc(fmt.Sprint(input), 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, suffix)
	}
	cov["obligations"] = nObl
	cov["discharged"] = nOK
	cov["checker_cmd"] = fmt.Sprintf("/verif/check.sh %s %s", prop, tier)
	cov["trusted_base"] = append(sortedStrs(trusted), "gvc: symbolic execution over go/ssa (x/tools v0.52.0) and its verification conditions", "z3 4.8.12, z3-new, cvc5 1.1.2: any accepted 'unsat' answer")
	ev["property"] = prop
	ev["tier"] = tier
	ev["seed"] = seed
	ev["level"] = "proof"
	ev["coverage"] = cov
	ev["assumptions"] = sortedStrs(assumptions)
	ev["wall_s"] = time.Since(t0).Seconds()
	ev["violations"] = violations
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0644); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %.1fs\n", prop, nObl, nOK, time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

var standingAssumptions = []string{
	"memory, stack and descriptor exhaustion do not occur",
	"sequential execution inside one function: data races are excluded only where C18 states lock discipline",
	"int is 64 bits; integers are mathematical in the verifier, with the wrap-around of every fixed-width operation that may leave its range modelled exactly (not assumed away)",
	"strings have at most 2^31 bytes",
}

func driverOverlay(repo, verif string) (map[string][]byte, error) {
	b, err := os.ReadFile(filepath.Join(verif, "driver", "verif_driver.go"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	return map[string][]byte{filepath.Join(repo, "pkg", "db", "zz_verif_driver.go"): b}, nil
}

// falsify looks for a failing input by running the property's tests against
// the real code. It returns nil when it found none.
func falsify(repo, verif, prop string, seed int, budget time.Duration) (interface{}, string) {
	tmp, err := os.MkdirTemp("", "falsify")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(tmp)
	// every file below /verif/falsify/<dir> is laid over /repo/pkg/<dir>
	repl := map[string]string{}
	pkgs := map[string]bool{}
	root := filepath.Join(verif, "falsify")
	filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, path)
		b, _ := os.ReadFile(path)
		repl[filepath.Join(repo, "pkg", rel)] = path
		if strings.Contains(string(b), "func TestFalsify_"+prop+"(") {
			pkgs["./"+filepath.Dir(filepath.Join("pkg", rel))] = true
		}
		return nil
	})
	if len(pkgs) == 0 {
		return nil, "no falsifier"
	}
	ov := filepath.Join(tmp, "overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(ov, b, 0644)
	var outs []string
	for pk := range pkgs {
		outFile := filepath.Join(tmp, "found.json")
		args := []string{"test"}
		if raceProps[prop] {
			args = append(args, "-race")
		}
		cmd := exec.Command("go", append(args, "-vet=off", "-overlay", ov, "-run", "^TestFalsify_"+prop+"$", "-count=1", "-timeout", fmt.Sprintf("%ds", int(budget.Seconds())+30), pk)...)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "FALSIFY_OUT="+outFile, "FALSIFY_SRC="+repo, fmt.Sprintf("FALSIFY_SECONDS=%d", int(budget.Seconds())), fmt.Sprintf("FALSIFY_SEED=%d", seed), "TMPDIR="+tmp)
		out, err := cmd.CombinedOutput()
		outs = append(outs, trunc(string(out), 6000))
		if fb, e := os.ReadFile(outFile); e == nil && len(fb) > 0 {
			var v interface{}
			if json.Unmarshal(fb, &v) == nil {
				return v, strings.Join(outs, "\n")
			}
			return string(fb), strings.Join(outs, "\n")
		}
		if err != nil {
			for _, mark := range []string{"WARNING: DATA RACE", "fatal error: "} {
				if i := strings.Index(string(out), mark); i >= 0 {
					return map[string]string{"what": trunc(string(out)[i:], 1500)}, strings.Join(outs, "\n")
				}
			}
		}
	}
	return nil, strings.Join(outs, "\n")
}

// raceProps: properties whose falsifier runs under the race detector.
var raceProps = map[string]bool{"C18": true}

var _ = ssa.NaiveForm
