package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contracts directory")
	only := flag.String("unit", "", "regexp of units")
	prop := flag.String("prop", "", "property")
	flag.StringVar(&onlyProp, "only", "", "leave obligations of other properties out")
	jobs := flag.Int("j", runtime.NumCPU(), "parallel units")
	check := flag.String("check", "", "property to check (writes evidence)")
	tier := flag.String("tier", "quick", "tier")
	verif := flag.String("verif", "/verif", "verification directory")
	flag.Parse()
	if *check != "" {
		os.Exit(checkMain(*repo, *verif, *check, *tier))
	}
	initStrAxioms()
	initModelAxioms()
	t0 := time.Now()
	ov, err := driverOverlay(*repo, *verif)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	p, err := loadProgram(*repo, ov)
	if err != nil {
		fmt.Println("LOAD-ERROR", err)
		os.Exit(3)
	}
	sp, err := loadSpecs(p, *specs)
	if err != nil {
		fmt.Println("SPEC-ERROR", err)
		os.Exit(3)
	}
	pool := newPool(*jobs)
	defer pool.Close()
	fmt.Println("load", time.Since(t0))
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	type job struct {
		c  *Contract
		fn *ssa.Function
	}
	var js []job
	for _, n := range sp.order {
		c := sp.con[n]
		if c.Trusted || c.NoVerify || c.Inline {
			continue
		}
		if re != nil && !re.MatchString(n) {
			continue
		}
		if *prop != "" && !c.allProps()[*prop] {
			continue
		}
		if len(c.Impls) > 0 {
			continue
		}
		fn := p.byName[n]
		if fn == nil && c.Lemma == nil {
			fmt.Println("NO FUNCTION", n)
			continue
		}
		js = append(js, job{c, fn})
	}
	res := make([]*UnitResult, len(js))
	var wg sync.WaitGroup
	sem := make(chan bool, *jobs)
	for i, j := range js {
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			b := 180 * time.Second
			if j.c.Budget > 0 {
				b = time.Duration(j.c.Budget) * time.Second
			}
			res[i] = verifyUnit(p, sp, pool, j.c, j.fn, fmt.Sprintf("u%d", i), b)
		}(i, j)
	}
	wg.Wait()
	tot, okn := 0, 0
	for _, r := range res {
		n, f := 0, 0
		for _, o := range r.Obls {
			n++
			if !o.OK {
				f++
			}
		}
		tot += n
		okn += n - f
		s := "ok  "
		if !r.ok() {
			s = "FAIL"
		}
		fmt.Printf("%s %-50s obl=%d fail=%d paths=%d %dms %s\n", s, r.Name, n, f, r.Paths, r.MS, r.Err)
		seen := map[string]int{}
		for _, o := range r.Obls {
			if !o.OK {
				seen[fmt.Sprintf("%s: %s (%s)", o.Kind, o.Name, o.Pos)]++
			}
		}
		var ks []string
		for k := range seen {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("     x%d %s\n", seen[k], k)
		}
	}
	var errs []string
	smtErrors.Range(func(k, v interface{}) bool { errs = append(errs, k.(string)); return true })
	if len(errs) > 0 {
		if len(errs) > 5 {
			errs = errs[:5]
		}
		fmt.Println("SMT ERRORS", strings.Join(errs, "\n"))
	}
	if os.Getenv("GVC_PROF") != "" {
		for k, d := range profT {
			fmt.Printf("  %-20s n=%d %v\n", k, profN[k], d)
		}
	}
	fmt.Println("obligations", tot, "proved", okn, "queries", pool.Queries, "wall", time.Since(t0))
}
