package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Decls holds function signatures and definitional axioms attached to symbols
// and functions.  An axiom is included in a query when the symbol it is
// attached to occurs in the query.
type Decls struct {
	mu     sync.Mutex
	funcs  map[string]funcSig
	axioms map[string][]*Term // keyed by symbol/function name
	onced  map[string]*sync.Once
}

type funcSig struct {
	args []Sort
	ret  Sort
}

func newDecls() *Decls {
	return &Decls{funcs: map[string]funcSig{}, axioms: map[string][]*Term{}}
}

func (d *Decls) fn(name string, ret Sort, args ...Sort) {
	d.mu.Lock()
	d.funcs[name] = funcSig{args, ret}
	d.mu.Unlock()
}
func (d *Decls) axiom(name string, t *Term) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, o := range d.axioms[name] {
		if o == t {
			return
		}
	}
	d.axioms[name] = append(d.axioms[name], t)
}

func (d *Decls) axiomsOf(name string) []*Term {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.axioms[name]
}

func (d *Decls) sig(name string) (funcSig, bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	s, ok := d.funcs[name]
	return s, ok
}

// buildQuery renders an SMT-LIB script asserting all facts.
func (d *Decls) buildQuery(facts []*Term, omit map[string]bool) string {
	seen := map[*Term]bool{}
	syms := map[string]Sort{}
	fns := map[string]*Term{}
	var work []*Term
	work = append(work, facts...)
	var all []*Term
	names := map[string]bool{}
	strUsed := false
	lits := map[string]bool{}
	count := map[*Term]int{}
	linked := map[string]bool{}
	for {
		if len(work) == 0 {
			// decimal value of the literals, when decimal text matters
			if names["atoi_ok"] || names["atoi_val"] || names["itoa"] {
				var ls []string
				for l := range lits {
					if !linked[l] {
						ls = append(ls, l)
					}
				}
				sort.Strings(ls)
				for _, l := range ls {
					linked[l] = true
					work = append(work, litDecimal(l))
				}
			}
			if len(work) == 0 {
				break
			}
		}
		f := work[len(work)-1]
		work = work[:len(work)-1]
		all = append(all, f)
		collect(f, seen, func(x *Term) {
			if strings.Contains(x.Sort, "Str") {
				strUsed = true
			}
			var nm string
			switch x.Op {
			case "sym":
				syms[x.Name] = x.Sort
				nm = x.Name
				if strings.HasPrefix(x.Name, "lit!") {
					lits[x.Name] = true
				}
			case "app":
				fns[x.Name] = x
				nm = x.Name
			default:
				return
			}
			if !names[nm] {
				names[nm] = true
				for _, a := range d.axiomsOf(nm) {
					if len(omit) == 0 || a.Op != "forall" || !omit[axiomName(a)] {
						work = append(work, a)
					}
				}
			}
		})
	}
	// sharing counts
	for _, f := range all {
		countShare(f, count)
	}
	var sb strings.Builder
	sb.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n")
	fmt.Fprintf(&sb, "(set-option :smt.random_seed %d)\n", z3Seed)
	sb.WriteString("(set-option :smt.case_split 3)\n")
	if strUsed {
		sb.WriteString("(declare-sort Str 0)\n")
	}
	var sn []string
	for n := range syms {
		sn = append(sn, n)
	}
	sort.Strings(sn)
	for _, n := range sn {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", smtName(n), syms[n])
	}
	var fnn []string
	for n := range fns {
		fnn = append(fnn, n)
	}
	sort.Strings(fnn)
	for _, n := range fnn {
		sig, ok := d.sig(n)
		if !ok {
			x := fns[n]
			for _, a := range x.Args {
				sig.args = append(sig.args, a.Sort)
			}
			sig.ret = x.Sort
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", smtName(n), strings.Join(sig.args, " "), sig.ret)
	}
	if len(lits) > 1 {
		var ls []string
		for l := range lits {
			ls = append(ls, smtName(l))
		}
		sort.Strings(ls)
		sb.WriteString("(assert (distinct " + strings.Join(ls, " ") + "))\n")
	}
	shared := map[*Term]string{}
	nsh := 0
	var define func(t *Term)
	vis := map[*Term]bool{}
	define = func(t *Term) {
		if vis[t] {
			return
		}
		vis[t] = true
		for _, a := range t.Args {
			define(a)
		}
		for _, g := range t.Trigs {
			for _, a := range g {
				define(a)
			}
		}
		if count[t] > 1 && !hasVar(t) && len(t.Args) > 0 && t.size > 3 {
			nm := fmt.Sprintf("t!%d", nsh)
			nsh++
			fmt.Fprintf(&sb, "(define-fun %s () %s ", nm, t.Sort)
			printTerm(&sb, t, shared)
			sb.WriteString(")\n")
			shared[t] = nm
		}
	}
	for i := len(all) - 1; i >= 0; i-- {
		define(all[i])
		sb.WriteString("(assert ")
		printTerm(&sb, all[i], shared)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// axiomName is the name of an axiom that a contract can omit: the part after
// "heavy!" in the name of its first variable.
func axiomName(a *Term) string { return strings.TrimPrefix(a.Vars[0].Name, "heavy!") }

// litDecimal states whether the literal is a decimal 64-bit integer, and which.
func litDecimal(name string) *Term {
	t := Sym(name, SStr)
	l, _ := litOf(t)
	ok := App("atoi_ok", SBool, t)
	n, err := strconv.ParseInt(l, 10, 64)
	if err != nil {
		return Not(ok)
	}
	f := And(ok, Eq(App("atoi_val", SInt, t), BigT(big.NewInt(n))))
	if strconv.FormatInt(n, 10) == l {
		f = And(f, Eq(App("itoa", SStr, BigT(big.NewInt(n))), t))
	}
	return f
}

func countShare(t *Term, c map[*Term]int) {
	c[t]++
	if c[t] > 1 {
		return
	}
	for _, a := range t.Args {
		countShare(a, c)
	}
	for _, g := range t.Trigs {
		for _, a := range g {
			countShare(a, c)
		}
	}
}

func hasVar(t *Term) bool { return len(t.fvs) > 0 }

// ---------------------------------------------------------------- solvers

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

// procSolver is a persistent z3 process, fed "(reset)" separated scripts.
type procSolver struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type SolverPool struct {
	ch      chan *procSolver
	z3      string
	Queries int64
	TimeNS  int64
}

func newPool(n int) *SolverPool {
	p := &SolverPool{ch: make(chan *procSolver, n), z3: "z3-new"}
	if v := os.Getenv("GVC_Z3"); v != "" {
		p.z3 = v
	}
	for i := 0; i < n; i++ {
		p.ch <- nil
	}
	return p
}

func (p *SolverPool) start() (*procSolver, error) {
	cmd := exec.Command(p.z3, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &procSolver{cmd, in, bufio.NewReaderSize(out, 1<<16)}, nil
}

func (s *procSolver) kill() {
	if s == nil {
		return
	}
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// timeScale and z3Seed change when a failed unit is tried again.
var timeScale = 1
var z3Seed = 7

// cpuSlots bounds the solver processes working at once, so that a time limit
// means the same under load.
var cpuSlots = make(chan bool, runtime.NumCPU())

// Check runs a script and returns the verdict; timeout in milliseconds.
func (p *SolverPool) Check(script string, timeoutMS int) Result {
	timeoutMS *= timeScale
	s := <-p.ch
	cpuSlots <- true
	defer func() { <-cpuSlots }()
	t0 := time.Now()
	atomic.AddInt64(&p.Queries, 1)
	defer func() { atomic.AddInt64(&p.TimeNS, int64(time.Since(t0))) }()
	if s == nil {
		var err error
		s, err = p.start()
		if err != nil {
			p.ch <- nil
			return Unknown
		}
	}
	done := make(chan Result, 1)
	go func() {
		full := fmt.Sprintf("(reset)\n(set-option :timeout %d)\n%s(echo \"gvc-done\")\n", timeoutMS, script)
		if _, err := io.WriteString(s.in, full); err != nil {
			done <- Unknown
			return
		}
		r := Unknown
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				done <- Unknown
				return
			}
			line = strings.TrimSpace(line)
			switch line {
			case "sat":
				r = Sat
			case "unsat":
				r = Unsat
			case "gvc-done":
				done <- r
				return
			default:
				if strings.HasPrefix(line, "(error") {
					if os.Getenv("GVC_SMTERR") != "" {
						fmt.Fprintln(os.Stderr, "smt error:", line)
						os.WriteFile("/tmp/gvc_err.smt2", []byte(script), 0644)
					}
					smtErrors.Store(line, script)
				}
			}
		}
	}()
	select {
	case r := <-done:
		if r == Unknown {
			// a query that ran out of time can disturb the next one
			s.kill()
			s = nil
		}
		p.ch <- s
		if os.Getenv("GVC_SLOW") != "" && time.Since(t0) > time.Second {
			fmt.Fprintf(os.Stderr, "slow query %v %v limit %d\n", time.Since(t0), r, timeoutMS)
			os.WriteFile(fmt.Sprintf("%s/s%d.smt2", os.Getenv("GVC_SLOW"), time.Now().UnixNano()), []byte(script), 0644)
		}
		return r
	case <-time.After(time.Duration(timeoutMS+3000) * time.Millisecond):
		s.kill()
		p.ch <- nil
		return Unknown
	}
}

var smtErrors sync.Map

func (p *SolverPool) Close() {
	for i := 0; i < cap(p.ch); i++ {
		select {
		case s := <-p.ch:
			s.kill()
		default:
		}
	}
}

// oneShot runs an external solver binary on the script.
func oneShot(bin string, args []string, script string, timeoutMS int) (Result, string) {
	return oneShotCtx(context.Background(), bin, args, script, timeoutMS)
}

func oneShotCtx(parent context.Context, bin string, args []string, script string, timeoutMS int) (Result, string) {
	cpuSlots <- true
	defer func() { <-cpuSlots }()
	ctx, cancel := context.WithTimeout(parent, time.Duration(timeoutMS+2000)*time.Millisecond)
	defer cancel()
	if ctx.Err() != nil {
		return Unknown, ""
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	_ = cmd.Run()
	for _, l := range strings.Split(out.String(), "\n") {
		switch strings.TrimSpace(l) {
		case "sat":
			return Sat, out.String()
		case "unsat":
			return Unsat, out.String()
		case "unknown":
			return Unknown, out.String()
		}
	}
	return Unknown, out.String()
}

// z3Plain retries with default case splitting.
func z3Plain(bin, script string, timeoutMS int) Result {
	script = strings.Replace(script, "(set-option :smt.case_split 3)\n", "", 1)
	r, _ := oneShot(bin, []string{"-in", "-smt2", fmt.Sprintf("-t:%d", timeoutMS)}, script, timeoutMS)
	return r
}

// portfolio asks several solvers and seeds at once; the first proof wins.
func portfolio(script string, ms int) (bool, string) {
	ms *= timeScale
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	plain := strings.Replace(script, "(set-option :smt.case_split 3)\n", "", 1)
	reseed := func(s string, n int) string {
		return strings.Replace(s, fmt.Sprintf("(set-option :smt.random_seed %d)\n", z3Seed), fmt.Sprintf("(set-option :smt.random_seed %d)\n", n), 1)
	}
	type job struct{ name, bin, s string }
	jobs := []job{
		{"z3-5.3.2", "z3-new", plain},
		{"z3-4.8.12", "z3", plain},
		{"z3-5.3.2", "z3-new", reseed(script, z3Seed+4)},
		{"z3-4.8.12", "z3", reseed(script, z3Seed+8)},
		{"cvc5", "cvc5", cvc5Script(script)},
		{"z3-5.3.2", "z3-new", reseed(plain, z3Seed+16)},
	}
	res := make(chan string, len(jobs))
	for _, j := range jobs {
		go func(j job) {
			args := []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)}
			if j.bin == "cvc5" {
				args = []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-"}
			}
			if r, _ := oneShotCtx(ctx, j.bin, args, j.s, ms); r == Unsat {
				res <- j.name
				return
			}
			res <- ""
		}(j)
	}
	for range jobs {
		if n := <-res; n != "" {
			return true, n
		}
	}
	return false, ""
}

func cvc5Script(script string) string {
	s := script
	for _, o := range []string{"(set-option :auto_config false)\n", "(set-option :smt.mbqi false)\n", fmt.Sprintf("(set-option :smt.random_seed %d)\n", z3Seed), "(set-option :smt.case_split 3)\n"} {
		s = strings.Replace(s, o, "", 1)
	}
	return "(set-logic ALL)\n" + s
}
