package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// SVal is a value of the specification language.
type SVal struct {
	V Val
	T types.Type
}

type Clause struct {
	Assumed bool // class body: used, never proved (reported as an assumption)
	Label   string
	Props   map[string]bool
	Src     string
	E       ast.Expr
	Line    string
	Callee  string // atcall: the function called
}

type Contract struct {
	OldFirst  bool // ask z3 4.8.12 before z3-new
	Name      string
	Params    []string
	Results   []string
	Requires  []*Clause
	Ensures   []*Clause
	Modifies  []*Clause
	Hints     []*Clause
	Invs      []string
	Props     map[string]bool
	Trusted   bool
	Inline    bool
	Pure      bool
	NoVerify  bool
	ModAll    []string
	Safety    map[string]bool
	Lets      []*Clause
	File      string
	Budget    int
	Witness   []*Clause
	Driver    bool
	Bind      map[string]string
	GhostPost []*Clause
	GhostPre  []*Clause
	Lemma     *LemmaDef
	Uses      []string
	Omit      map[string]bool
	Decr      *Clause // termination measure
	Seq       int
	Impls     []string       // units of an interface method contract
	Scope     *regexp.Regexp // callers that see this contract; others see the code
	AtCall    []*Clause      // conditions on the calls the function makes (Line: callee)
}

type Macro struct {
	name   string
	params []string
	body   ast.Expr
}

type GhostField struct {
	typ  string // struct key
	name string
	T    types.Type
	tsrc string
	key  string
}

type ClassInv struct {
	Name    string
	Type    types.Type // pointer to the class
	TypeSrc string
	Var     string
	Body    []*Clause
	Trig    []string
}

type Hint struct {
	c *Clause
}

type Specs struct {
	p       *Program
	con     map[string]*Contract
	macros  map[string]*Macro
	ghosts  map[string][]*GhostField
	invs    map[string]*ClassInv
	globals []*Clause // facts about immutable globals
	hints   []*Clause // global loop hints
	folds   map[string]*Fold
	attrs   map[string]types.Type // immutable attributes of objects, fixed when the object is constructed
	guards  map[string]*Guard
	laws    map[string]*Law
	mu      sync.Mutex
	order   []string
	hash    string
}

type Fold struct {
	name   string
	params []string
	ptypes []string
	ret    string
	base   ast.Expr
	step   ast.Expr
	is     ast.Expr // rec: the defining equation, unfolded once at each occurrence
}

// Law: what an attribute being true of an object implies, in terms of
// attributes only. It is an obligation where the attribute is set and a fact
// where a contract says "use".
type Law struct {
	attr, v string
	body    []*Clause
}

type Guard struct {
	field   string // heap key prefix, e.g. "types.syncDataMap.rawMap"
	lock    string // "types.syncDataMap.mutex"
	pointee bool   // only what the field refers to is protected; the field itself is fixed
}

func loadSpecs(p *Program, dir string) (*Specs, error) {
	sp := &Specs{p: p, con: map[string]*Contract{}, macros: map[string]*Macro{}, ghosts: map[string][]*GhostField{}, invs: map[string]*ClassInv{}, folds: map[string]*Fold{}, attrs: map[string]types.Type{}, guards: map[string]*Guard{}, laws: map[string]*Law{}}
	sp.builtinGhosts()
	files, err := filepath.Glob(filepath.Join(dir, "*.gvc"))
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	for _, f := range files {
		if err := sp.parseFile(f); err != nil {
			return nil, err
		}
	}
	sp.expandIfaces()
	return sp, nil
}

// expandIfaces turns a contract on an interface method into one obligation per
// implementation in the repository.
func (sp *Specs) expandIfaces() {
	for _, n := range append([]string(nil), sp.order...) {
		c := sp.con[n]
		if sp.p.byName[n] != nil || strings.Contains(n, "(") || c.Trusted || c.Lemma != nil {
			continue
		}
		i := strings.LastIndexByte(n, '.')
		if i < 0 {
			continue
		}
		t := sp.p.lookupType(n[:i])
		if t == nil {
			continue
		}
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		c.Impls = []string{}
		for _, im := range sp.p.implementers(it) {
			for k := 0; k < it.NumMethods(); k++ {
				m := it.Method(k)
				if m.Name() != n[i+1:] {
					continue
				}
				sel := sp.p.prog.MethodSets.MethodSet(im).Lookup(m.Pkg(), m.Name())
				if sel == nil {
					continue
				}
				fn := sp.p.prog.MethodValue(sel)
				cc := *c
				cc.Impls = nil
				cc.Name = n + "@" + typeName(im)
				sp.con[cc.Name] = &cc
				sp.order = append(sp.order, cc.Name)
				sp.p.byName[cc.Name] = fn
				c.Impls = append(c.Impls, cc.Name)
			}
		}
	}
}

func splitWords(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == ',' || r == '\t' })
}

func parseSpecExpr(src string) (ast.Expr, error) {
	return parser.ParseExpr(src)
}

var clauseKw = map[string]bool{"props": true, "requires": true, "ensures": true, "modifies": true, "hint": true, "inv": true, "trusted": true, "inline": true, "pure": true, "noverify": true, "let": true, "budget": true, "solver": true, "body": true, "assumed": true, "trig": true, "driver": true, "safety": true, "bind": true, "ghost": true, "ghostpre": true, "base": true, "step": true, "is": true, "use": true, "omit": true, "induct": true, "pat": true, "decreases": true, "scope": true, "atcall": true}

func (sp *Specs) parseFile(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	lines := strings.Split(string(data), "\n")
	var cur *Contract
	var curInv *ClassInv
	var curFold *Fold
	var curLaw *Law
	type pend struct {
		kw, text string
		line     int
	}
	var pending *pend
	mkClause := func(text string, line int) (*Clause, error) {
		c := &Clause{Props: map[string]bool{}, Line: fmt.Sprintf("%s:%d", filepath.Base(file), line)}
		text = strings.TrimSpace(text)
		if strings.HasPrefix(text, "[") {
			j := strings.IndexByte(text, ']')
			c.Label = text[1:j]
			text = strings.TrimSpace(text[j+1:])
		}
		if strings.HasPrefix(text, "{") {
			j := strings.IndexByte(text, '}')
			for _, w := range splitWords(text[1:j]) {
				c.Props[w] = true
			}
			text = strings.TrimSpace(text[j+1:])
		}
		c.Src = text
		e, err := parseSpecExpr(text)
		if err != nil {
			return nil, fmt.Errorf("%s: %v in %q", c.Line, err, text)
		}
		c.E = e
		if c.Label == "" {
			c.Label = c.Line
		}
		return c, nil
	}
	flush := func() error {
		if pending == nil {
			return nil
		}
		pd := pending
		pending = nil
		text := strings.TrimSpace(pd.text)
		switch pd.kw {
		case "define":
			j := strings.Index(text, "=")
			hd := strings.TrimSpace(text[:j])
			e, err := parseSpecExpr(strings.TrimSpace(text[j+1:]))
			if err != nil {
				return fmt.Errorf("%s:%d: %v", file, pd.line, err)
			}
			m := &Macro{body: e}
			if k := strings.IndexByte(hd, '('); k >= 0 {
				m.name = strings.TrimSpace(hd[:k])
				m.params = splitWords(strings.TrimSuffix(hd[k+1:], ")"))
			} else {
				m.name = hd
			}
			sp.macros[m.name] = m
			return nil
		case "global":
			c, err := mkClause(text, pd.line)
			if err != nil {
				return err
			}
			sp.globals = append(sp.globals, c)
			return nil
		case "loophint":
			c, err := mkClause(text, pd.line)
			if err != nil {
				return err
			}
			sp.hints = append(sp.hints, c)
			return nil
		case "body", "assumed", "trig":
			if curLaw != nil {
				c, err := mkClause(text, pd.line)
				if err != nil {
					return err
				}
				curLaw.body = append(curLaw.body, c)
				return nil
			}
			if curInv == nil {
				return fmt.Errorf("%s:%d: %s outside class invariant", file, pd.line, pd.kw)
			}
			if pd.kw == "trig" {
				curInv.Trig = append(curInv.Trig, text)
				return nil
			}
			c, err := mkClause(text, pd.line)
			if err != nil {
				return err
			}
			c.Assumed = pd.kw == "assumed"
			curInv.Body = append(curInv.Body, c)
			return nil
		case "base", "step", "is":
			e, err := parseSpecExpr(text)
			if err != nil {
				return fmt.Errorf("%s:%d: %v", file, pd.line, err)
			}
			if pd.kw == "base" {
				curFold.base = e
			} else if pd.kw == "is" {
				curFold.is = e
			} else {
				curFold.step = e
			}
			return nil
		}
		if cur == nil {
			return fmt.Errorf("%s:%d: clause %s outside contract", file, pd.line, pd.kw)
		}
		switch pd.kw {
		case "props":
			for _, w := range splitWords(text) {
				cur.Props[w] = true
			}
		case "use":
			cur.Uses = append(cur.Uses, splitWords(text)...)
		case "omit":
			cur.Omit = map[string]bool{}
			for _, w := range splitWords(text) {
				cur.Omit[w] = true
			}
		case "induct":
			cur.Lemma.induct = text
		case "pat":
			var tr []ast.Expr
			for _, part := range splitTop(text) {
				e, err := parseSpecExpr(strings.TrimSpace(part))
				if err != nil {
					return fmt.Errorf("%s:%d: %v", file, pd.line, err)
				}
				tr = append(tr, e)
			}
			cur.Lemma.pats = append(cur.Lemma.pats, tr)
		case "safety":
			for _, w := range splitWords(text) {
				cur.Safety[w] = true
			}
		case "inv":
			cur.Invs = append(cur.Invs, splitWords(text)...)
		case "trusted":
			cur.Trusted = true
		case "scope":
			re, err := regexp.Compile("^(?:" + text + ")$")
			if err != nil {
				return err
			}
			cur.Scope = re
		case "atcall":
			// atcall "callee" [label] expr
			i := strings.IndexByte(text[1:], '"') + 1
			callee := text[1:i]
			c, err := mkClause(strings.TrimSpace(text[i+1:]), pd.line)
			if err != nil {
				return err
			}
			c.Callee = callee
			cur.AtCall = append(cur.AtCall, c)
		case "inline":
			cur.Inline = true
		case "pure":
			cur.Pure = true
		case "driver":
			cur.Driver = true
		case "noverify":
			cur.NoVerify = true
		case "solver":
			cur.OldFirst = text == "z3-4.8.12"
		case "budget":
			cur.Budget, _ = strconv.Atoi(text)
		case "bind":
			w := splitWords(text)
			cur.Bind[w[0]] = w[1]
		case "modifies":
			for _, part := range splitTop(text) {
				part = strings.TrimSpace(part)
				if strings.HasPrefix(part, "all ") {
					cur.ModAll = append(cur.ModAll, strings.TrimSpace(part[4:]))
					continue
				}
				c, err := mkClause(part, pd.line)
				if err != nil {
					return err
				}
				cur.Modifies = append(cur.Modifies, c)
			}
		case "let", "ghost", "ghostpre":
			j := strings.Index(text, ":=")
			c, err := mkClause(text[j+2:], pd.line)
			if err != nil {
				return err
			}
			c.Label = strings.TrimSpace(text[:j])
			switch pd.kw {
			case "let":
				cur.Lets = append(cur.Lets, c)
			case "ghost":
				cur.GhostPost = append(cur.GhostPost, c)
			case "ghostpre":
				cur.GhostPre = append(cur.GhostPre, c)
			}
		default:
			c, err := mkClause(text, pd.line)
			if err != nil {
				return err
			}
			switch pd.kw {
			case "requires":
				cur.Requires = append(cur.Requires, c)
			case "ensures":
				cur.Ensures = append(cur.Ensures, c)
			case "hint":
				cur.Hints = append(cur.Hints, c)
			case "decreases":
				cur.Decr = c
			}
		}
		return nil
	}
	for n, ln := range lines {
		raw := ln
		if i := strings.Index(ln, "//"); i >= 0 {
			ln = ln[:i]
		}
		if strings.TrimSpace(ln) == "" {
			continue
		}
		indented := raw[0] == ' ' || raw[0] == '\t'
		fields := strings.Fields(ln)
		kw := fields[0]
		if indented {
			if clauseKw[kw] && !(pending != nil && strings.HasPrefix(strings.TrimSpace(ln), kw+"(")) {
				if err := flush(); err != nil {
					return err
				}
				pending = &pend{kw, strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(ln), kw)), n + 1}
			} else if pending != nil {
				pending.text += " " + strings.TrimSpace(ln)
			} else {
				return fmt.Errorf("%s:%d: stray line", file, n+1)
			}
			continue
		}
		if err := flush(); err != nil {
			return err
		}
		rest := strings.TrimSpace(strings.TrimPrefix(ln, kw))
		curLaw = nil
		switch kw {
		case "law":
			i := strings.IndexByte(rest, '(')
			curLaw = &Law{attr: strings.TrimSpace(rest[:i]), v: strings.TrimSpace(strings.TrimSuffix(rest[i+1:], ")"))}
			sp.laws[curLaw.attr] = curLaw
			cur, curInv, curFold = nil, nil, nil
		case "func":
			c := &Contract{Props: map[string]bool{}, Safety: map[string]bool{}, Bind: map[string]string{}, File: filepath.Base(file)}
			// name(params) (results)
			i := strings.LastIndex(rest, " (")
			var res string
			hd := rest
			if i >= 0 && strings.HasSuffix(rest, ")") && strings.HasSuffix(strings.TrimSpace(rest[:i]), ")") {
				res = strings.TrimSuffix(rest[i+2:], ")")
				hd = strings.TrimSpace(rest[:i])
			}
			j := strings.LastIndexByte(hd, '(')
			c.Name = hd[:j]
			c.Params = splitWords(strings.TrimSuffix(hd[j+1:], ")"))
			c.Results = splitWords(res)
			key := c.Name
			if sp.con[key] != nil {
				return fmt.Errorf("%s:%d: duplicate contract %s", file, n+1, key)
			}
			sp.con[key] = c
			sp.order = append(sp.order, key)
			cur, curInv, curFold = c, nil, nil
		case "class":
			w := strings.Fields(rest) // class container.setContainer s
			// class pkg.Type+part v: a further invariant of the same class
			ci := &ClassInv{Name: w[0], TypeSrc: strings.SplitN(w[0], "+", 2)[0], Var: w[1]}
			t := sp.p.lookupType(ci.TypeSrc)
			if t != nil {
				ci.Type = types.NewPointer(t)
			}
			sp.invs[ci.Name] = ci
			cur, curInv, curFold = nil, ci, nil
		case "field":
			w := strings.Fields(rest) // field container.linkedList g_n int
			g := &GhostField{typ: w[0], name: w[1], tsrc: strings.Join(w[2:], "")}
			g.T = sp.parseType(g.tsrc)
			if g.T == nil {
				return fmt.Errorf("%s:%d: bad ghost type %s", file, n+1, g.tsrc)
			}
			g.key = g.typ + ".$" + g.name
			sp.ghosts[g.typ] = append(sp.ghosts[g.typ], g)
		case "lemma":
			c, err := sp.parseLemma(rest, filepath.Base(file), n+1)
			if err != nil {
				return err
			}
			sp.con[c.Name] = c
			sp.order = append(sp.order, c.Name)
			cur, curInv, curFold = c, nil, nil
		case "fold", "rec":
			// fold name(a T, b T) R
			i := strings.IndexByte(rest, '(')
			j := strings.LastIndexByte(rest, ')')
			f := &Fold{name: strings.TrimSpace(rest[:i]), ret: strings.TrimSpace(rest[j+1:])}
			for _, part := range strings.Split(rest[i+1:j], ",") {
				w := strings.Fields(part)
				f.params = append(f.params, w[0])
				f.ptypes = append(f.ptypes, strings.Join(w[1:], ""))
			}
			sp.folds[f.name] = f
			cur, curInv, curFold = nil, nil, f
		case "attr":
			w := strings.Fields(rest) // attr enc string
			t := sp.parseType(strings.Join(w[1:], ""))
			if t == nil {
				return fmt.Errorf("%s:%d: bad attribute type", file, n+1)
			}
			sp.attrs[w[0]] = t
			cur, curInv, curFold = nil, nil, nil
		case "guard":
			w := strings.Fields(rest)
			sp.guards[w[0]] = &Guard{w[0], w[1], len(w) > 2 && w[2] == "pointee"}
		case "define", "global", "loophint":
			pending = &pend{kw, rest, n + 1}
		default:
			return fmt.Errorf("%s:%d: unknown block %q", file, n+1, kw)
		}
	}
	return flush()
}

func splitTop(s string) []string {
	var out []string
	d := 0
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	if strings.TrimSpace(s[last:]) != "" {
		out = append(out, s[last:])
	}
	return out
}

// parseType parses specification types: Go types by name, "[K]V" arrays.
func (sp *Specs) parseType(s string) types.Type {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") && !strings.HasPrefix(s, "[]") {
		i := strings.IndexByte(s, ']')
		k, v := sp.parseType(s[1:i]), sp.parseType(s[i+1:])
		if k == nil || v == nil {
			return nil
		}
		return &ArrT{k, v}
	}
	if s == "ref" {
		return types.NewPointer(types.NewStruct(nil, nil))
	}
	return sp.p.lookupType(s)
}

func (sp *Specs) ghostFields(typ string) []*GhostField { return sp.ghosts[typ] }

func (sp *Specs) regGhost(x *Exec, g *GhostField) {
	if _, ok := x.keys[g.key]; ok {
		return
	}
	x.keys[g.key] = keyInfo{ArrSort(SInt, sortOf(g.T)), false, false, nil}
}

// ---------------------------------------------------------------- evaluation

type heapView struct {
	st *State
	m  map[string]*Term // nil: current heap of st
	A  *Term
}

func (h *heapView) H(key string) *Term {
	if h.m == nil {
		return h.st.H(key)
	}
	if t, ok := h.m[key]; ok {
		return t
	}
	// untouched since entry: base symbol
	ki, ok := h.st.x.keys[key]
	if !ok {
		panic(unsupported{"spec reads unknown heap key " + key})
	}
	_ = ki
	return h.st.x.heapSym(h.st, key, "0", 0, h.st.x.A0)
}

type SEnv struct {
	x         *Exec
	h         *heapView
	old       *heapView
	vars      map[string]SVal
	reads     map[string]bool
	depth     int
	bound     int
	frame     *Frame // for hint evaluation
	meta      map[string]SVal
	loopEntry *heapView
	iters     map[int]*iterState
	facts     *[]*Term // definitional facts collected (fold unfoldings)
}

type specErr struct{ msg string }

func (e *SEnv) fail(f string, a ...interface{}) SVal {
	panic(specErr{fmt.Sprintf(f, a...)})
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]

func (e *SEnv) with(name string, v SVal) *SEnv {
	n := *e
	n.vars = make(map[string]SVal, len(e.vars)+1)
	for k, v := range e.vars {
		n.vars[k] = v
	}
	n.vars[name] = v
	return &n
}

func (e *SEnv) bool(ex ast.Expr) *Term {
	v := e.eval(ex)
	t, ok := v.V.(*Term)
	if !ok || t.Sort != SBool {
		e.fail("boolean expected: %s", exprStr(ex))
	}
	return t
}

func (e *SEnv) termOf(ex ast.Expr) *Term {
	v := e.eval(ex)
	t, ok := v.V.(*Term)
	if !ok {
		e.fail("scalar expected: %s", exprStr(ex))
	}
	return t
}

func exprStr(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name
	case *ast.SelectorExpr:
		return exprStr(e.X) + "." + e.Sel.Name
	case *ast.StarExpr:
		return "*" + exprStr(e.X)
	case *ast.CallExpr:
		var as []string
		for _, a := range e.Args {
			as = append(as, exprStr(a))
		}
		return exprStr(e.Fun) + "(" + strings.Join(as, ",") + ")"
	case *ast.IndexExpr:
		return exprStr(e.X) + "[" + exprStr(e.Index) + "]"
	case *ast.ArrayType:
		if e.Len == nil {
			return "[]" + exprStr(e.Elt)
		}
		return "[" + exprStr(e.Len) + "]" + exprStr(e.Elt)
	case *ast.BasicLit:
		return e.Value
	case *ast.BinaryExpr:
		return exprStr(e.X) + e.Op.String() + exprStr(e.Y)
	case *ast.ParenExpr:
		return "(" + exprStr(e.X) + ")"
	case *ast.UnaryExpr:
		return e.Op.String() + exprStr(e.X)
	}
	return fmt.Sprintf("%T", e)
}

func (e *SEnv) eval(ex ast.Expr) SVal {
	switch ex := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(ex.X)
	case *ast.BasicLit:
		switch ex.Kind {
		case token.INT:
			b, _ := new(big.Int).SetString(ex.Value, 0)
			return SVal{BigT(b), tInt}
		case token.STRING:
			s, _ := strconv.Unquote(ex.Value)
			return SVal{StrLit(s), tString}
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(ex.Value[1:len(ex.Value)-1], '\'')
			return SVal{IntT(int64(r)), tInt}
		}
	case *ast.Ident:
		if v, ok := e.vars[ex.Name]; ok {
			return v
		}
		switch ex.Name {
		case "true":
			return SVal{True, tBool}
		case "false":
			return SVal{False, tBool}
		case "nil":
			return SVal{Zero, types.Typ[types.UntypedNil]}
		case "minint":
			return SVal{BigT(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63))), tInt}
		case "maxint":
			return SVal{BigT(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))), tInt}
		}
		if m, ok := e.x.sp.macros[ex.Name]; ok && len(m.params) == 0 {
			return e.macro(m, nil)
		}
		return e.fail("unknown name %s", ex.Name)
	case *ast.UnaryExpr:
		switch ex.Op {
		case token.NOT:
			return SVal{Not(e.bool(ex.X)), tBool}
		case token.SUB:
			return SVal{Neg(e.termOf(ex.X)), tInt}
		}
	case *ast.BinaryExpr:
		return e.binary(ex)
	case *ast.SelectorExpr:
		return e.selector(ex)
	case *ast.IndexExpr:
		return e.index(ex)
	case *ast.CallExpr:
		return e.callExpr(ex)
	case *ast.SliceExpr:
		v := e.eval(ex.X)
		if t, ok := v.V.(*Term); ok && t.Sort == SStr {
			lo, hi := Zero, SLen(t)
			if ex.Low != nil {
				lo = e.termOf(ex.Low)
			}
			if ex.High != nil {
				hi = e.termOf(ex.High)
			}
			return SVal{SSub(t, lo, hi), tString}
		}
		if c, ok := v.V.(*Comp); ok {
			lo, hi := Zero, c.F[2].(*Term)
			if ex.Low != nil {
				lo = e.termOf(ex.Low)
			}
			if ex.High != nil {
				hi = e.termOf(ex.High)
			}
			o := c.F[1].(*Term)
			if lo != Zero {
				o = ix(o, lo)
			}
			return SVal{&Comp{T: v.T, F: []Val{c.F[0], o, Sub(hi, lo), Sub(c.F[3].(*Term), lo)}}, v.T}
		}
	}
	return e.fail("cannot evaluate %s", exprStr(ex))
}

func (e *SEnv) binary(ex *ast.BinaryExpr) SVal {
	switch ex.Op {
	case token.LAND:
		a := e.bool(ex.X)
		if a.isFalse() {
			return SVal{False, tBool}
		}
		return SVal{And(a, e.bool(ex.Y)), tBool}
	case token.LOR:
		a := e.bool(ex.X)
		if a.isTrue() {
			return SVal{True, tBool}
		}
		return SVal{Or(a, e.bool(ex.Y)), tBool}
	case token.EQL, token.NEQ:
		a, b := e.eval(ex.X), e.eval(ex.Y)
		r := e.eq(a, b, ex)
		if ex.Op == token.NEQ {
			r = Not(r)
		}
		return SVal{r, tBool}
	}
	a, b := e.eval(ex.X), e.eval(ex.Y)
	ta, ok1 := a.V.(*Term)
	tb, ok2 := b.V.(*Term)
	if !ok1 || !ok2 {
		return e.fail("bad operands in %s", exprStr(ex))
	}
	if ta.Sort == SStr && ex.Op == token.ADD {
		return SVal{SConcat(ta, tb), tString}
	}
	if ta.Sort != SInt || tb.Sort != SInt {
		return e.fail("integer operands expected in %s", exprStr(ex))
	}
	switch ex.Op {
	case token.ADD:
		return SVal{Add(ta, tb), tInt}
	case token.SUB:
		return SVal{Sub(ta, tb), tInt}
	case token.MUL:
		return SVal{Mul(ta, tb), tInt}
	case token.LSS:
		return SVal{Lt(ta, tb), tBool}
	case token.LEQ:
		return SVal{Le(ta, tb), tBool}
	case token.GTR:
		return SVal{Lt(tb, ta), tBool}
	case token.GEQ:
		return SVal{Le(tb, ta), tBool}
	case token.QUO:
		return SVal{mk("div", SInt, ta, tb), tInt}
	case token.REM:
		return SVal{mk("mod", SInt, ta, tb), tInt}
	}
	return e.fail("operator %s", ex.Op)
}

func (e *SEnv) eq(a, b SVal, ex ast.Expr) *Term {
	ca, oka := a.V.(*Comp)
	cb, okb := b.V.(*Comp)
	switch {
	case oka && okb:
		fa, fb := flatten(ca, a.T), flatten(cb, b.T)
		if len(fa) != len(fb) {
			e.fail("incomparable values in %s", exprStr(ex))
		}
		var cs []*Term
		for i := range fa {
			cs = append(cs, Eq(fa[i], fb[i]))
		}
		return And(cs...)
	case oka:
		if t, ok := b.V.(*Term); ok && t == Zero && len(ca.F) == 4 {
			return Eq(ca.F[0].(*Term), Zero)
		}
	case okb:
		return e.eq(b, a, ex)
	}
	ta, tb := asTerm(a.V), asTerm(b.V)
	if ta.Sort != tb.Sort {
		e.fail("sorts differ in %s: %s vs %s", exprStr(ex), ta.Sort, tb.Sort)
	}
	return Eq(ta, tb)
}

func (e *SEnv) pkgMember(pk, name string) (SVal, bool) {
	for path, sp := range e.x.p.pkgs {
		if path != pk && filepath.Base(path) != pk {
			continue
		}
		switch m := sp.Members[name].(type) {
		case *ssa.Global:
			a := &Addr{Key: "G:" + shortPkg(sp.Pkg.Path()) + "." + name, Base: Zero, T: m.Type().(*types.Pointer).Elem()}
			if n, ok := a.T.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
				return SVal{a, a.T}, true
			}
			if v := e.x.globalConst(e.h.st, a); v != nil {
				return SVal{v, a.T}, true
			}
			return SVal{e.loadAt(a), a.T}, true
		case *ssa.NamedConst:
			v := e.x.constVal(m.Value)
			return SVal{v, m.Value.Type()}, true
		}
	}
	if pk == "io" && name == "EOF" {
		if v := e.x.globalConst(e.h.st, &Addr{Key: "G:io.EOF", Base: Zero, T: errorType}); v != nil {
			return SVal{v, errorType}, true
		}
	}
	return SVal{}, false
}

func (e *SEnv) read(key string) *Term {
	if e.reads != nil {
		e.reads[key] = true
	}
	return e.h.H(key)
}

func (e *SEnv) loadAt(a *Addr) Val {
	dims := 1
	if a.Idx != nil {
		dims = 2
	}
	e.x.leafKeys(a.Key, a.T, dims)
	return build(a.T, func(suf string, l leaf) *Term {
		t := Select(e.read(a.Key+suf), a.Base)
		if a.Idx != nil {
			t = Select(t, a.Idx)
		}
		return t
	})
}

func (e *SEnv) selector(ex *ast.SelectorExpr) SVal {
	if id, ok := ex.X.(*ast.Ident); ok {
		if _, bound := e.vars[id.Name]; !bound {
			if v, ok := e.pkgMember(id.Name, ex.Sel.Name); ok {
				return v
			}
		}
	}
	b := e.eval(ex.X)
	return e.field(b, ex.Sel.Name, ex)
}

func (e *SEnv) field(b SVal, name string, ex ast.Expr) SVal {
	t := b.T
	if c, ok := b.V.(*Comp); ok {
		if u, ok := underlying(t).(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == name {
					return SVal{c.F[i], u.Field(i).Type()}
				}
			}
		}
		if len(c.F) == 4 {
			switch name {
			case "arr":
				return SVal{c.F[0], types.NewPointer(types.NewStruct(nil, nil))}
			case "off":
				return SVal{c.F[1], tInt}
			case "cap":
				return SVal{c.F[3], tInt}
			}
		}
		return e.fail("no field %s in %s", name, exprStr(ex))
	}
	var base *Term
	key := ""
	var st types.Type
	switch v := b.V.(type) {
	case *Term:
		base = v
		pt, ok := underlying(t).(*types.Pointer)
		if !ok {
			if mt, ok := underlying(t).(*types.Map); ok {
				_ = mt
				for _, g := range e.x.sp.ghosts["map"] {
					if g.name == name {
						e.x.sp.regGhost(e.x, g)
						return SVal{Select(e.read(g.key), base), g.T}
					}
				}
			}
			if isIfaceType(t) {
				for _, g := range e.x.sp.ghosts[typeName(t)] {
					if g.name == name {
						e.x.sp.regGhost(e.x, g)
						return SVal{Select(e.read(g.key), base), g.T}
					}
				}
			}
			return e.fail("field %s of non-pointer %s (%s)", name, exprStr(ex), t)
		}
		st = pt.Elem()
		key = structKey(st)
	case *Addr:
		base = v.Base
		st = v.T
		key = v.Key
	default:
		return e.fail("field of %T", b.V)
	}
	for _, g := range e.x.sp.ghosts[structKey(st)] {
		if g.name == name {
			e.x.sp.regGhost(e.x, g)
			return SVal{Select(e.read(g.key), base), g.T}
		}
	}
	u, ok := underlying(st).(*types.Struct)
	if !ok {
		if name == "val" {
			return SVal{e.loadAt(&Addr{Key: "*" + typeName(st), Base: base, T: st}), st}
		}
		return e.fail("field %s of %s", name, st)
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			ft := u.Field(i).Type()
			a := &Addr{Key: key + "." + name, Base: base, T: ft}
			if _, ok := underlying(ft).(*types.Struct); ok {
				return SVal{a, ft}
			}
			return SVal{e.loadAt(a), ft}
		}
	}
	return e.fail("no field %s in %s", name, st)
}

func (e *SEnv) index(ex *ast.IndexExpr) SVal {
	b := e.eval(ex.X)
	switch u := underlying(b.T).(type) {
	case *types.Slice:
		c := b.V.(*Comp)
		i := e.termOf(ex.Index)
		return e.elem(c, u.Elem(), i)
	case *ArrT:
		return SVal{Select(b.V.(*Term), e.termOf(ex.Index)), u.V}
	case *types.Map:
		m := b.V.(*Term)
		k := e.termOf(ex.Index)
		_, vs := e.x.mapKeys(u)
		n := 0
		v := build(u.Elem(), func(suf string, l leaf) *Term {
			t := Select(Select(e.read(vs[n]), m), k)
			n++
			return t
		})
		return SVal{v, u.Elem()}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return SVal{SAt(b.V.(*Term), e.termOf(ex.Index)), tInt}
		}
	}
	return e.fail("cannot index %s (%s)", exprStr(ex.X), b.T)
}

func (e *SEnv) elem(c *Comp, et types.Type, i *Term) SVal {
	if a := c.F[0].(*Term); strings.HasPrefix(a.Sort, "(Array") { // a snapshot
		return SVal{Select(a, ix(c.F[1].(*Term), i)), et}
	}
	return SVal{e.loadAt(&Addr{Key: e.x.elemKey(et), Base: c.F[0].(*Term), Idx: ix(c.F[1].(*Term), i), T: et}), et}
}

// snapAttr is a slice-valued attribute: the contents, offset and length of a
// slice at the moment the attribute was fixed.
func snapAttr(name string, t *types.Slice, o *Term) *Comp {
	n := App("attr!"+name+"#n", SInt, o)
	return &Comp{F: []Val{App("attr!"+name+"#c", ArrSort(SInt, sortOf(t.Elem())), o), App("attr!"+name+"#o", SInt, o), n, n}}
}

func (e *SEnv) macro(m *Macro, args []SVal) SVal {
	if len(args) != len(m.params) {
		return e.fail("macro %s: %d args", m.name, len(args))
	}
	n := *e
	n.depth++
	if n.depth > 50 {
		return e.fail("macro recursion")
	}
	n.vars = make(map[string]SVal, len(e.vars)+len(args))
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for i, p := range m.params {
		n.vars[p] = args[i]
	}
	return n.eval(m.body)
}

func (e *SEnv) typeArg(a ast.Expr) types.Type {
	s := exprStr(a)
	if bl, ok := a.(*ast.BasicLit); ok && bl.Kind == token.STRING {
		s, _ = strconv.Unquote(bl.Value)
	}
	t := e.x.sp.parseType(s)
	if t == nil {
		e.fail("unknown type %s", s)
	}
	return t
}

var boundN int
var boundMu sync.Mutex

func (e *SEnv) freshVar(name string, s Sort) *Term {
	e.bound++
	return Var(fmt.Sprintf("%s_%d", name, e.depth*100+e.bound), s)
}

func (e *SEnv) quant(ex *ast.CallExpr, isAll, ranged bool) SVal {
	name := ex.Args[0].(*ast.Ident).Name
	var v *Term
	var sv SVal
	var guard *Term
	bi := 2
	n := *e
	if ranged {
		v = n.freshVar(name, SInt)
		sv = SVal{v, tInt}
		lo, hi := e.termOf(ex.Args[1]), e.termOf(ex.Args[2])
		guard = And(Le(lo, v), Lt(v, hi))
		bi = 3
	} else {
		t := e.typeArg(ex.Args[1])
		v = n.freshVar(name, sortOf(t))
		sv = SVal{v, t}
		guard = True
	}
	ne := n.with(name, sv)
	ne.bound = n.bound
	body := ne.bool(ex.Args[bi])
	var trigs [][]*Term
	for _, t := range ex.Args[bi+1:] {
		c, ok := t.(*ast.CallExpr)
		if !ok || exprStr(c.Fun) != "trig" {
			e.fail("trigger expected")
		}
		var g []*Term
		for _, a := range c.Args {
			g = append(g, ne.termOf(a))
		}
		trigs = append(trigs, g)
	}
	if isAll {
		b := Implies(guard, body)
		if len(trigs) == 0 {
			trigs = autoTrig(v, b)
		}
		return SVal{Forall([]*Term{v}, trigs, b), tBool}
	}
	b := And(guard, body)
	if len(trigs) == 0 {
		trigs = autoTrig(v, b)
	}
	return SVal{Exists([]*Term{v}, trigs, b), tBool}
}

// autoTrig picks candidate patterns: smallest uninterpreted / select terms in
// which v occurs directly as an index or argument.
func autoTrig(v *Term, b *Term) [][]*Term {
	var out [][]*Term
	seen := map[*Term]bool{}
	visited := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if visited[t] {
			return
		}
		visited[t] = true
		for _, a := range t.Args {
			walk(a)
		}
		if t.Op != "select" && t.Op != "app" || len(t.fvs) == 0 {
			return
		}
		if t.Op == "app" && t.Name == "ix" {
			return
		}
		if len(t.fvs) != 1 || t.fvs[0] != v {
			return
		}
		direct := false
		for _, a := range t.Args {
			if a == v || (a.Op == "app" && a.Name == "ix" && a.Args[1] == v) {
				direct = true
			}
		}
		if direct && !seen[t] && !hasInterp(t) {
			seen[t] = true
			out = append(out, []*Term{t})
		}
	}
	walk(b)
	return out
}

// hasInterp: arithmetic / boolean structure inside a would-be pattern.
func hasInterp(t *Term) bool {
	return hasSub(t, func(s *Term) bool {
		switch s.Op {
		case "+", "-", "*", "ite", "and", "or", "not", "=>", "=", "<", "<=", "forall", "exists":
			return len(s.fvs) > 0 || s.Op == "ite" || s.Sort == SBool
		}
		return false
	})
}

func (e *SEnv) callExpr(ex *ast.CallExpr) SVal {
	fn := exprStr(ex.Fun)
	arg := func(i int) SVal { return e.eval(ex.Args[i]) }
	term := func(i int) *Term { return e.termOf(ex.Args[i]) }
	need := func(n int) {
		if len(ex.Args) != n {
			e.fail("%s: %d arguments expected", fn, n)
		}
	}
	switch fn {
	case "old":
		need(1)
		n := *e
		if e.old == nil {
			e.fail("old() not available here")
		}
		n.h = e.old
		return n.eval(ex.Args[0])
	case "entry":
		need(1)
		n := *e
		if e.loopEntry == nil {
			e.fail("entry() outside a loop hint")
		}
		n.h = e.loopEntry
		return n.eval(ex.Args[0])
	case "lastresult":
		// a result of the last call of a contract on this path
		ri := 0
		if len(ex.Args) == 2 {
			ri, _ = strconv.Atoi(exprStr(ex.Args[1]))
		} else {
			need(1)
		}
		name, err := strconv.Unquote(exprStr(ex.Args[0]))
		if err != nil {
			return e.fail("lastresult takes the name of a function")
		}
		rk := name
		if ri > 0 {
			rk = fmt.Sprintf("%s#%d", name, ri)
		}
		if v, ok := e.h.st.lastRes[rk]; ok {
			return v
		}
		var sig *types.Signature
		if f := e.x.p.byName[name]; f != nil {
			sig = f.Signature
		} else {
			sig = e.x.p.ifaceMethod(name)
		}
		if sig == nil || sig.Results().Len() <= ri {
			return e.fail("lastresult: no function %s with a result %d", name, ri)
		}
		t := sig.Results().At(ri).Type()
		if e.h.st.looped {
			// a loop may have called it
			v := SVal{e.h.st.freshVal(t, "last"), t}
			e.h.st.lastRes[rk] = v
			return v
		}
		return SVal{zeroVal(t), t}
	case "lastkey", "lastpos":
		// the enumeration of the last map range on this path
		need(1)
		var it *iterState
		last := -1
		for id, c := range e.h.st.iters {
			if id > last {
				it, last = c, id
			}
		}
		if it == nil {
			return e.fail("no map was ranged over")
		}
		if fn == "lastkey" {
			return SVal{App(it.keyFn, e.x.keySort(it.mapT.Key()), term(0)), it.mapT.Key()}
		}
		return SVal{App(it.posFn, SInt, term(0)), tInt}
	case "iterkey", "iterpos":
		need(1)
		it := e.iters[int(e.vars["iterid"].V.(*Term).Val.Int64())]
		if fn == "iterkey" {
			return SVal{App(it.keyFn, e.x.keySort(it.mapT.Key()), term(0)), it.mapT.Key()}
		}
		return SVal{App(it.posFn, SInt, term(0)), tInt}
	case "imp":
		need(2)
		a := e.bool(ex.Args[0])
		if a.isFalse() {
			return SVal{True, tBool}
		}
		return SVal{Implies(a, e.bool(ex.Args[1])), tBool}
	case "iff":
		need(2)
		return SVal{Eq(e.bool(ex.Args[0]), e.bool(ex.Args[1])), tBool}
	case "ite":
		need(3)
		c := e.bool(ex.Args[0])
		a, b := arg(1), arg(2)
		return SVal{Ite(c, asTerm(a.V), asTerm(b.V)), a.T}
	case "forall":
		return e.quant(ex, true, true)
	case "exists":
		return e.quant(ex, false, true)
	case "all":
		return e.quant(ex, true, false)
	case "some":
		return e.quant(ex, false, false)
	case "len":
		need(1)
		v := arg(0)
		switch u := underlying(v.T).(type) {
		case *types.Slice:
			return SVal{v.V.(*Comp).F[2], tInt}
		case *types.Map:
			d, _ := e.x.mapKeys(u)
			return SVal{cardT(Select(e.read(d), v.V.(*Term))), tInt}
		case *types.Basic:
			return SVal{SLen(v.V.(*Term)), tInt}
		}
		return e.fail("len of %s", v.T)
	case "box":
		need(1)
		v := arg(0)
		return SVal{e.x.box(v.V.(*Term), v.T), types.NewInterfaceType(nil, nil)}
	case "has":
		need(2)
		v := arg(0)
		if a, ok := v.V.(*Addr); ok {
			dk, _, base := e.x.syncMapKeys(a)
			return SVal{Select(Select(e.read(dk), base), term(1)), tBool}
		}
		if u, ok := underlying(v.T).(*types.Map); ok {
			d, _ := e.x.mapKeys(u)
			return SVal{Select(Select(e.read(d), v.V.(*Term)), term(1)), tBool}
		}
		return SVal{Select(v.V.(*Term), term(1)), tBool}
	case "dom":
		need(1)
		v := arg(0)
		if a, ok := v.V.(*Addr); ok {
			dk, _, base := e.x.syncMapKeys(a)
			return SVal{Select(e.read(dk), base), &ArrT{types.NewInterfaceType(nil, nil), tBool}}
		}
		u, ok := underlying(v.T).(*types.Map)
		if !ok {
			e.fail("dom of %s", v.T)
		}
		d, _ := e.x.mapKeys(u)
		return SVal{Select(e.read(d), v.V.(*Term)), &ArrT{u.Key(), tBool}}
	case "vals":
		need(1)
		v := arg(0)
		if a, ok := v.V.(*Addr); ok {
			_, vk, base := e.x.syncMapKeys(a)
			return SVal{Select(e.read(vk), base), &ArrT{types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil)}}
		}
		u := underlying(v.T).(*types.Map)
		_, vs := e.x.mapKeys(u)
		return SVal{Select(e.read(vs[0]), v.V.(*Term)), &ArrT{u.Key(), u.Elem()}}
	case "elems":
		need(1)
		v := arg(0)
		u := underlying(v.T).(*types.Slice)
		ks := e.x.leafKeys(e.x.elemKey(u.Elem()), u.Elem(), 2)
		return SVal{Select(e.read(ks[0]), v.V.(*Comp).F[0].(*Term)), &ArrT{tInt, u.Elem()}}
	case "card":
		need(1)
		return SVal{cardT(term(0)), tInt}
	case "store":
		need(3)
		a := arg(0)
		return SVal{Store(a.V.(*Term), term(1), term(2)), a.T}
	case "emptyset":
		return SVal{ConstArr(ArrSort(SStr, SBool), False), &ArrT{tString, tBool}}
	case "is":
		need(2)
		v := term(0)
		return SVal{e.x.hasTypePure(e.h.st, v, e.ptrTo(e.typeArg(ex.Args[1]))), tBool}
	case "as":
		need(2)
		v := arg(0)
		t := e.ptrTo(e.typeArg(ex.Args[1]))
		if _, ok := underlying(t).(*types.Basic); ok {
			return SVal{e.x.unbox(v.V.(*Term), t), t}
		}
		return SVal{v.V, t}
	case "asref":
		need(2)
		return SVal{arg(0).V, e.typeArg(ex.Args[1])}
	case "fresh":
		need(1)
		v := arg(0)
		var t *Term
		if c, ok := v.V.(*Comp); ok {
			t = c.F[0].(*Term)
		} else {
			t = asTerm(v.V)
		}
		return SVal{And(Le(e.old.A, t), Lt(t, e.h.A)), tBool}
	case "mention": // true; makes the terms available to the prover
		var ts []*Term
		for i := range ex.Args {
			t := touch(term(i))
			touchAxiom(t)
			ts = append(ts, t)
		}
		return SVal{And(ts...), tBool}
	case "isold":
		need(1)
		r := memRef(arg(0))
		return SVal{And(Le(Zero, r), Lt(r, e.old.A)), tBool}
	case "nonew": // no object of the type has been created
		need(1)
		id := IntT(int64(e.x.p.typeID(e.typeArg(ex.Args[0]))))
		o := Var("nn", SInt)
		tg := App("tag", SInt, o)
		return SVal{Forall([]*Term{o}, [][]*Term{{tg}}, Implies(And(Le(e.old.A, o), Lt(o, e.h.A)), Neq(tg, id))), tBool}
	case "allocated":
		need(1)
		return SVal{And(Lt(Zero, term(0)), Lt(term(0), e.h.A)), tBool}
	case "errIs":
		need(2)
		return SVal{And(Neq(term(0), Zero), App("errIs", SBool, term(0), term(1))), tBool}
	case "itoa":
		return SVal{itoaT(term(0)), tString}
	case "isint":
		return SVal{App("atoi_ok", SBool, term(0)), tBool}
	case "intval":
		return SVal{App("atoi_val", SInt, term(0)), tInt}
	case "lower":
		return SVal{lowerT(term(0)), tString}
	case "strlt": // lexical order of byte strings (axiom strlt)
		need(2)
		return SVal{App("strlt", SBool, term(0), term(1)), tBool}
	case "sdiff": // first position where two strings differ, or the length of the shorter
		need(2)
		return SVal{App("sdiff", SInt, term(0), term(1)), tInt}
	case "indexbyte":
		// first position >= from of the byte, or -1
		need(3)
		return SVal{App("idxbyte", SInt, term(0), term(1), term(2)), tInt}
	case "heapof":
		// the current content of a scalar field, as a map from objects
		need(2)
		tn, _ := strconv.Unquote(ex.Args[0].(*ast.BasicLit).Value)
		fnm, _ := strconv.Unquote(ex.Args[1].(*ast.BasicLit).Value)
		t := e.x.p.lookupType(tn)
		if t == nil {
			return e.fail("unknown type %s", tn)
		}
		for _, g := range e.x.sp.ghostFields(structKey(t)) {
			if g.name == fnm {
				e.x.sp.regGhost(e.x, g)
				return SVal{e.read(g.key), &ArrT{e.x.sp.parseType("ref"), g.T}}
			}
		}
		if u, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == fnm {
					ks := e.x.leafKeys(structKey(t)+"."+fnm, u.Field(i).Type(), 1)
					if len(ks) == 1 {
						return SVal{e.read(ks[0]), &ArrT{e.x.sp.parseType("ref"), u.Field(i).Type()}}
					}
				}
			}
		}
		return e.fail("heapof %s.%s", tn, fnm)
	case "idx":
		// a position of a reference in a slice, or -1
		need(2)
		v := arg(0)
		u, ok := underlying(v.T).(*types.Slice)
		if !ok {
			return e.fail("idx of %s", v.T)
		}
		c := v.V.(*Comp)
		ks := e.x.leafKeys(e.x.elemKey(u.Elem()), u.Elem(), 2)
		return SVal{App("idxref", SInt, Select(e.read(ks[0]), c.F[0].(*Term)), c.F[1].(*Term), c.F[2].(*Term), term(1)), tInt}
	case "find":
		// find(h, s, n, k): a position p < n with h[s[p]] == k, or -1
		need(4)
		v := arg(1)
		u, ok := underlying(v.T).(*types.Slice)
		if !ok {
			return e.fail("find in %s", v.T)
		}
		c := v.V.(*Comp)
		ct := c.F[0].(*Term)
		if !strings.HasPrefix(ct.Sort, "(Array") {
			ks := e.x.leafKeys(e.x.elemKey(u.Elem()), u.Elem(), 2)
			ct = Select(e.read(ks[0]), ct)
		}
		return SVal{App("findkey", SInt, term(0), ct, c.F[1].(*Term), term(2), term(3)), tInt}
	case "fnv":
		return SVal{App("fnv64", SInt, term(0)), tInt}
	case "bytestr":
		v := arg(0)
		c := v.V.(*Comp)
		e.x.regKey("[]uint8", SInt, 2, false, false, types.Typ[types.Uint8])
		a := Select(e.read("[]uint8"), c.F[0].(*Term))
		return SVal{SOfBytes(a, c.F[1].(*Term), c.F[2].(*Term)), tString}
	case "held":
		need(1) // lock state of a mutex field: 0 free, -1 exclusive, n>0 readers
		v := arg(0)
		a, ok := v.V.(*Addr)
		if t, isT := v.V.(*Term); isT {
			e.x.regKey("sync.lock#lk", SInt, 1, false, false, nil)
			return SVal{Select(e.read("sync.lock#lk"), t), tInt}
		}
		if !ok {
			e.fail("held: lock field expected")
		}
		k := a.Key + "#lk"
		e.x.regKey(k, SInt, 1, false, false, nil)
		return SVal{Select(e.read(k), a.Base), tInt}
	case "ghost":
		// ghost("name", ref): global ghost array
		need(2)
		nm, _ := strconv.Unquote(ex.Args[0].(*ast.BasicLit).Value)
		g := e.x.sp.globalGhost(nm)
		if g == nil {
			e.fail("unknown ghost %s", nm)
		}
		e.x.sp.regGhost(e.x, g)
		return SVal{Select(e.read(g.key), memRef(arg(1))), g.T}
	case "uf":
		// uf("name", T, args...): uninterpreted function
		nm, _ := strconv.Unquote(ex.Args[0].(*ast.BasicLit).Value)
		t := e.typeArg(ex.Args[1])
		var as []*Term
		for i := 2; i < len(ex.Args); i++ {
			as = append(as, term(i))
		}
		return SVal{App("uf!"+nm, sortOf(t), as...), t}
	case "errmsg":
		return SVal{App("errmsg", SStr, term(0)), tString}
	}
	if m, ok := e.x.sp.macros[fn]; ok {
		var as []SVal
		for i := range ex.Args {
			as = append(as, arg(i))
		}
		return e.macro(m, as)
	}
	if t, ok := e.x.sp.attrs[fn]; ok {
		need(1)
		if sl, ok := underlying(t).(*types.Slice); ok {
			return SVal{snapAttr(fn, sl, term(0)), t}
		}
		return SVal{App("attr!"+fn, sortOf(t), term(0)), t}
	}
	if f, ok := e.x.sp.folds[fn]; ok {
		var as []SVal
		for i := range ex.Args {
			as = append(as, arg(i))
		}
		return e.fold(f, as)
	}
	return e.fail("unknown function %s", fn)
}

// memRef: the reference of a value; for a slice, the memory it refers to.
func memRef(v SVal) *Term {
	if c, ok := v.V.(*Comp); ok && len(c.F) == 4 {
		return c.F[0].(*Term)
	}
	return asTerm(v.V)
}

func (sp *Specs) globalGhost(name string) *GhostField {
	for _, gs := range sp.ghosts {
		for _, g := range gs {
			if g.name == name || g.typ+"."+g.name == name {
				return g
			}
		}
	}
	return nil
}

func (e *SEnv) ptrTo(t types.Type) types.Type {
	if _, ok := t.Underlying().(*types.Struct); ok {
		return types.NewPointer(t)
	}
	return t
}

func lowerT(t *Term) *Term {
	if s, ok := litOf(t); ok {
		return StrLit(strings.ToLower(s))
	}
	return App("lower", SStr, t)
}

// hasTypePure is hasType without path-dependent shortcuts on nil-ness.
func (x *Exec) hasTypePure(st *State, v *Term, t types.Type) *Term {
	if len(v.fvs) > 0 {
		if it, ok := underlying(t).(*types.Interface); ok {
			var alts []*Term
			for _, im := range x.p.implementers(it) {
				alts = append(alts, Eq(App("tag", SInt, v), IntT(int64(x.p.typeID(im)))))
			}
			return And(Neq(v, Zero), Or(alts...))
		}
		return And(Neq(v, Zero), Eq(App("tag", SInt, v), IntT(int64(x.p.typeID(t)))))
	}
	return x.hasType(st, v, t)
}

// fold: recursive specification function over an integer; F(.., lo) = base,
// F(.., i) = step(i) for i > lo, unfolded one level at each occurrence.
// The last parameter is the recursion argument.
func (e *SEnv) fold(f *Fold, args []SVal) SVal {
	if len(args) != len(f.params) {
		return e.fail("fold %s: %d args", f.name, len(args))
	}
	rt := e.x.sp.parseType(f.ret)
	var ts []*Term
	for i, a := range args {
		if c, ok := a.V.(*Comp); ok && len(c.F) == 4 {
			// slices are passed as content, offset
			u := underlying(a.T).(*types.Slice)
			ks := e.x.leafKeys(e.x.elemKey(u.Elem()), u.Elem(), 2)
			ct := c.F[0].(*Term)
			if !strings.HasPrefix(ct.Sort, "(Array") {
				ct = Select(e.read(ks[0]), ct)
			}
			ts = append(ts, ct, c.F[1].(*Term))
			continue
		}
		_ = i
		ts = append(ts, asTerm(a.V))
	}
	mkApp := func(last *Term) *Term {
		n := append([]*Term(nil), ts...)
		n[len(n)-1] = last
		return App("fold!"+f.name, sortOf(rt), n...)
	}
	i := ts[len(ts)-1]
	t := mkApp(i)
	if f.is == nil && e.x.foldExt == nil {
		e.x.foldExt = map[string]bool{}
	}
	if f.is == nil && len(args) == 2 && len(ts) == 3 && !e.x.foldExt[f.name] {
		// extensionality: equal elements give equal folds
		e.x.foldExt[f.name] = true
		foldExtAxiom("fold!"+f.name, ts[0].Sort, sortOf(rt))
	}
	if e.facts != nil && len(t.fvs) == 0 && e.depth < 3 {
		// unfold
		n := *e
		n.depth++
		n.facts = nil
		n.vars = map[string]SVal{}
		for k, v := range e.vars {
			n.vars[k] = v
		}
		for k, p := range f.params {
			n.vars[p] = args[k]
		}
		if f.is != nil {
			*e.facts = append(*e.facts, Eq(t, asTerm(n.eval(f.is).V)))
			return SVal{t, rt}
		}
		last := f.params[len(f.params)-1]
		for _, d := range []int64{-1, 0, 1} {
			iv := Add(i, IntT(d))
			n.vars[last] = SVal{iv, tInt}
			n.vars["prev"] = SVal{mkApp(Sub(iv, One)), rt}
			*e.facts = append(*e.facts,
				Implies(Le(iv, Zero), Eq(mkApp(iv), asTerm(n.eval(f.base).V))),
				Implies(Lt(Zero, iv), Eq(mkApp(iv), asTerm(n.eval(f.step).V))))
		}
	}
	return SVal{t, rt}
}

var foldExtMu sync.Mutex
var foldExtDone = map[string]bool{}

// foldExtAxiom: two folds over the same number of elements agree or their
// sequences differ at some position.
func foldExtAxiom(fn string, as Sort, rs Sort) {
	foldExtMu.Lock()
	defer foldExtMu.Unlock()
	if foldExtDone[fn] {
		return
	}
	foldExtDone[fn] = true
	a, b := Var("fa", as), Var("fb", as)
	o, p, n := Var("fo", SInt), Var("fp", SInt), Var("fn", SInt)
	l, r := App(fn, rs, a, o, n), App(fn, rs, b, p, n)
	w := App("fw!"+fn, SInt, a, o, b, p, n)
	gdecls.fn("fw!"+fn, SInt, as, SInt, as, SInt, SInt)
	gdecls.fn(fn, rs, as, SInt, SInt)
	gdecls.axiom(fn, Forall([]*Term{a, o, b, p, n}, [][]*Term{{l, r}}, Or(Eq(l, r),
		And(Le(Zero, w), Lt(w, n), Neq(Select(a, ix(o, w)), Select(b, ix(p, w)))))))
}

var _ = constant.MakeInt64

var touchMu sync.Mutex
var touchDone = map[string]bool{}

func touchAxiom(t *Term) {
	touchMu.Lock()
	defer touchMu.Unlock()
	if touchDone[t.Op+t.Name] {
		return
	}
	touchDone[t.Op+t.Name] = true
	v := Var("tv", t.Args[0].Sort)
	a := touch(v)
	gdecls.fn(t.Name, SBool, t.Args[0].Sort)
	gdecls.axiom(t.Name, Forall([]*Term{v}, [][]*Term{{a}}, a))
}
