package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
)

var qids = os.Getenv("GVC_QID") != ""

// ---------------------------------------------------------------- sorts

type Sort = string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SReal Sort = "Real"
)

func ArrSort(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

// elemSort returns the range sort of an array sort.
func elemSort(s Sort) Sort {
	k, v := splitArr(s)
	_ = k
	return v
}

func splitArr(s Sort) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	body := s[len("(Array ") : len(s)-1]
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

// ---------------------------------------------------------------- terms

type Term struct {
	Op   string // "sym","int","true","false","app","forall","exists","var", or builtin
	Name string // symbol / function / var name
	Val  *big.Int
	Args []*Term
	Sort Sort
	// quantifiers
	Vars  []*Term
	Trigs [][]*Term
	id    int64
	fvs   []*Term // free bound variables
	size  int
}

type internTable struct {
	mu sync.Mutex
	m  map[string]*Term
	n  int64
}

var interns [64]internTable

var nextID struct {
	sync.Mutex
	n int64
}

func fnvHash(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	return h
}

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	if t.Val != nil {
		sb.WriteString(t.Val.String())
	}
	sb.WriteByte('|')
	sb.WriteString(t.Sort)
	for _, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.FormatInt(a.id, 36))
	}
	for _, a := range t.Vars {
		sb.WriteByte(';')
		sb.WriteString(strconv.FormatInt(a.id, 36))
	}
	for _, g := range t.Trigs {
		sb.WriteByte('{')
		for _, a := range g {
			sb.WriteByte(',')
			sb.WriteString(strconv.FormatInt(a.id, 36))
		}
	}
	k := sb.String()
	tab := &interns[fnvHash(k)&63]
	tab.mu.Lock()
	defer tab.mu.Unlock()
	if tab.m == nil {
		tab.m = map[string]*Term{}
	}
	if r, ok := tab.m[k]; ok {
		return r
	}
	nextID.Lock()
	nextID.n++
	t.id = nextID.n
	nextID.Unlock()
	t.size = 1
	if t.Op == "var" {
		t.fvs = []*Term{t}
	}
	addFV := func(a *Term) {
	outer:
		for _, v := range a.fvs {
			for _, b := range t.Vars {
				if b == v {
					continue outer
				}
			}
			for _, b := range t.fvs {
				if b == v {
					continue outer
				}
			}
			t.fvs = append(t.fvs, v)
		}
	}
	for _, a := range t.Args {
		t.size += a.size
		addFV(a)
	}
	for _, g := range t.Trigs {
		for _, a := range g {
			addFV(a)
		}
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	tab.m[k] = t
	return t
}

func Sym(name string, s Sort) *Term { return intern(&Term{Op: "sym", Name: name, Sort: s}) }
func Var(name string, s Sort) *Term { return intern(&Term{Op: "var", Name: name, Sort: s}) }
func IntT(n int64) *Term            { return intern(&Term{Op: "int", Val: big.NewInt(n), Sort: SInt}) }
func BigT(n *big.Int) *Term         { return intern(&Term{Op: "int", Val: new(big.Int).Set(n), Sort: SInt}) }

var True = intern(&Term{Op: "true", Sort: SBool})
var False = intern(&Term{Op: "false", Sort: SBool})
var Zero = IntT(0)
var One = IntT(1)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func mk(op string, s Sort, args ...*Term) *Term {
	return intern(&Term{Op: op, Sort: s, Args: args})
}

// App builds an uninterpreted application.
func App(name string, s Sort, args ...*Term) *Term {
	return intern(&Term{Op: "app", Name: name, Sort: s, Args: args})
}

func (t *Term) isInt() bool  { return t.Op == "int" }
func (t *Term) isTrue() bool { return t == True }
func (t *Term) isFalse() bool {
	return t == False
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	case "<":
		return Le(a.Args[1], a.Args[0])
	case "<=":
		return Lt(a.Args[1], a.Args[0])
	}
	return mk("not", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.Op == "false" {
			return false
		}
		if a.Op == "true" || seen[a] {
			return true
		}
		if a.Op == "and" {
			for _, b := range a.Args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.Op == "true" {
			return True
		}
		if a.Op == "false" {
			continue
		}
		bs := []*Term{a}
		if a.Op == "or" {
			bs = a.Args
		}
		for _, b := range bs {
			if seen[b] {
				continue
			}
			if seen[Not(b)] {
				return True
			}
			seen[b] = true
			out = append(out, b)
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", SBool, out...)
}

func Implies(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() {
		return True
	}
	if b.isFalse() {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == SBool {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return Not(c)
		}
	}
	return mk("ite", a.Sort, c, a, b)
}

// splitOff returns t as base + constant.
func splitOff(t *Term) (*Term, *big.Int) {
	if t.Op == "int" {
		return nil, t.Val
	}
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].Op == "int" {
		return t.Args[0], t.Args[1].Val
	}
	return t, big.NewInt(0)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts differ: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	if a.Sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return Not(b)
		}
		if b.isFalse() {
			return Not(a)
		}
	}
	if a.Sort == SInt {
		ba, oa := splitOff(a)
		bb, ob := splitOff(b)
		if ba == bb {
			return BoolT(oa.Cmp(ob) == 0)
		}
	}
	if a.Sort == SStr && a.Op == "sym" && b.Op == "sym" && strings.HasPrefix(a.Name, "lit!") && strings.HasPrefix(b.Name, "lit!") {
		return False // distinct literals (interned by content)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

// linear normal form helper: sum of terms + const
func addLin(t *Term, sign int64, m map[*Term]*big.Int, c *big.Int) {
	switch {
	case t.Op == "int":
		x := new(big.Int).Mul(t.Val, big.NewInt(sign))
		c.Add(c, x)
	case t.Op == "+":
		for _, a := range t.Args {
			addLin(a, sign, m, c)
		}
	case t.Op == "-" && len(t.Args) == 2:
		addLin(t.Args[0], sign, m, c)
		addLin(t.Args[1], -sign, m, c)
	case t.Op == "-" && len(t.Args) == 1:
		addLin(t.Args[0], -sign, m, c)
	case t.Op == "*" && t.Args[0].Op == "int":
		k := new(big.Int).Mul(t.Args[0].Val, big.NewInt(sign))
		if m[t.Args[1]] == nil {
			m[t.Args[1]] = big.NewInt(0)
		}
		m[t.Args[1]] = new(big.Int).Add(m[t.Args[1]], k)
	default:
		if m[t] == nil {
			m[t] = big.NewInt(0)
		}
		m[t] = new(big.Int).Add(m[t], big.NewInt(sign))
	}
}

func fromLin(m map[*Term]*big.Int, c *big.Int) *Term {
	var keys []*Term
	for k, v := range m {
		if v.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	var acc *Term
	for _, k := range keys {
		v := m[k]
		var p *Term
		neg := false
		if v.Cmp(big.NewInt(1)) == 0 {
			p = k
		} else if v.Cmp(big.NewInt(-1)) == 0 {
			p = k
			neg = true
		} else {
			p = mk("*", SInt, BigT(v), k)
		}
		if acc == nil {
			if neg {
				acc = mk("-", SInt, p)
			} else {
				acc = p
			}
		} else if neg {
			acc = mk("-", SInt, acc, p)
		} else {
			acc = mk("+", SInt, acc, p)
		}
	}
	if acc == nil {
		return BigT(c)
	}
	if c.Sign() == 0 {
		return acc
	}
	return mk("+", SInt, acc, BigT(c))
}

func lin(parts ...interface{}) *Term {
	m := map[*Term]*big.Int{}
	c := big.NewInt(0)
	for i := 0; i < len(parts); i += 2 {
		addLin(parts[i].(*Term), parts[i+1].(int64), m, c)
	}
	return fromLin(m, c)
}

func Add(a, b *Term) *Term { return lin(a, int64(1), b, int64(1)) }
func Sub(a, b *Term) *Term { return lin(a, int64(1), b, int64(-1)) }
func Neg(a *Term) *Term    { return lin(a, int64(-1)) }
func Mul(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return BigT(new(big.Int).Mul(a.Val, b.Val))
	}
	if b.Op == "int" {
		a, b = b, a
	}
	if a.Op == "int" {
		m := map[*Term]*big.Int{}
		c := big.NewInt(0)
		addLin(b, 1, m, c)
		for k := range m {
			m[k] = new(big.Int).Mul(m[k], a.Val)
		}
		c = new(big.Int).Mul(c, a.Val)
		return fromLin(m, c)
	}
	return mk("*", SInt, a, b)
}

func Le(a, b *Term) *Term {
	d := Sub(a, b)
	if d.Op == "int" {
		return BoolT(d.Val.Sign() <= 0)
	}
	return mk("<=", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	d := Sub(a, b)
	if d.Op == "int" {
		return BoolT(d.Val.Sign() < 0)
	}
	return mk("<", SBool, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// distinctTerms reports whether a and b are syntactically known distinct.
func distinctTerms(a, b *Term) bool {
	e := Eq(a, b)
	if e.isFalse() {
		return true
	}
	if a.Sort == SInt {
		if knownLess(a, b) || knownLess(b, a) {
			return true
		}
	}
	return false
}

// knownLess: a is known to be a reference older than fresh reference b, via
// the allocation-bound table (a's bound symbol precedes b's base).
func knownLess(a, b *Term) bool {
	bb, ob := splitOff(b)
	if bb == nil || bb.Op != "sym" || !strings.HasPrefix(bb.Name, "A!") {
		return false
	}
	// b = A!n + k, k >= 0
	if ob.Sign() < 0 {
		return false
	}
	if a.Op == "int" {
		return a.Val.Sign() <= 0 // 0 and negative boxes are below every allocation
	}
	ba, oa := splitOff(a)
	if ba == nil {
		return false
	}
	if ba.Op == "sym" && strings.HasPrefix(ba.Name, "A!") {
		// both allocation-relative: older epoch is strictly below the newer
		// epoch's base when the newer base was introduced after the older
		// object was allocated.
		na, nb := epochNum(ba), epochNum(bb)
		_ = oa
		if na < nb {
			return true
		}
		return false
	}
	if oa.Sign() == 0 {
		if e, ok := refEpoch(a); ok {
			// a < A!e ; b >= A!nb with nb >= e
			return e <= epochNum(bb)
		}
	}
	return false
}

func epochNum(t *Term) int {
	i := strings.LastIndexByte(t.Name, '!')
	n, _ := strconv.Atoi(t.Name[i+1:])
	return n
}

// refEpoch: symbols of reference type carry their epoch bound in the name as
// suffix "@e<n>", meaning value < A!n at creation. A select from such a heap
// symbol inherits the bound.
func refEpoch(t *Term) (int, bool) {
	switch t.Op {
	case "sym":
		i := strings.LastIndex(t.Name, "@e")
		if i < 0 {
			return 0, false
		}
		n, err := strconv.Atoi(t.Name[i+2:])
		if err != nil {
			return 0, false
		}
		return n, true
	case "app":
		i := strings.LastIndex(t.Name, "@e")
		if i < 0 {
			return 0, false
		}
		n, err := strconv.Atoi(t.Name[i+2:])
		if err != nil {
			return 0, false
		}
		return n, true
	case "select":
		// Heap array H (bounded for allocated bases only): the innermost index
		// is the base object, which must itself be older than the bound.
		r := t
		for r.Op == "select" && r.Args[0].Op == "select" {
			r = r.Args[0]
		}
		return heapBound(r.Args[0], r.Args[1])
	case "ite":
		e1, ok := refEpoch(t.Args[1])
		if !ok {
			if !(t.Args[1].isInt() && t.Args[1].Val.Sign() <= 0) {
				return 0, false
			}
		}
		e2, ok := refEpoch(t.Args[2])
		if !ok {
			if !(t.Args[2].isInt() && t.Args[2].Val.Sign() <= 0) {
				return 0, false
			}
		}
		if e2 > e1 {
			e1 = e2
		}
		return e1, true
	}
	return 0, false
}

// heapBound bounds H[base] for ref valued heap arrays.
func heapBound(h, base *Term) (int, bool) {
	e := -1
	for h.Op == "store" {
		v := h.Args[2]
		for v.Op == "store" { // nested element store
			w := v.Args[2]
			if !(w.isInt() && w.Val.Sign() <= 0) {
				e1, ok := refEpoch(w)
				if !ok {
					return 0, false
				}
				if e1 > e {
					e = e1
				}
			}
			v = v.Args[0]
		}
		if v.Op == "constarr" {
			v = v.Args[0]
		}
		if !(v.isInt() && v.Val.Sign() <= 0) {
			e1, ok := refEpoch(v)
			if !ok {
				return 0, false
			}
			if e1 > e {
				e = e1
			}
		}
		h = h.Args[0]
	}
	if h.Op != "sym" {
		return 0, false
	}
	i := strings.LastIndex(h.Name, "@e")
	if i < 0 {
		return 0, false
	}
	n, err := strconv.Atoi(h.Name[i+2:])
	if err != nil {
		return 0, false
	}
	be, ok := refEpoch(base)
	if !ok {
		if base.isInt() && base.Val.Sign() <= 0 {
			be = 0
		} else {
			return 0, false
		}
	}
	if be > n {
		return 0, false
	}
	if n > e {
		e = n
	}
	return e, true
}

func Select(a, i *Term) *Term {
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if distinctTerms(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		break
	}
	return mk("select", elemSort(a.Sort), a, i)
}

func Store(a, i, v *Term) *Term {
	if elemSort(a.Sort) != v.Sort {
		panic(fmt.Sprintf("Store sort mismatch: %s into %s", v.Sort, a.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", a.Sort, a, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return mk("constarr", s, v) }

func Forall(vars []*Term, trigs [][]*Term, body *Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	t := intern(&Term{Op: "forall", Sort: SBool, Args: []*Term{body}, Vars: vars, Trigs: trigs})
	return t
}
func Exists(vars []*Term, trigs [][]*Term, body *Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	return intern(&Term{Op: "exists", Sort: SBool, Args: []*Term{body}, Vars: vars, Trigs: trigs})
}

// ---------------------------------------------------------------- subst

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return substRec(t, m, memo)
}

func substRec(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = substRec(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if t.Op == "forall" || t.Op == "exists" {
		var tr [][]*Term
		for _, g := range t.Trigs {
			var gg []*Term
			for _, x := range g {
				y := substRec(x, m, memo)
				if y != x {
					ch = true
				}
				gg = append(gg, y)
			}
			tr = append(tr, gg)
		}
		if ch {
			if t.Op == "forall" {
				r = Forall(t.Vars, tr, args[0])
			} else {
				r = Exists(t.Vars, tr, args[0])
			}
		}
	} else if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		a := args[0]
		for _, b := range args[1:] {
			a = Add(a, b)
		}
		return a
	case "-":
		if len(args) == 1 {
			return Neg(args[0])
		}
		return Sub(args[0], args[1])
	case "*":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	}
	return intern(&Term{Op: t.Op, Name: t.Name, Sort: t.Sort, Args: args})
}

// ---------------------------------------------------------------- printing

func smtName(s string) string {
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("~!@$%^&*_-+=<>.?/", c) >= 0) {
			ok = false
			break
		}
	}
	if ok && len(s) > 0 && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.ReplaceAll(strings.ReplaceAll(s, "|", "/"), "\\", "/") + "|"
}

func (t *Term) String() string {
	var sb strings.Builder
	printTerm(&sb, t, nil)
	return sb.String()
}

func printTerm(sb *strings.Builder, t *Term, shared map[*Term]string) {
	if shared != nil {
		if n, ok := shared[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.Op {
	case "sym", "var":
		sb.WriteString(smtName(t.Name))
	case "int":
		if t.Val.Sign() < 0 {
			sb.WriteString("(- ")
			sb.WriteString(new(big.Int).Neg(t.Val).String())
			sb.WriteString(")")
		} else {
			sb.WriteString(t.Val.String())
		}
	case "true", "false":
		sb.WriteString(t.Op)
	case "constarr":
		sb.WriteString("((as const " + t.Sort + ") ")
		printTerm(sb, t.Args[0], shared)
		sb.WriteString(")")
	case "forall", "exists":
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			sb.WriteString("(" + smtName(v.Name) + " " + v.Sort + ")")
		}
		sb.WriteString(") ")
		if len(t.Trigs) > 0 {
			sb.WriteString("(! ")
		}
		printTerm(sb, t.Args[0], shared)
		if len(t.Trigs) > 0 {
			for _, g := range t.Trigs {
				sb.WriteString(" :pattern (")
				for i, x := range g {
					if i > 0 {
						sb.WriteByte(' ')
					}
					printTerm(sb, x, shared)
				}
				sb.WriteString(")")
			}
			if strings.HasPrefix(t.Vars[0].Name, "heavy!") {
				sb.WriteString(" :weight 6")
			}
			if qids {
				fmt.Fprintf(sb, " :qid q%d", t.id)
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		op := t.Op
		if op == "app" {
			op = smtName(t.Name)
			if len(t.Args) == 0 {
				sb.WriteString(op)
				return
			}
		}
		sb.WriteString("(" + op)
		for _, a := range t.Args {
			sb.WriteByte(' ')
			printTerm(sb, a, shared)
		}
		sb.WriteString(")")
	}
}

// collect visits every distinct subterm once.
func collect(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		collect(a, seen, f)
	}
	for _, g := range t.Trigs {
		for _, x := range g {
			collect(x, seen, f)
		}
	}
	f(t)
}

func hasSub(t *Term, pred func(*Term) bool) bool {
	found := false
	collect(t, map[*Term]bool{}, func(x *Term) {
		if pred(x) {
			found = true
		}
	})
	return found
}
