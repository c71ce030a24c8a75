package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value: *Term (scalar, reference), *Comp (struct, slice,
// tuple), *Addr (pointer to an interior location), *FuncVal, *IterVal.
type Val interface{}

type Comp struct {
	T types.Type
	F []Val
}

type Addr struct {
	Key  string // heap key prefix
	Base *Term
	Idx  *Term // nil unless an element location
	T    types.Type
}

type FuncVal struct {
	Fn   *ssa.Function
	Bind []Val
}

type IterVal struct {
	id int
}

const maxLen = int64(1) << 47

// ArrT is the type of specification arrays (ghost sequences, map domains).
type ArrT struct{ K, V types.Type }

func (a *ArrT) Underlying() types.Type { return a }
func (a *ArrT) String() string         { return fmt.Sprintf("[%s]%s", a.K, a.V) }

func isOpaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	return n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func underlying(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// sortOf gives the sort of a scalar type.
func sortOf(t types.Type) Sort {
	switch u := underlying(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return SInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return SInt
	case *ArrT:
		return ArrSort(sortOf(u.K), sortOf(u.V))
	}
	panic(unsupported{fmt.Sprintf("sort of %s", t)})
}

func isRefType(t types.Type) bool {
	switch underlying(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}
func isIfaceType(t types.Type) bool {
	_, ok := underlying(t).(*types.Interface)
	return ok
}

func isScalar(t types.Type) bool {
	switch underlying(t).(type) {
	case *types.Struct, *types.Slice, *types.Tuple, *types.Array:
		return false
	}
	return true
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return "unsupported: " + u.msg }

// leaf describes one scalar component of a type.
type leaf struct {
	suffix string
	sort   Sort
	typ    types.Type // nil for slice header parts
	kind   byte       // 'a','o','n','c' slice parts; 0 scalar
}

func leaves(t types.Type) []leaf {
	switch u := underlying(t).(type) {
	case *types.Struct:
		if isOpaqueStruct(t) {
			return nil
		}
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				l.suffix = "." + f.Name() + l.suffix
				out = append(out, l)
			}
		}
		return out
	case *types.Slice:
		return []leaf{{"#a", SInt, nil, 'a'}, {"#o", SInt, nil, 'o'}, {"#n", SInt, nil, 'n'}, {"#c", SInt, nil, 'c'}}
	case *types.Array:
		return nil
	case *types.Tuple:
		panic(unsupported{"tuple leaves"})
	}
	return []leaf{{"", sortOf(t), t, 0}}
}

// build reconstructs a value of type t from its leaves.
func build(t types.Type, get func(suffix string, l leaf) *Term) Val {
	return buildAt(t, "", get)
}

func buildAt(t types.Type, pre string, get func(string, leaf) *Term) Val {
	switch u := underlying(t).(type) {
	case *types.Struct:
		c := &Comp{T: t}
		if isOpaqueStruct(t) {
			return c
		}
		for i := 0; i < u.NumFields(); i++ {
			c.F = append(c.F, buildAt(u.Field(i).Type(), pre+"."+u.Field(i).Name(), get))
		}
		return c
	case *types.Slice:
		c := &Comp{T: t}
		for _, l := range leaves(t) {
			c.F = append(c.F, get(pre+l.suffix, l))
		}
		return c
	case *types.Array:
		return &Comp{T: t}
	case *types.Tuple:
		c := &Comp{T: t}
		for i := 0; i < u.Len(); i++ {
			c.F = append(c.F, buildAt(u.At(i).Type(), fmt.Sprintf("%s.%d", pre, i), get))
		}
		return c
	}
	return get(pre, leaf{"", sortOf(t), t, 0})
}

// flatten lists the leaf terms of a value, parallel to leaves(t).
func flatten(v Val, t types.Type) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *Comp:
		switch u := underlying(t).(type) {
		case *types.Struct:
			var out []*Term
			if isOpaqueStruct(t) {
				return nil
			}
			for i := 0; i < u.NumFields(); i++ {
				out = append(out, flatten(x.F[i], u.Field(i).Type())...)
			}
			return out
		case *types.Tuple:
			var out []*Term
			for i := 0; i < u.Len(); i++ {
				out = append(out, flatten(x.F[i], u.At(i).Type())...)
			}
			return out
		case *types.Array:
			return nil
		default:
			var out []*Term
			for _, f := range x.F {
				out = append(out, f.(*Term))
			}
			return out
		}
	case *FuncVal:
		return []*Term{funcRef(x)}
	}
	panic(unsupported{fmt.Sprintf("flatten %T", v)})
}

// function values as references: constants per function.
var funcRefs = map[string]*FuncVal{}

func funcRef(f *FuncVal) *Term {
	return Sym("fn!"+f.Fn.String(), SInt)
}

// zeroVal is the zero value of a type.
func zeroVal(t types.Type) Val {
	switch u := underlying(t).(type) {
	case *types.Struct:
		c := &Comp{T: t}
		if isOpaqueStruct(t) {
			return c
		}
		for i := 0; i < u.NumFields(); i++ {
			c.F = append(c.F, zeroVal(u.Field(i).Type()))
		}
		return c
	case *types.Slice:
		return &Comp{T: t, F: []Val{Zero, Zero, Zero, Zero}}
	case *types.Array:
		return &Comp{T: t}
	case *types.Tuple:
		c := &Comp{T: t}
		for i := 0; i < u.Len(); i++ {
			c.F = append(c.F, zeroVal(u.At(i).Type()))
		}
		return c
	}
	return zeroTerm(sortOf(t))
}

func zeroTerm(s Sort) *Term {
	switch s {
	case SBool:
		return False
	case SStr:
		return StrLit("")
	case SInt:
		return Zero
	case SReal:
		return mk("realconst", SReal)
	}
	if strings.HasPrefix(s, "(Array") {
		return ConstArr(s, zeroTerm(elemSort(s)))
	}
	panic("zeroTerm " + s)
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := underlying(t).(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	pw := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	m1 := func(x *big.Int) *big.Int { return new(big.Int).Sub(x, big.NewInt(1)) }
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return new(big.Int).Neg(pw(63)), m1(pw(63)), true
	case types.Int32, types.UntypedRune:
		return new(big.Int).Neg(pw(31)), m1(pw(31)), true
	case types.Int16:
		return new(big.Int).Neg(pw(15)), m1(pw(15)), true
	case types.Int8:
		return new(big.Int).Neg(pw(7)), m1(pw(7)), true
	case types.Uint, types.Uint64, types.Uintptr:
		return big.NewInt(0), m1(pw(64)), true
	case types.Uint32:
		return big.NewInt(0), m1(pw(32)), true
	case types.Uint16:
		return big.NewInt(0), m1(pw(16)), true
	case types.Uint8:
		return big.NewInt(0), m1(pw(8)), true
	}
	return nil, nil, false
}

// ---------------------------------------------------------------- strings

var gdecls = newDecls()

func StrLit(s string) *Term {
	name := "lit!" + fmt.Sprintf("%q", s)
	t := Sym(name, SStr)
	litMu.Lock()
	defer litMu.Unlock()
	if _, ok := litVal[t]; !ok {
		litVal[t] = s
		ax := []*Term{Eq(App("slen", SInt, t), IntT(int64(len(s))))}
		n := len(s)
		if n > 64 {
			n = 64
		}
		for i := 0; i < n; i++ {
			ax = append(ax, Eq(App("sat", SInt, t, IntT(int64(i))), IntT(int64(s[i]))))
		}
		gdecls.axiom(name, And(ax...))
	}
	return t
}

func litOf(t *Term) (string, bool) {
	litMu.Lock()
	defer litMu.Unlock()
	s, ok := litVal[t]
	return s, ok
}

func SLen(s *Term) *Term {
	if l, ok := litOf(s); ok {
		return IntT(int64(len(l)))
	}
	if s.Op == "app" && s.Name == "sconcat" {
		return Add(SLen(s.Args[0]), SLen(s.Args[1]))
	}
	if s.Op == "app" && s.Name == "sofb" {
		return s.Args[2]
	}
	return App("slen", SInt, s)
}

func SAt(s, i *Term) *Term {
	if l, ok := litOf(s); ok && i.isInt() && i.Val.IsInt64() {
		k := i.Val.Int64()
		if k >= 0 && k < int64(len(l)) {
			return IntT(int64(l[k]))
		}
	}
	return App("sat", SInt, s, i)
}

func SConcat(a, b *Term) *Term {
	la, oka := litOf(a)
	lb, okb := litOf(b)
	if oka && la == "" {
		return b
	}
	if okb && lb == "" {
		return a
	}
	if oka && okb {
		return StrLit(la + lb)
	}
	if a.Op == "app" && a.Name == "sconcat" {
		return SConcat(a.Args[0], SConcat(a.Args[1], b))
	}
	if oka && b.Op == "app" && b.Name == "sconcat" {
		if l2, ok := litOf(b.Args[0]); ok {
			return SConcat(StrLit(la+l2), b.Args[1])
		}
	}
	return App("sconcat", SStr, a, b)
}

func SSub(s, i, j *Term) *Term {
	if l, ok := litOf(s); ok && i.isInt() && j.isInt() {
		a, b := i.Val.Int64(), j.Val.Int64()
		if 0 <= a && a <= b && b <= int64(len(l)) {
			return StrLit(l[a:b])
		}
	}
	if i == Zero && j == SLen(s) {
		return s
	}
	if i == j {
		return StrLit("")
	}
	return App("ssub", SStr, s, i, j)
}

// SOfBytes: string made of array contents a[off..off+n).
func SOfBytes(a, off, n *Term) *Term {
	if a.Op == "app" && a.Name == "bytesof" && off == Zero && n == SLen(a.Args[0]) {
		return a.Args[0]
	}
	if a.Op == "app" && a.Name == "bytesof" {
		return SSub(a.Args[0], off, Add(off, n))
	}
	return App("sofb", SStr, a, off, n)
}

func BytesOf(s *Term) *Term {
	return App("bytesof", ArrSort(SInt, SInt), s)
}

func initStrAxioms() {
	d := gdecls
	s, s2 := Var("s", SStr), Var("s2", SStr)
	i, j, k := Var("i", SInt), Var("j", SInt), Var("k", SInt)
	A := Var("a", ArrSort(SInt, SInt))
	slen := func(x *Term) *Term { return App("slen", SInt, x) }
	sat := func(x, y *Term) *Term { return App("sat", SInt, x, y) }
	empty := StrLit("")
	d.fn("slen", SInt, SStr)
	d.axiom("slen", Forall([]*Term{s}, [][]*Term{{slen(s)}}, And(Le(Zero, slen(s)), Implies(Eq(slen(s), Zero), Eq(s, empty)))))
	d.fn("sat", SInt, SStr, SInt)
	d.axiom("sat", Forall([]*Term{s, i}, [][]*Term{{sat(s, i)}}, And(Le(Zero, sat(s, i)), Le(sat(s, i), IntT(255)))))
	cc := App("sconcat", SStr, s, s2)
	d.fn("sconcat", SStr, SStr, SStr)
	d.axiom("sconcat", Forall([]*Term{s, s2}, [][]*Term{{cc}}, And(
		Eq(slen(cc), Add(slen(s), slen(s2))),
		Implies(Eq(slen(s), Zero), Eq(cc, s2)), Implies(Eq(slen(s2), Zero), Eq(cc, s)))))
	d.axiom("sconcat", Forall([]*Term{s, s2, i}, [][]*Term{{sat(cc, i)}}, And(
		Implies(And(Le(Zero, i), Lt(i, slen(s))), Eq(sat(cc, i), sat(s, i))),
		Implies(And(Le(slen(s), i), Lt(i, Add(slen(s), slen(s2)))), Eq(sat(cc, i), sat(s2, Sub(i, slen(s))))))))
	ss := App("ssub", SStr, s, i, j)
	d.fn("ssub", SStr, SStr, SInt, SInt)
	d.axiom("ssub", Forall([]*Term{s, i, j}, [][]*Term{{ss}}, And(
		Implies(And(Le(Zero, i), Le(i, j), Le(j, slen(s))), Eq(slen(ss), Sub(j, i))),
		Implies(And(Eq(i, Zero), Eq(j, slen(s))), Eq(ss, s)))))
	d.axiom("ssub", Forall([]*Term{s, i, j, k}, [][]*Term{{sat(ss, k)}},
		Implies(And(Le(Zero, i), Le(j, slen(s)), Le(Zero, k), Lt(k, Sub(j, i))), Eq(sat(ss, k), sat(s, Add(i, k))))))
	// adjacent pieces of one string
	inr := And(Le(Zero, i), Le(i, j), Le(j, k), Le(k, slen(s)))
	p1, p2 := App("ssub", SStr, s, i, j), App("ssub", SStr, s, j, k)
	d.axiom("ssub", Forall([]*Term{s, i, j, k}, [][]*Term{{App("sconcat", SStr, p1, p2)}}, Implies(inr, Eq(App("sconcat", SStr, p1, p2), App("ssub", SStr, s, i, k)))))
	c3 := App("sconcat", SStr, p1, App("sconcat", SStr, p2, s2))
	d.axiom("ssub", Forall([]*Term{s, i, j, k, s2}, [][]*Term{{c3}}, Implies(inr, Eq(c3, App("sconcat", SStr, App("ssub", SStr, s, i, k), s2)))))
	// pieces of a concatenation and of a piece
	sc := App("ssub", SStr, cc, i, j)
	d.axiom("ssub", Forall([]*Term{s, s2, i, j}, [][]*Term{{sc}}, And(
		Implies(And(Le(Zero, i), Le(i, j), Le(j, slen(s))), Eq(sc, App("ssub", SStr, s, i, j))),
		Implies(And(Le(slen(s), i), Le(i, j), Le(j, Add(slen(s), slen(s2)))), Eq(sc, App("ssub", SStr, s2, Sub(i, slen(s)), Sub(j, slen(s))))))))
	l := Var("l", SInt)
	// (a variable named heavy! makes the prover instantiate the axiom late)
	hs := Var("heavy!piece", SStr)
	s3 := App("ssub", SStr, App("ssub", SStr, hs, i, j), k, l)
	d.axiom("ssub", Forall([]*Term{hs, i, j, k, l}, [][]*Term{{s3}},
		Implies(And(Le(Zero, i), Le(i, j), Le(j, slen(hs)), Lt(Sub(j, i), slen(hs)), Le(Zero, k), Le(k, l), Le(l, Sub(j, i))), Eq(s3, App("ssub", SStr, hs, Add(i, k), Add(i, l))))))
	sb := App("sofb", SStr, A, i, j)
	d.fn("sofb", SStr, ArrSort(SInt, SInt), SInt, SInt)
	d.axiom("sofb", Forall([]*Term{A, i, j}, [][]*Term{{sb}}, Implies(Le(Zero, j), Eq(slen(sb), j))))
	d.axiom("sofb", Forall([]*Term{A, i, j, k}, [][]*Term{{sat(sb, k)}}, Implies(And(Le(Zero, k), Lt(k, j),
		Le(Zero, Select(A, Add(i, k))), Le(Select(A, Add(i, k)), IntT(255))), Eq(sat(sb, k), Select(A, Add(i, k))))))
	bo := App("bytesof", ArrSort(SInt, SInt), s)
	d.fn("bytesof", ArrSort(SInt, SInt), SStr)
	d.axiom("bytesof", Forall([]*Term{s, i}, [][]*Term{{mk("select", SInt, bo, i)}}, Eq(mk("select", SInt, bo, i), sat(s, i))))
	// integers
	d.fn("itoa", SStr, SInt)
	d.fn("atoi_ok", SBool, SStr)
	d.fn("atoi_val", SInt, SStr)
	it := App("itoa", SStr, i)
	lo := BigT(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63)))
	hi := BigT(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1)))
	d.axiom("itoa", Forall([]*Term{i}, [][]*Term{{it}}, Implies(And(Le(lo, i), Le(i, hi)), And(
		App("atoi_ok", SBool, it), Eq(App("atoi_val", SInt, it), i), Lt(Zero, slen(it)), Le(slen(it), IntT(20))))))
	// decimal text consists of digits and '-' only
	d.axiom("itoa", Forall([]*Term{i, k}, [][]*Term{{sat(it, k)}}, Implies(And(Le(Zero, k), Lt(k, slen(it))),
		Or(Eq(sat(it, k), IntT('-')), And(Le(IntT('0'), sat(it, k)), Le(sat(it, k), IntT('9')))))))
	// atoi_val only constrained in range when ok
	av := App("atoi_val", SInt, s)
	d.axiom("atoi_val", Forall([]*Term{s}, [][]*Term{{av}}, And(Le(lo, av), Le(av, hi))))
	d.axiom("atoi_ok", Forall([]*Term{s}, [][]*Term{{App("atoi_ok", SBool, s)}}, Implies(App("atoi_ok", SBool, s), Lt(Zero, slen(s)))))
	// the string of one code point
	rs := App("runestr", SStr, i)
	d.fn("runestr", SStr, SInt)
	d.axiom("runestr", Forall([]*Term{i}, [][]*Term{{rs}}, And(Lt(Zero, slen(rs)), Le(slen(rs), IntT(4)), Eq(Lt(slen(rs), IntT(2)), And(Le(Zero, i), Lt(i, IntT(128)))),
		Implies(And(Le(Zero, i), Lt(i, IntT(128))), Eq(sat(rs, Zero), i)), Implies(Lt(One, slen(rs)), Le(IntT(128), sat(rs, Zero))))))
	d.axiom("runestr", Forall([]*Term{i, s}, [][]*Term{{rs, slen(s)}}, Implies(And(Le(Zero, i), Lt(i, IntT(128)), Eq(slen(s), One), Eq(sat(s, Zero), i)), Eq(s, rs))))
	d.fn("lower", SStr, SStr)
	d.axiom("lower", Forall([]*Term{s}, [][]*Term{{App("lower", SStr, s)}}, Eq(App("lower", SStr, App("lower", SStr, s)), App("lower", SStr, s))))
	// string extensionality helper
	d.fn("sdiff", SInt, SStr, SStr)
	// card
	dom := ArrSort(SStr, SBool)
	D := Var("d", dom)
	kk := Var("kk", SStr)
	d.fn("card", SInt, dom)
	card := App("card", SInt, D)
	d.axiom("card", Forall([]*Term{D}, [][]*Term{{card}}, Le(Zero, card)))
	d.axiom("card", Forall([]*Term{D, kk}, [][]*Term{{card, mk("select", SBool, D, kk)}}, Implies(mk("select", SBool, D, kk), Le(One, card))))
	d.axiom("card", Eq(App("card", SInt, ConstArr(dom, False)), Zero))
	vb := Var("vb", SBool)
	cst := App("card", SInt, mk("store", dom, D, kk, vb))
	d.axiom("card", Forall([]*Term{D, kk, vb}, [][]*Term{{cst}}, Eq(cst, Add(card, Sub(Ite(vb, One, Zero), Ite(mk("select", SBool, D, kk), One, Zero))))))
	d.fn("tag", SInt, SInt)
	d.fn("errIs", SBool, SInt, SInt)
	e := Var("e", SInt)
	d.axiom("errIs", Forall([]*Term{e}, [][]*Term{{App("errIs", SBool, e, e)}}, App("errIs", SBool, e, e)))
}

var litMu sync.Mutex
var litVal = map[*Term]string{}
