package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

var errorType = types.Universe.Lookup("error").Type()

// ghost fields used by the models of the standard library
func (sp *Specs) builtinGhosts() {
	add := func(typ, name string, t types.Type) {
		sp.ghosts[typ] = append(sp.ghosts[typ], &GhostField{typ: typ, name: name, T: t, key: typ + ".$" + name})
	}
	add("bytes.Buffer", "acc", tString)
	add("stream", "data", tString) // bytes a reader delivers
	add("stream", "pos", tInt)     // bytes consumed so far
	add("stream", "fail", tBool)   // the reader fails with an error other than EOF at the end
	add("stream", "frames", tInt)  // complete frames read from the log being parsed
	add("run", "made", tInt)       // commands made from requests or records
	add("run", "executed", tInt)   // commands executed
	add("run", "written", tInt)    // records handed to the log
	add("run", "pending", tInt)    // a command made and not yet executed
	add("run", "asked", tInt)      // requests taken from the bus
	add("run", "answered", tInt)   // replies put on the bus
	add("proto", "wire", tString)  // the serialized form a message was packed to or parsed from
	add("sink", "out", tString)    // bytes accepted by a writer
	add("hash", "hacc", tString)
	add("mem", "own", tInt)                 // the object that owns the memory of a slice or map (0: none yet)
	add("bufio.Writer", "out", tString)     // bytes accepted
	add("bufio.Writer", "flushed", tString) // bytes handed on by the last successful flush
}

func (x *Exec) ghostKey(typ, name string) string {
	for _, g := range x.sp.ghosts[typ] {
		if g.name == name {
			x.sp.regGhost(x, g)
			return g.key
		}
	}
	panic("ghost " + typ + "." + name)
}

func (x *Exec) ghostGet(st *State, typ, name string, ref *Term) *Term {
	return Select(st.H(x.ghostKey(typ, name)), ref)
}

func (x *Exec) ghostSet(st *State, typ, name string, ref, v *Term) {
	k := x.ghostKey(typ, name)
	st.setH(k, Store(st.H(k), ref, v))
	st.writes = append(st.writes, heapWrite{k, ref, nil})
}

// newErr allocates an error value; wrapped may be nil.
func (x *Exec) newErr(st *State, msg *Term, wrapped *Term) *Term {
	r := st.newRef(nil)
	st.assume(Eq(App("tag", SInt, r), IntT(int64(x.p.typeIDByName("ext:error")))))
	tv := Var("et", SInt)
	ei := App("errIs", SBool, r, tv)
	rhs := Eq(tv, r)
	if wrapped != nil {
		rhs = Or(rhs, And(Neq(wrapped, Zero), App("errIs", SBool, wrapped, tv)))
	}
	st.assume(Forall([]*Term{tv}, [][]*Term{{ei}}, Eq(ei, rhs)))
	if msg != nil {
		st.assume(Eq(App("errmsg", SStr, r), msg))
	}
	return r
}

func (st *State) knownLen(n *Term) (int, bool) {
	if n.isInt() && n.Val.IsInt64() && n.Val.Int64() < 64 {
		return int(n.Val.Int64()), true
	}
	return 0, false
}

// variadic reads the elements of a ...interface{} argument.
func (x *Exec) variadic(st *State, v Val) ([]*Term, bool) {
	c, ok := v.(*Comp)
	if !ok {
		return nil, false
	}
	n, ok := st.knownLen(c.F[2].(*Term))
	if !ok {
		return nil, false
	}
	var out []*Term
	any := types.NewInterfaceType(nil, nil)
	for i := 0; i < n; i++ {
		e := st.loadAddr(&Addr{Key: x.elemKey(any), Base: c.F[0].(*Term), Idx: ix(c.F[1].(*Term), IntT(int64(i))), T: any})
		out = append(out, e.(*Term))
	}
	return out, true
}

// format renders Sprintf-style formatting symbolically.
func (x *Exec) format(st *State, f *Term, args []*Term, okArgs bool) (*Term, *Term) {
	lit, ok := st.litFor(f)
	if !ok || !okArgs {
		return x.freshSym("fmtstr", SStr), nil
	}
	var wrapped *Term
	res := StrLit("")
	ai := 0
	cur := ""
	flush := func() {
		if cur != "" {
			res = SConcat(res, StrLit(cur))
			cur = ""
		}
	}
	for i := 0; i < len(lit); i++ {
		if lit[i] != '%' || i+1 >= len(lit) {
			cur += string(lit[i])
			continue
		}
		j := i + 1
		for j < len(lit) && strings.IndexByte("+-# 0123456789.", lit[j]) >= 0 {
			j++
		}
		if j >= len(lit) {
			break
		}
		v := lit[j]
		spec := lit[i : j+1]
		i = j
		if v == '%' {
			cur += "%"
			continue
		}
		flush()
		if ai >= len(args) {
			res = SConcat(res, StrLit("%!"+string(v)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		if v == 'w' {
			wrapped = a
		}
		res = SConcat(res, x.formatArg(st, spec, v, a))
	}
	flush()
	return res, wrapped
}

func (x *Exec) formatArg(st *State, spec string, v byte, a *Term) *Term {
	t := st.tags[a]
	if t != nil && a.Op == "app" && strings.HasPrefix(a.Name, "box!") {
		inner := a.Args[0]
		if b, ok := underlying(t).(*types.Basic); ok && spec == "%"+string(v) {
			named := false
			if nt, ok := t.(*types.Named); ok && nt.NumMethods() > 0 {
				named = true
			}
			switch {
			case b.Info()&types.IsInteger != 0 && (v == 'd' || v == 'v') && !named:
				return itoaT(inner)
			case b.Info()&types.IsString != 0 && (v == 's' || v == 'v') && !named:
				return inner
			}
		}
	}
	return App("fmt!"+spec, SStr, a)
}

func itoaT(t *Term) *Term {
	if t.isInt() {
		return StrLit(t.Val.String())
	}
	return App("itoa", SStr, t)
}

var minI64 = BigT(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63)))
var maxI64 = BigT(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1)))

func two(rt types.Type, a, b Val) *Comp { return &Comp{T: rt, F: []Val{a, b}} }

// byteSlice makes a fresh []byte holding the string s.
func (x *Exec) byteSliceOf(st *State, s *Term) *Comp {
	return x.bytesOf(st, s, types.NewSlice(types.Typ[types.Uint8]))
}

func nilSlice(t types.Type) *Comp { return zeroVal(t).(*Comp) }

func lockKeyOf(v Val) (string, *Term) {
	switch a := v.(type) {
	case *Addr:
		return a.Key + "#lk", a.Base
	case *Term:
		return "sync.lock#lk", a
	}
	return "", nil
}

func (x *Exec) lockOp(st *State, v Val, op string, pos token.Pos) {
	key, base := lockKeyOf(v)
	x.regKey(key, SInt, 1, false, false, nil)
	cur := Select(st.H(key), base)
	nm := strings.TrimSuffix(key, "#lk")
	c18 := map[string]bool{"C18": true}
	var pre, nv *Term
	switch op {
	case "Lock":
		pre, nv = Eq(cur, Zero), IntT(-1)
	case "Unlock":
		pre, nv = Eq(cur, IntT(-1)), Zero
	case "RLock":
		pre, nv = Eq(cur, Zero), One
	case "RUnlock":
		pre, nv = Eq(cur, One), Zero
	}
	x.prove(st, pre, "guard", op+" of "+nm+" in the right lock state", x.p.pos(pos), c18)
	st.setH(key, Store(st.H(key), base, nv))
	st.writes = append(st.writes, heapWrite{key, base, nil})
}

// syncMap heap keys
func (x *Exec) syncMapKeys(v Val) (dom, val string, base *Term) {
	var key string
	switch a := v.(type) {
	case *Addr:
		key, base = a.Key, a.Base
	case *Term:
		key, base = "sync.Map", a
	}
	dom, val = key+"$sdom", key+"$sval"
	if _, ok := x.keys[dom]; !ok {
		x.keys[dom] = keyInfo{ArrSort(SInt, ArrSort(SInt, SBool)), false, false, nil}
		x.keys[val] = keyInfo{ArrSort(SInt, ArrSort(SInt, SInt)), true, true, types.NewInterfaceType(nil, nil)}
	}
	return
}

// wordLoc: location of an atomically accessed word.
func (x *Exec) atomicAddr(v Val, t types.Type) *Addr {
	return x.deref(v, types.NewPointer(t))
}

func (x *Exec) model(st *State, fr *Frame, fn *ssa.Function, name string, args []Val, pos token.Pos, k func(*State, Val)) bool {
	rt := resultType(fn.Signature)
	term := func(i int) *Term { return asTerm(args[i]) }
	trust := func(what string) { x.trust["model: "+what] = true }
	switch name {
	case "strconv.ParseInt":
		base, bits := term(1), term(2)
		s := term(0)
		if base != IntT(10) || bits != IntT(64) {
			trust("strconv.ParseInt (other base/size): arbitrary result")
			v := st.freshVal(fn.Signature.Results().At(0).Type(), "pi")
			st.learn(v, fn.Signature.Results().At(0).Type())
			e := x.freshSym("pierr", SInt)
			st.assume(And(Le(Zero, e), Lt(e, st.allocPtr())))
			k(st, two(rt, v, e))
			return true
		}
		trust("strconv.ParseInt(s,10,64): succeeds exactly on decimal int64 text")
		x.branch(st, App("atoi_ok", SBool, s), func(s2 *State, ok bool) {
			if ok {
				k(s2, two(rt, App("atoi_val", SInt, s), Zero))
				return
			}
			v := x.freshSym("pibad", SInt)
			s2.assume(And(Le(minI64, v), Le(v, maxI64)))
			e := x.newErr(s2, nil, nil)
			k(s2, two(rt, v, e))
		}, x.p.pos(pos)+":ParseInt")
		return true
	case "strconv.Quote":
		k(st, App("quote", SStr, term(0)))
		return true
	case "strconv.Itoa":
		k(st, itoaT(term(0)))
		return true
	case "strconv.FormatInt":
		if term(1) == IntT(10) {
			k(st, itoaT(term(0)))
			return true
		}
	case "strings.ToLower":
		trust("strings.ToLower: idempotent function of its argument")
		k(st, lowerT(term(0)))
		return true
	case "strings.HasSuffix", "strings.HasPrefix", "strings.Contains":
		k(st, App("strpred!"+name, SBool, term(0), term(1)))
		return true
	case "strings.Join":
		c := args[0].(*Comp)
		x.leafKeys("[]string", types.Typ[types.String], 2)
		k(st, App("strjoin", SStr, Select(st.H("[]string"), c.F[0].(*Term)), c.F[1].(*Term), c.F[2].(*Term), term(1)))
		return true
	case "fmt.Sprintf":
		as, ok := x.variadic(st, args[1])
		r, _ := x.format(st, term(0), as, ok)
		st.assume(Le(SLen(r), IntT(maxLen)))
		k(st, r)
		return true
	case "fmt.Errorf", "common.Errorf":
		as, ok := x.variadic(st, args[1])
		r, w := x.format(st, term(0), as, ok)
		if name == "common.Errorf" {
			trust("pkg/common logging has no effect on the data model")
		}
		k(st, x.newErr(st, r, w))
		return true
	case "errors.New", "common.Error":
		k(st, x.newErr(st, term(0), nil))
		return true
	case "errors.Is":
		e, t := term(0), term(1)
		k(st, Or(And(Eq(e, Zero), Eq(t, Zero)), And(Neq(e, Zero), App("errIs", SBool, e, t))))
		return true
	case "fmt.Fprintf", "fmt.Fprintln", "fmt.Println", "fmt.Printf":
		k(st, st.freshVal(rt, "n"))
		return true
	case "common.Debug", "common.Debugf", "common.Info", "common.Infof", "common.Warn", "common.Warnf", "common.Panic", "common.Panicf", "common.Fatal", "common.Fatalf", "common.ShutdownLog", "common.InitLog":
		trust("pkg/common logging has no effect on the data model")
		k(st, nil)
		return true
	case "hash/fnv.New64a", "hash/fnv.New64":
		r := st.newRef(nil)
		st.assume(Eq(App("tag", SInt, r), IntT(int64(x.p.typeIDByName("ext:"+name)))))
		x.ghostSet(st, "hash", "hacc", r, StrLit(""))
		trust("hash/fnv: a function of the bytes written")
		k(st, r)
		return true
	case "sync.(*Mutex).Lock", "sync.(*RWMutex).Lock":
		x.lockOp(st, args[0], "Lock", pos)
		k(st, nil)
		return true
	case "sync.(*Mutex).Unlock", "sync.(*RWMutex).Unlock":
		x.lockOp(st, args[0], "Unlock", pos)
		k(st, nil)
		return true
	case "sync.(*RWMutex).RLock":
		x.lockOp(st, args[0], "RLock", pos)
		k(st, nil)
		return true
	case "sync.(*RWMutex).RUnlock":
		x.lockOp(st, args[0], "RUnlock", pos)
		k(st, nil)
		return true
	case "sync.(*WaitGroup).Add", "sync.(*WaitGroup).Done", "sync.(*WaitGroup).Wait":
		k(st, nil)
		return true
	case "sync.(*Map).Load", "sync.(*Map).Store", "sync.(*Map).Delete", "sync.(*Map).LoadOrStore":
		trust("sync.Map: sequential map semantics")
		dk, vk, base := x.syncMapKeys(args[0])
		key := term(1)
		d, v := Select(st.H(dk), base), Select(st.H(vk), base)
		put := func(s *State, val *Term, has bool) {
			s.setH(dk, Store(s.H(dk), base, s.cardStep(d, key, has)))
			s.writes = append(s.writes, heapWrite{dk, base, nil})
			if has {
				s.setH(vk, Store(s.H(vk), base, Store(v, key, val)))
				s.writes = append(s.writes, heapWrite{vk, base, nil})
			}
		}
		got := func(s *State) *Term {
			r := Select(v, key)
			s.learn(r, types.NewInterfaceType(nil, nil))
			s.assume(Lt(r, s.allocPtr()))
			return r
		}
		switch name {
		case "sync.(*Map).Store":
			put(st, term(2), true)
			k(st, nil)
		case "sync.(*Map).Delete":
			put(st, nil, false)
			k(st, nil)
		case "sync.(*Map).Load":
			x.branch(st, Select(d, key), func(s *State, has bool) {
				if has {
					k(s, two(rt, got(s), True))
				} else {
					k(s, two(rt, Zero, False))
				}
			}, x.p.pos(pos)+":has")
		case "sync.(*Map).LoadOrStore":
			x.branch(st, Select(d, key), func(s *State, has bool) {
				if has {
					k(s, two(rt, got(s), True))
				} else {
					put(s, term(2), true)
					k(s, two(rt, term(2), False))
				}
			}, x.p.pos(pos)+":has")
		}
		return true
	case "sync/atomic.AddInt32", "sync/atomic.AddInt64":
		t := fn.Signature.Params().At(1).Type()
		a := x.atomicAddr(args[0], t)
		v := x.wrap(st, Add(asTerm(st.loadAddr(a)), term(1)), t)
		st.storeAddr(a, v)
		k(st, v)
		return true
	case "sync/atomic.LoadInt32", "sync/atomic.LoadInt64":
		t := fn.Signature.Results().At(0).Type()
		a := x.atomicAddr(args[0], t)
		v := st.loadAddr(a)
		st.learn(v, t)
		k(st, v)
		return true
	case "sync/atomic.StoreInt32", "sync/atomic.StoreInt64":
		t := fn.Signature.Params().At(1).Type()
		st.storeAddr(x.atomicAddr(args[0], t), term(1))
		k(st, nil)
		return true
	case "sync/atomic.CompareAndSwapInt32", "sync/atomic.CompareAndSwapInt64":
		t := fn.Signature.Params().At(1).Type()
		a := x.atomicAddr(args[0], t)
		cur := asTerm(st.loadAddr(a))
		x.branch(st, Eq(cur, term(1)), func(s *State, same bool) {
			if same {
				s.storeAddr(a, term(2))
			}
			k(s, BoolT(same))
		}, x.p.pos(pos)+":cas")
		return true
	case "time.Now", "time.(Time).UTC", "time.After", "time.Since":
		v := st.freshVal(rt, "time")
		if t, ok := v.(*Term); ok {
			st.assume(Lt(Zero, t))
		}
		k(st, v)
		return true
	case "time.(Time).Unix", "time.(Time).UnixNano":
		v := st.freshVal(rt, "now")
		st.learn(v, rt)
		k(st, v)
		return true
	case "math/rand.(*Rand).Int", "math/rand.(*Rand).Int63", "math/rand.Int", "math/rand.Int63", "math/rand.(*Rand).Uint32":
		v := st.freshVal(rt, "rand")
		st.learn(v, rt)
		st.assume(Le(Zero, v.(*Term)))
		trust("math/rand: arbitrary non-negative number")
		k(st, v)
		return true
	case "math/rand.(*Rand).Intn", "math/rand.Intn", "math/rand.(*Rand).Int63n", "math/rand.(*Rand).Int31n":
		n := asTerm(args[len(args)-1])
		x.safety(st, Lt(Zero, n), "rand bound must be positive", pos)
		v := st.freshVal(rt, "rand").(*Term)
		st.assume(And(Le(Zero, v), Lt(v, n)))
		k(st, v)
		return true
	case "math/rand.New", "math/rand.NewSource":
		r := st.newRef(nil)
		if isIfaceType(rt) {
			st.assume(Eq(App("tag", SInt, r), IntT(int64(x.p.typeIDByName("ext:rand")))))
		}
		k(st, r)
		return true
	case "util.GetGlobalRandom", "util.GetNewRandom":
		trust("util random provider: returns a usable generator")
		r := st.freshVal(rt, "rnd").(*Term)
		st.assume(Lt(Zero, r))
		st.nonnil[r] = true
		k(st, r)
		return true
	case "util.GenNewUUID":
		trust("util.GenNewUUID: arbitrary string")
		k(st, st.freshVal(rt, "uuid"))
		return true
	case "bytes.(*Buffer).Write", "bytes.(*Buffer).WriteString", "bytes.(*Buffer).WriteByte", "bytes.(*Buffer).String", "bytes.(*Buffer).Bytes", "bytes.(*Buffer).Len", "bytes.(*Buffer).Reset":
		r := x.objRef(st, args[0], pos, "bytes.Buffer")
		acc := x.ghostGet(st, "bytes.Buffer", "acc", r)
		app := func(s *Term) {
			n := SConcat(acc, s)
			st.assume(Le(SLen(n), IntT(maxLen)))
			x.ghostSet(st, "bytes.Buffer", "acc", r, n)
		}
		switch fn.Name() {
		case "Write":
			s := x.stringOf(st, args[1].(*Comp))
			app(s)
			k(st, two(rt, args[1].(*Comp).F[2], Zero))
		case "WriteString":
			app(term(1))
			k(st, two(rt, SLen(term(1)), Zero))
		case "WriteByte":
			app(byteStr(st, term(1)))
			k(st, Zero)
		case "String":
			k(st, acc)
		case "Bytes":
			k(st, x.byteSliceOf(st, acc))
		case "Len":
			k(st, SLen(acc))
		case "Reset":
			x.ghostSet(st, "bytes.Buffer", "acc", r, StrLit(""))
			k(st, nil)
		}
		return true
	case "strings.NewReader":
		r := x.newStream(st, term(0), False, rt)
		k(st, r)
		return true
	case "bytes.NewReader":
		r := x.newStream(st, x.stringOf(st, args[0].(*Comp)), False, rt)
		k(st, r)
		return true
	case "bufio.NewReader":
		src := term(0)
		trust("bufio.Reader: delivers the remaining bytes of its source in order")
		d, p, f := x.ghostGet(st, "stream", "data", src), x.ghostGet(st, "stream", "pos", src), x.ghostGet(st, "stream", "fail", src)
		st.assume(And(Le(Zero, p), Le(p, SLen(d))))
		data := SSub(d, p, SLen(d))
		if p == Zero {
			data = d
		}
		// the reader may read ahead any part of its source
		p2 := x.freshSym("ahead", SInt)
		st.assume(And(Le(p, p2), Le(p2, SLen(d))))
		x.ghostSet(st, "stream", "pos", src, p2)
		r := x.newStream(st, data, f, rt)
		k(st, r)
		return true
	case "io.ReadFull":
		x.readFull(st, x.objRef(st, args[0], pos, "reader"), args[1].(*Comp), rt, k)
		return true
	case "bufio.(*Reader).ReadByte":
		x.streamReadByte(st, x.objRef(st, args[0], pos, "reader"), rt, pos, k)
		return true
	case "bufio.(*Reader).ReadString", "bufio.(*Reader).ReadBytes":
		if fn.Name() == "ReadBytes" {
			break
		}
		r := x.objRef(st, args[0], pos, "reader")
		d, p, f := x.ghostGet(st, "stream", "data", r), x.ghostGet(st, "stream", "pos", r), x.ghostGet(st, "stream", "fail", r)
		n := SLen(d)
		st.assume(And(Le(Zero, p), Le(p, n), Le(n, IntT(maxLen))))
		q := App("idxbyte", SInt, d, p, term(1)) // first position >= p of the delimiter, or -1
		x.fork(st, []*Term{And(Le(p, q), Lt(q, n), Eq(SAt(d, q), term(1))), Eq(q, IntT(-1))}, func(s *State, i int) {
			if i == 0 {
				jv := Var("rj", SInt)
				sa := SAt(d, jv)
				s.assume(Forall([]*Term{jv}, [][]*Term{{sa}}, Implies(And(Le(p, jv), Lt(jv, q)), Neq(sa, term(1)))))
				x.ghostSet(s, "stream", "pos", r, Add(q, One))
				k(s, two(rt, SSub(d, p, Add(q, One)), Zero))
				return
			}
			x.ghostSet(s, "stream", "pos", r, n)
			e := x.eofErr(s, f)
			rest := SSub(d, p, n)
			k(s, two(rt, rest, e))
		})
		return true
	case "bufio.NewWriter":
		r := st.newRef(nil)
		st.assume(Eq(App("tag", SInt, r), IntT(int64(x.p.typeIDByName("ext:bufio.Writer")))))
		x.ghostSet(st, "bufio.Writer", "out", r, StrLit(""))
		x.ghostSet(st, "bufio.Writer", "flushed", r, StrLit(""))
		k(st, r)
		return true
	case "bufio.(*Writer).Available", "bufio.(*Writer).Buffered", "bufio.(*Writer).Size":
		r := x.objRef(st, args[0], pos, "writer")
		x.mapGuard(st, r, false, pos)
		v := st.freshVal(rt, "wr").(*Term)
		st.assume(And(Le(Zero, v), Le(v, IntT(maxLen))))
		k(st, v)
		return true
	case "bufio.(*Writer).Flush":
		r := x.objRef(st, args[0], pos, "writer")
		x.mapGuard(st, r, true, pos)
		trust("bufio.Writer: accepts the bytes written in order, all of them when it reports no error")
		e := x.freshSym("wrerr", SInt)
		st.assume(And(Le(Zero, e), Lt(e, st.allocPtr())))
		fl := x.freshSym("flushed", SStr)
		out := x.ghostGet(st, "bufio.Writer", "out", r)
		st.assume(Implies(Eq(e, Zero), Eq(fl, out)))
		x.ghostSet(st, "bufio.Writer", "flushed", r, fl)
		k(st, e)
		return true
	case "bufio.(*Writer).Write", "bufio.(*Writer).WriteString", "bufio.(*Writer).WriteByte":
		r := x.objRef(st, args[0], pos, "writer")
		x.mapGuard(st, r, true, pos)
		trust("bufio.Writer: accepts the bytes written in order, all of them when it reports no error")
		var s *Term
		switch fn.Name() {
		case "Write":
			s = x.stringOf(st, args[1].(*Comp))
		case "WriteString":
			s = term(1)
		default:
			s = byteStr(st, term(1))
		}
		out := x.ghostGet(st, "bufio.Writer", "out", r)
		x.fork(st, []*Term{True, True}, func(s2 *State, i int) {
			if i == 0 {
				x.ghostSet(s2, "bufio.Writer", "out", r, SConcat(out, s))
				if fn.Name() == "WriteByte" {
					k(s2, Zero)
				} else {
					k(s2, two(rt, SLen(s), Zero))
				}
				return
			}
			n := x.freshSym("wrote", SInt)
			s2.assume(And(Le(Zero, n), Lt(n, SLen(s))))
			x.ghostSet(s2, "bufio.Writer", "out", r, SConcat(out, SSub(s, Zero, n)))
			e := x.newErr(s2, nil, nil)
			if fn.Name() == "WriteByte" {
				k(s2, e)
			} else {
				k(s2, two(rt, n, e))
			}
		})
		return true
	case "github.com/golang/protobuf/proto.Marshal":
		trust("proto.Marshal: an error, or the message's wire form (some byte string below 2 GiB, which Unmarshal accepts)")
		m := x.objRef(st, args[0], pos, "message")
		w := x.freshSym("wire", SStr)
		st.assume(Le(SLen(w), IntT(1<<31-1)))
		x.fork(st, []*Term{True, True}, func(s *State, i int) {
			if i == 0 {
				s.assume(App("uf!protoOK", SBool, w))
				x.ghostSet(s, "proto", "wire", m, w)
				b := x.byteSliceOf(s, w)
				k(s, two(rt, b, Zero))
				return
			}
			e := x.newErr(s, nil, nil)
			k(s, two(rt, nilSlice(types.NewSlice(types.Typ[types.Uint8])), e))
		})
		return true
	case "github.com/golang/protobuf/proto.Unmarshal":
		trust("proto.Unmarshal: accepts or rejects a byte string; an accepted one determines the message")
		w := x.stringOf(st, args[0].(*Comp))
		m := x.objRef(st, args[1], pos, "message")
		x.protoFields(st, m, w)
		x.fork(st, []*Term{App("uf!protoOK", SBool, w), Not(App("uf!protoOK", SBool, w))}, func(s *State, i int) {
			if i == 0 {
				x.ghostSet(s, "proto", "wire", m, w)
				k(s, Zero)
				return
			}
			k(s, x.newErr(s, nil, nil))
		})
		return true
	case "encoding/binary.(littleEndian).PutUint32", "encoding/binary.(littleEndian).PutUint64", "encoding/binary.(bigEndian).PutUint32", "encoding/binary.(bigEndian).PutUint64":
		b := args[len(args)-2].(*Comp)
		v := term(len(args) - 1)
		nb := 4
		if strings.HasSuffix(name, "64") {
			nb = 8
		}
		x.safety(st, Le(IntT(int64(nb)), b.F[2].(*Term)), "index out of range: binary.PutUint", pos)
		bs := x.splitBytes(st, v, nb)
		ut := types.Typ[types.Uint8]
		for i := 0; i < nb; i++ {
			j := i
			if strings.Contains(name, "bigEndian") {
				j = nb - 1 - i
			}
			st.storeAddr(&Addr{Key: "[]uint8", Base: b.F[0].(*Term), Idx: ix(b.F[1].(*Term), IntT(int64(i))), T: ut}, bs[j])
		}
		k(st, nil)
		return true
	case "encoding/binary.(littleEndian).Uint32", "encoding/binary.(littleEndian).Uint64", "encoding/binary.(bigEndian).Uint32", "encoding/binary.(bigEndian).Uint64":
		b := args[len(args)-1].(*Comp)
		nb := 4
		if strings.HasSuffix(name, "64") {
			nb = 8
		}
		x.safety(st, Le(IntT(int64(nb)), b.F[2].(*Term)), "index out of range: binary.Uint", pos)
		sum := Zero
		mul := big.NewInt(1)
		ut := types.Typ[types.Uint8]
		for i := 0; i < nb; i++ {
			j := i
			if strings.Contains(name, "bigEndian") {
				j = nb - 1 - i
			}
			e := st.loadAddr(&Addr{Key: "[]uint8", Base: b.F[0].(*Term), Idx: ix(b.F[1].(*Term), IntT(int64(j))), T: ut}).(*Term)
			st.learn(e, ut)
			sum = Add(sum, Mul(BigT(new(big.Int).Set(mul)), e))
			mul.Mul(mul, big.NewInt(256))
		}
		k(st, sum)
		return true
	}
	if fn.Pkg != nil && externalPkg[fn.Pkg.Pkg.Path()] && !readsInto(fn.Name()) {
		trust("package " + fn.Pkg.Pkg.Path() + ": arbitrary results, no effect on the structures of the repository; a nil error comes with non-nil results")
		x.externalResult(st, rt, k)
		return true
	}
	return false
}

var externalPkg = map[string]bool{"os": true, "net": true, "io": true, "io/fs": true}

// readsInto: the external function fills memory or moves a stream in a way
// that "no effect on the structures of the repository" would misrepresent.
func readsInto(name string) bool {
	return strings.HasPrefix(name, "Read") || name == "CopyN" || name == "CopyBuffer"
}

// externalResult: arbitrary results of a system call; reference results are
// non-nil when the error result is nil (or absent).
func (x *Exec) externalResult(st *State, rt types.Type, k func(*State, Val)) {
	v := st.freshVal(rt, "ext")
	st.learn(v, rt)
	if tt, ok := rt.(*types.Tuple); ok {
		if tt.Len() == 0 {
			k(st, nil)
			return
		}
		c := v.(*Comp)
		n := tt.Len()
		if isErrorType(tt.At(n - 1).Type()) {
			for i := 0; i < n-1; i++ {
				if t, ok := c.F[i].(*Term); ok && isRefType(tt.At(i).Type()) {
					st.assume(Implies(Eq(c.F[n-1].(*Term), Zero), Lt(Zero, t)))
				}
			}
		}
		k(st, v)
		return
	}
	if t, ok := v.(*Term); ok && isRefType(rt) && !isErrorType(rt) {
		st.assume(Lt(Zero, t))
	}
	k(st, v)
}

func isErrorType(t types.Type) bool { return typeName(t) == "error" }

// splitBytes decomposes a non-negative integer below 256^n.
func (x *Exec) splitBytes(st *State, v *Term, n int) []*Term {
	var out []*Term
	sum := Zero
	mul := big.NewInt(1)
	for i := 0; i < n; i++ {
		var b *Term
		if v.isInt() {
			q := new(big.Int).Rsh(v.Val, uint(8*i))
			b = BigT(q.And(q, big.NewInt(255)))
		} else {
			b = App(fmt.Sprintf("lebyte%d", i), SInt, v)
			st.assume(And(Le(Zero, b), Le(b, IntT(255))))
		}
		out = append(out, b)
		sum = Add(sum, Mul(BigT(new(big.Int).Set(mul)), b))
		mul.Mul(mul, big.NewInt(256))
	}
	if !v.isInt() {
		st.assume(Eq(v, sum))
	}
	return out
}

func byteStr(st *State, b *Term) *Term {
	if b.isInt() && b.Val.IsInt64() {
		return StrLit(string([]byte{byte(b.Val.Int64())}))
	}
	s := App("bytestr1", SStr, b)
	st.assume(And(Eq(App("slen", SInt, s), One), Implies(And(Le(Zero, b), Le(b, IntT(255))), Eq(App("sat", SInt, s, Zero), b))))
	return s
}

// objRef: reference identifying an external object held by value or pointer.
func (x *Exec) objRef(st *State, v Val, pos token.Pos, what string) *Term {
	switch a := v.(type) {
	case *Term:
		x.nilCheck(st, a, pos, what)
		return a
	case *Addr:
		return a.Base
	}
	panic(unsupported{"object reference of " + what})
}

func (x *Exec) newStream(st *State, data *Term, fail *Term, rt types.Type) *Term {
	r := st.newRef(nil)
	st.assume(Eq(App("tag", SInt, r), IntT(int64(x.p.typeID(rt)))))
	st.tags[r] = rt
	x.ghostSet(st, "stream", "data", r, data)
	x.ghostSet(st, "stream", "pos", r, Zero)
	x.ghostSet(st, "stream", "fail", r, fail)
	return r
}

// readFull: io.ReadFull fills the slice or reaches the end of the stream.
func (x *Exec) readFull(st *State, r *Term, b *Comp, rt types.Type, k func(*State, Val)) {
	x.trust["model: io.ReadFull: delivers the next bytes of the stream, as many as the slice takes; otherwise all that remain and EOF (none), ErrUnexpectedEOF (some) or the reader's error"] = true
	d, p, f := x.ghostGet(st, "stream", "data", r), x.ghostGet(st, "stream", "pos", r), x.ghostGet(st, "stream", "fail", r)
	n := SLen(d)
	st.assume(And(Le(Zero, p), Le(p, n), Le(n, IntT(maxLen))))
	want := b.F[2].(*Term)
	left := Sub(n, p)
	fill := func(s *State, cnt *Term) {
		a, o := b.F[0].(*Term), b.F[1].(*Term)
		h := s.H("[]uint8")
		base := Select(h, a)
		content := x.freshSym("filled", elemSort(h.Sort))
		j := Var("j", SInt)
		ci := mk("select", elemSort(content.Sort), content, ix(o, j))
		s.assume(Forall([]*Term{j}, [][]*Term{{ci}}, And(
			Implies(And(Le(Zero, j), Lt(j, cnt)), Eq(ci, SAt(d, Add(p, j)))),
			Implies(Or(Lt(j, Zero), Le(cnt, j)), Eq(ci, Select(base, ix(o, j)))))))
		if o != Zero {
			cj := mk("select", elemSort(content.Sort), content, j)
			s.assume(Forall([]*Term{j}, [][]*Term{{cj}}, Implies(Or(Lt(j, o), Le(Add(o, cnt), j)), Eq(cj, Select(base, j)))))
		}
		s.assume(Eq(SOfBytes(content, o, cnt), SSub(d, p, Add(p, cnt))))
		s.setH("[]uint8", Store(h, a, content))
		s.writes = append(s.writes, heapWrite{"[]uint8", a, nil})
	}
	x.fork(st, []*Term{Le(want, left), And(Lt(left, want), Eq(left, Zero)), And(Lt(left, want), Lt(Zero, left))}, func(s *State, i int) {
		switch i {
		case 0:
			fill(s, want)
			x.ghostSet(s, "stream", "pos", r, Add(p, want))
			k(s, two(rt, want, Zero))
		case 1:
			k(s, two(rt, Zero, x.eofErr(s, f)))
		default:
			fill(s, left)
			x.ghostSet(s, "stream", "pos", r, n)
			g, ok := x.globalConst(s, &Addr{Key: "G:io.ErrUnexpectedEOF", Base: Zero, T: errorType}).(*Term)
			if !ok {
				panic(unsupported{"io.ErrUnexpectedEOF"})
			}
			s.assume(Lt(Zero, g))
			s.nonnil[g] = true
			e := g
			if !f.isFalse() {
				other := x.newErr(s, nil, nil)
				e = x.freshSym("rderr", SInt)
				s.assume(Eq(e, Ite(f, other, g)))
				s.assume(Lt(Zero, e))
				s.nonnil[e] = true
			}
			k(s, two(rt, left, e))
		}
	})
}

func (x *Exec) eofErr(st *State, fail *Term) *Term {
	g := x.globalConst(st, &Addr{Key: "G:io.EOF", Base: Zero, T: errorType})
	eof, ok := g.(*Term)
	if !ok {
		panic(unsupported{"io.EOF"})
	}
	st.assume(Lt(Zero, eof))
	st.nonnil[eof] = true
	if fail.isFalse() {
		return eof
	}
	other := x.newErr(st, nil, nil)
	e := x.freshSym("rderr", SInt)
	st.assume(Eq(e, Ite(fail, other, eof)))
	st.assume(Lt(Zero, e))
	st.nonnil[e] = true
	return e
}

func (x *Exec) streamReadByte(st *State, r *Term, rt types.Type, pos token.Pos, k func(*State, Val)) {
	d, p, f := x.ghostGet(st, "stream", "data", r), x.ghostGet(st, "stream", "pos", r), x.ghostGet(st, "stream", "fail", r)
	n := SLen(d)
	st.assume(And(Le(Zero, p), Le(p, n), Le(n, IntT(maxLen))))
	x.branch(st, Lt(p, n), func(s *State, more bool) {
		if more {
			b := SAt(d, p)
			s.assume(And(Le(Zero, b), Le(b, IntT(255))))
			x.ghostSet(s, "stream", "pos", r, Add(p, One))
			k(s, two(rt, b, Zero))
			return
		}
		k(s, two(rt, Zero, x.eofErr(s, f)))
	}, x.p.pos(pos)+":more")
}

func (x *Exec) invokeModel(st *State, fr *Frame, recv *Term, iname string, m *types.Func, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) bool {
	switch m.Name() {
	case "Error":
		if iname == "error" {
			if t, ok := st.tags[recv]; ok && x.isRepoType(t) {
				return false
			}
			k(st, App("errmsg", SStr, recv))
			return true
		}
	case "ReadByte":
		if iname == "io.ByteReader" {
			x.streamReadByte(st, recv, rt, pos, k)
			return true
		}
	case "Write":
		if iname == "hash.Hash64" {
			acc := x.ghostGet(st, "hash", "hacc", recv)
			c := args[0].(*Comp)
			x.ghostSet(st, "hash", "hacc", recv, SConcat(acc, x.stringOf(st, c)))
			k(st, two(rt, c.F[2], Zero))
			return true
		}
	case "Sum64":
		if iname == "hash.Hash64" {
			v := App("fnv64", SInt, x.ghostGet(st, "hash", "hacc", recv))
			k(st, v)
			return true
		}
	}
	if i := strings.LastIndex(iname, "."); i > 0 && !readsInto(m.Name()) && (externalPkg[iname[:i]] || iname[:i] == "fs") {
		x.trust["model: interface "+iname+": arbitrary results, no effect on the structures of the repository"] = true
		x.externalResult(st, rt, k)
		return true
	}
	return false
}

func (x *Exec) isRepoType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func initModelAxioms() {
	d := gdecls
	s := Var("s", SStr)
	s2 := Var("s2", SStr)
	o, i := Var("o", SInt), Var("i", SInt)
	d.fn("ix", SInt, SInt, SInt)
	d.axiom("ix", Forall([]*Term{o, i}, [][]*Term{{App("ix", SInt, o, i)}}, Eq(App("ix", SInt, o, i), Add(o, i))))
	av := Var("a", ArrSort(SInt, SInt))
	n0 := Var("n", SInt)
	jj := Var("j", SInt)
	d.fn("idxref", SInt, ArrSort(SInt, SInt), SInt, SInt, SInt)
	ir := App("idxref", SInt, av, i, n0, o)
	d.axiom("idxref", Forall([]*Term{av, i, n0, o}, [][]*Term{{ir}}, Or(Eq(ir, IntT(-1)), And(Le(Zero, ir), Lt(ir, n0), Eq(Select(av, App("ix", SInt, i, ir)), o)))))
	d.axiom("idxref", Forall([]*Term{av, i, n0, o, jj}, [][]*Term{{ir, Select(av, jj)}}, Implies(And(Le(i, jj), Lt(jj, Add(i, n0)), Eq(Select(av, jj), o)), Neq(ir, IntT(-1)))))
	hv, kk := Var("h", ArrSort(SInt, SStr)), Var("k", SStr)
	d.fn("findkey", SInt, ArrSort(SInt, SStr), ArrSort(SInt, SInt), SInt, SInt, SStr)
	fk := App("findkey", SInt, hv, av, i, n0, kk)
	at := func(j *Term) *Term { return Select(av, App("ix", SInt, i, j)) }
	d.axiom("findkey", Forall([]*Term{hv, av, i, n0, kk}, [][]*Term{{fk}}, Or(Eq(fk, IntT(-1)), And(Le(Zero, fk), Lt(fk, n0), Eq(Select(hv, at(fk)), kk)))))
	d.axiom("findkey", Forall([]*Term{hv, av, i, n0, kk, jj}, [][]*Term{{fk, Select(av, jj)}}, Implies(And(Le(i, jj), Lt(jj, Add(i, n0)), Eq(Select(hv, Select(av, jj)), kk)), Neq(fk, IntT(-1)))))
	d.fn("fnv64", SInt, SStr)
	hi := BigT(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1)))
	d.axiom("fnv64", Forall([]*Term{s}, [][]*Term{{App("fnv64", SInt, s)}}, And(Le(Zero, App("fnv64", SInt, s)), Le(App("fnv64", SInt, s), hi))))
	d.fn("strlt", SBool, SStr, SStr)
	lt := App("strlt", SBool, s, s2)
	// a < b: there is a first difference, or a is a proper prefix of b
	df := App("sdiff", SInt, s, s2)
	slen := func(t *Term) *Term { return App("slen", SInt, t) }
	sat := func(t, j *Term) *Term { return App("sat", SInt, t, j) }
	jv := Var("j", SInt)
	d.axiom("strlt", Forall([]*Term{s, s2}, [][]*Term{{lt}}, And(
		Le(Zero, df), Le(df, slen(s)), Le(df, slen(s2)),
		Implies(And(Lt(df, slen(s)), Lt(df, slen(s2))), Neq(sat(s, df), sat(s2, df))),
		Implies(Or(Eq(df, slen(s)), Eq(df, slen(s2))), Or(Eq(df, slen(s)), Eq(df, slen(s2)))),
		Eq(lt, Or(And(Eq(df, slen(s)), Lt(df, slen(s2))), And(Lt(df, slen(s)), Lt(df, slen(s2)), Lt(sat(s, df), sat(s2, df))))))))
	d.axiom("strlt", Forall([]*Term{s, s2, jv}, [][]*Term{{lt, sat(s, jv)}}, Implies(And(Le(Zero, jv), Lt(jv, df)), Eq(sat(s, jv), sat(s2, jv)))))
	d.axiom("strlt", Forall([]*Term{s, s2, jv}, [][]*Term{{lt, sat(s2, jv)}}, Implies(And(Le(Zero, jv), Lt(jv, df)), Eq(sat(s, jv), sat(s2, jv)))))
	d.fn("gid", SInt, SInt)
	d.fn("errmsg", SStr, SInt)
	d.fn("idxbyte", SInt, SStr, SInt, SInt)
	q := App("idxbyte", SInt, s, o, i)
	d.axiom("idxbyte", Forall([]*Term{s, o, i}, [][]*Term{{q}}, Or(Eq(q, IntT(-1)), And(Le(o, q), Lt(q, slen(s)), Eq(sat(s, q), i)))))
	d.axiom("idxbyte", Forall([]*Term{s, o, i, jv}, [][]*Term{{q, sat(s, jv)}}, Implies(And(Le(o, jv), Lt(jv, slen(s)), Or(Eq(q, IntT(-1)), Lt(jv, q))), Neq(sat(s, jv), i))))
	idx := func(a, b, c *Term) *Term { return App("idxbyte", SInt, a, b, c) }
	sub := App("ssub", SStr, s, o, jv)
	d.axiom("idxbyte", Forall([]*Term{s, o, i, jv}, [][]*Term{{q, sub}}, Implies(And(Le(Zero, o), Le(o, jv), Le(jv, slen(s))),
		Eq(idx(sub, Zero, i), Ite(And(Le(o, q), Lt(q, jv)), Sub(q, o), IntT(-1))))))
	s2 = Var("s2", SStr)
	cc := App("sconcat", SStr, s, s2)
	d.axiom("idxbyte", Forall([]*Term{s, s2, i}, [][]*Term{{idx(cc, Zero, i)}}, Eq(idx(cc, Zero, i),
		Ite(Le(Zero, idx(s, Zero, i)), idx(s, Zero, i), Ite(Le(Zero, idx(s2, Zero, i)), Add(slen(s), idx(s2, Zero, i)), IntT(-1))))))
	it := App("itoa", SStr, o)
	d.axiom("idxbyte", Forall([]*Term{o, i}, [][]*Term{{idx(it, Zero, i)}}, Implies(Lt(i, IntT('-')), Eq(idx(it, Zero, i), IntT(-1)))))
}

var _ = constant.MakeInt64

// protoFields sets the fields of a message to what a wire form determines.
func (x *Exec) protoFields(st *State, m *Term, w *Term) {
	t, ok := st.tags[m]
	if !ok {
		panic(unsupported{"proto.Unmarshal into a message of unknown type"})
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	sd, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(unsupported{"proto.Unmarshal into " + t.String()})
	}
	for i := 0; i < sd.NumFields(); i++ {
		f := sd.Field(i)
		if !f.Exported() {
			continue
		}
		a := &Addr{Key: structKey(t) + "." + f.Name(), Base: m, T: f.Type()}
		var v Val
		if b, ok := f.Type().Underlying().(*types.Basic); ok {
			v = App("uf!proto"+f.Name(), sortOf(b), w)
			st.learn(v, f.Type())
		} else {
			v = st.freshVal(f.Type(), "proto")
			st.learn(v, f.Type())
		}
		st.storeAddr(a, v)
	}
}
