package container

import (
	"bytes"
	"fmt"
	"strconv"
	"testing"

	zz "github.com/lxdlam/vertex/pkg/zzfalsify"
)

// whole checks that the representations of one stored value agree.
func whole(s *zz.Search, c *StringContainer, want string, in interface{}) {
	if c == nil {
		s.Found("no value", in)
	}
	f := NewString(want)
	n, err := strconv.ParseInt(want, 10, 64)
	got, gerr := c.Int()
	if c.String() != want || c.Len() != len(want) || !bytes.Equal(c.Byte(), []byte(want)) || c.Hash() != f.Hash() || !c.Equals(f) || !f.Equals(c) ||
		c.IsInt() != (err == nil) || (err == nil && (gerr != nil || got != n)) || (err != nil && gerr == nil) {
		s.Found(fmt.Sprintf("value should be %q but is text %q, length %d, bytes %q, hash %d (want %d), integer %v %v", want, c.String(), c.Len(), c.Byte(), c.Hash(), f.Hash(), got, gerr), in)
	}
}

func history(t *testing.T, ints bool) {
	s := zz.New(t)
	for s.More() {
		var tr []string
		s.Guard(func() interface{} { return tr }, func() {
			m := NewStringMap()
			ref := map[string]string{}
			keys := []string{s.Str(), s.Str(), s.Str()}
			val := func() string {
				if ints && s.Rnd.Intn(4) != 0 {
					return strconv.FormatInt(s.Int(20), 10)
				}
				return s.Str()
			}
			for i := s.Rnd.Intn(12); i >= 0; i-- {
				k := keys[s.Rnd.Intn(3)]
				switch s.Rnd.Intn(6) {
				case 0, 1:
					var ks, vs []*StringContainer
					var rk, rv []string
					for j := s.Rnd.Intn(4); j >= 0; j-- {
						k, v := keys[s.Rnd.Intn(3)], val()
						rk, rv = append(rk, k), append(rv, v)
						ks, vs = append(ks, NewString(k)), append(vs, NewString(v))
					}
					if s.Rnd.Intn(8) == 0 {
						vs = vs[1:]
						tr = append(tr, fmt.Sprintf("set %q with %d values", rk, len(vs)))
						if m.Set(ks, vs) == nil {
							s.Found("keys and values of different number accepted", tr)
						}
						break
					}
					tr = append(tr, fmt.Sprintf("set %q %q", rk, rv))
					if err := m.Set(ks, vs); err != nil {
						s.Found(err.Error(), tr)
					}
					for j := range rk {
						ref[rk[j]] = rv[j]
					}
				case 2:
					v := val()
					tr = append(tr, fmt.Sprintf("append %q %q", k, v))
					n := m.Append(NewString(k), NewString(v))
					ref[k] += v
					if n != len(ref[k]) {
						s.Found(fmt.Sprintf("append replied %d", n), tr)
					}
				default:
					d := s.Int(10)
					if s.Rnd.Intn(3) == 0 {
						d = int64(s.Rnd.Intn(5) - 2)
					}
					up := s.Rnd.Intn(2) == 0
					tr = append(tr, fmt.Sprintf("add %v %q %d", up, k, d))
					var r int64
					var err error
					if up {
						r, err = m.Increase(NewString(k), d)
					} else {
						r, err = m.Decrease(NewString(k), d)
					}
					cur, perr := strconv.ParseInt(ref[k], 10, 64)
					if _, ok := ref[k]; !ok || perr != nil {
						if err == nil {
							s.Found("counted on a missing key or a non-integer", tr)
						}
						break
					}
					w := cur + d
					bad := (d > 0 && w < cur) || (d < 0 && w > cur)
					if !up {
						w = cur - d
						bad = (d > 0 && w > cur) || (d < 0 && w < cur)
					}
					if bad != (err != nil) {
						s.Found(fmt.Sprintf("result %d error %v", r, err), tr)
					}
					if !bad {
						if r != w {
							s.Found(fmt.Sprintf("result %d, want %d", r, w), tr)
						}
						ref[k] = strconv.FormatInt(w, 10)
					}
				}
				for _, k := range keys {
					g := m.Get([]*StringContainer{NewString(k)})
					n, err := m.StringLen(NewString(k))
					v, ok := ref[k]
					if !ok {
						if len(g) != 1 || g[0] != nil || err == nil {
							s.Found("a key that was never set exists", append(tr, k))
						}
						continue
					}
					if len(g) != 1 || err != nil || n != len(v) {
						s.Found(fmt.Sprintf("length %d error %v", n, err), append(tr, k))
					}
					whole(s, g[0], v, append(tr, k))
				}
				if m.Len() != len(ref) {
					s.Found(fmt.Sprintf("%d keys, want %d", m.Len(), len(ref)), tr)
				}
			}
		})
	}
}

func TestFalsify_C03(t *testing.T) { history(t, false) }
func TestFalsify_C04(t *testing.T) { history(t, true) }

func names(l []*StringContainer) string {
	var r []string
	for _, c := range l {
		if c == nil {
			r = append(r, "nil")
		} else {
			r = append(r, c.String())
		}
	}
	return fmt.Sprintf("%q", r)
}

func news(l []string) []*StringContainer {
	var r []*StringContainer
	for _, v := range l {
		r = append(r, NewString(v))
	}
	return r
}

// listState checks the list from both ends.
func listState(s *zz.Search, l ListContainer, ref []string, tr []string) {
	if l.Len() != len(ref) {
		s.Found(fmt.Sprintf("length %d, want %d", l.Len(), len(ref)), tr)
	}
	for i := range ref {
		for _, p := range []int{i, i - len(ref)} {
			c, err := l.Index(p)
			if err != nil || c.String() != ref[i] {
				s.Found(fmt.Sprintf("position %d: error %v, want %q", p, err, ref[i]), tr)
			}
		}
	}
	for _, p := range []int{len(ref), -len(ref) - 1} {
		if _, err := l.Index(p); err == nil {
			s.Found(fmt.Sprintf("position %d exists", p), tr)
		}
	}
	if len(ref) > 0 {
		r, err := l.Range(0, -1)
		if err != nil || names(r) != names(news(ref)) {
			s.Found(fmt.Sprintf("range %s error %v, want %q", names(r), err, ref), tr)
		}
	}
}

func lists(t *testing.T, edit int) {
	s := zz.New(t)
	for s.More() {
		var tr []string
		s.Guard(func() interface{} { return tr }, func() {
			l, other := NewLinkedListContainer("l"), NewLinkedListContainer("o")
			other.PushTail(news([]string{"x", "y"}))
			var ref []string
			vals := []string{"", "a", s.Str(), s.Str()}
			v := func() string { return vals[s.Rnd.Intn(4)] }
			for i := s.Rnd.Intn(14); i >= 0; i-- {
				switch op := s.Rnd.Intn(5 + edit); op {
				case 0, 1:
					var a []string
					for j := s.Rnd.Intn(4); j >= 0; j-- {
						a = append(a, v())
					}
					tr = append(tr, fmt.Sprintf("push %d %q", op, a))
					if op == 0 {
						l.PushHead(news(a))
						for _, x := range a {
							ref = append([]string{x}, ref...)
						}
					} else {
						l.PushTail(news(a))
						ref = append(ref, a...)
					}
				case 2, 3:
					tr = append(tr, fmt.Sprintf("pop %d", op))
					if len(ref) == 0 {
						break
					}
					if op == 2 {
						c, err := l.PopHead()
						if err != nil || c.String() != ref[0] {
							s.Found("popped another value", tr)
						}
						ref = ref[1:]
					} else {
						c, err := l.PopTail()
						if err != nil || c.String() != ref[len(ref)-1] {
							s.Found("popped another value", tr)
						}
						ref = ref[:len(ref)-1]
					}
				case 4:
					x, y := s.SmallInt(6), s.SmallInt(6)
					r, err := l.Range(x, y)
					tr = append(tr, fmt.Sprintf("range %d %d", x, y))
					p, q, ok := span(x, y, len(ref))
					if ok != (err == nil) || (ok && names(r) != names(news(ref[p:q+1]))) {
						s.Found(fmt.Sprintf("range returned %s %v", names(r), err), tr)
					}
				case 5:
					p, x, after := v(), v(), s.Rnd.Intn(2) == 0
					tr = append(tr, fmt.Sprintf("insert %q %q %v", p, x, after))
					n, err := l.Insert(NewString(p), NewString(x), after)
					at := -1
					for j := range ref {
						if ref[j] == p {
							at = j
							break
						}
					}
					if (at < 0) != (err != nil) {
						s.Found(fmt.Sprintf("insert returned %d %v", n, err), tr)
					}
					if at >= 0 {
						if after {
							at++
						}
						ref = append(append(append([]string{}, ref[:at]...), x), ref[at:]...)
						if n != len(ref) {
							s.Found(fmt.Sprintf("insert returned %d %v", n, err), tr)
						}
					}
				case 6:
					p, x := s.SmallInt(6), v()
					tr = append(tr, fmt.Sprintf("set %d %q", p, x))
					err := l.Set(p, NewString(x))
					q := p
					if q < 0 {
						q += len(ref)
					}
					if (q >= 0 && q < len(ref)) != (err == nil) {
						s.Found(fmt.Sprint("set returned ", err), tr)
					}
					if err == nil {
						ref = append([]string{}, ref...)
						ref[q] = x
					}
				case 7:
					c, x := s.SmallInt(4), v()
					if s.Rnd.Intn(10) == 0 {
						c = int(s.Int(3))
					}
					tr = append(tr, fmt.Sprintf("remove %d %q", c, x))
					n := l.Remove(c, NewString(x))
					var keep []string
					k := 0
					if c >= 0 {
						for _, y := range ref {
							if y == x && (c == 0 || k < c) {
								k++
							} else {
								keep = append(keep, y)
							}
						}
					} else {
						for j := len(ref) - 1; j >= 0; j-- {
							if ref[j] == x && -k > c {
								k++
							} else {
								keep = append([]string{ref[j]}, keep...)
							}
						}
					}
					ref = keep
					if n != k {
						s.Found(fmt.Sprintf("remove returned %d, want %d", n, k), tr)
					}
				case 8:
					x, y := s.SmallInt(6), s.SmallInt(6)
					tr = append(tr, fmt.Sprintf("trim %d %d", x, y))
					err := l.Trim(x, y)
					p, q, ok := span(x, y, len(ref))
					if ok != (err == nil) {
						s.Found(fmt.Sprint("trim returned ", err), tr)
					}
					if ok {
						ref = append([]string{}, ref[p:q+1]...)
					}
				}
				listState(s, l, ref, tr)
			}
			listState(s, other, []string{"x", "y"}, append(tr, "the other list"))
		})
	}
}

func span(l, r, n int) (int, int, bool) {
	if l < 0 {
		l += n
	}
	if r < 0 {
		r += n
	}
	if r >= n {
		r = n - 1
	}
	return l, r, l >= 0 && r >= 0 && l < n && l <= r
}

func TestFalsify_C05(t *testing.T) { lists(t, 0) }
func TestFalsify_C06(t *testing.T) { lists(t, 4) }

func TestFalsify_C07(t *testing.T) {
	s := zz.New(t)
	for s.More() {
		var tr []string
		s.Guard(func() interface{} { return tr }, func() {
			h := NewHashContainer("h")
			ref := map[string]string{}
			vals := []string{"", "a", s.Str(), s.Str(), s.Str()}
			v := func() string { return vals[s.Rnd.Intn(len(vals))] }
			for i := s.Rnd.Intn(12); i >= 0; i-- {
				var k, w []string
				for j := s.Rnd.Intn(4); j >= 0; j-- {
					k, w = append(k, v()), append(w, v())
				}
				before := len(ref)
				if s.Rnd.Intn(2) == 0 {
					tr = append(tr, fmt.Sprintf("set %q %q", k, w))
					n, err := h.Set(news(k), news(w))
					for j := range k {
						ref[k[j]] = w[j]
					}
					if err != nil || n != len(ref)-before {
						s.Found(fmt.Sprintf("set returned %d %v", n, err), tr)
					}
					if _, err := h.Set(news(append(k, "a")), news(w)); err == nil {
						s.Found("keys and values of different number accepted", tr)
					}
				} else {
					tr = append(tr, fmt.Sprintf("del %q", k))
					n := h.Del(news(k))
					for j := range k {
						delete(ref, k[j])
					}
					if n != before-len(ref) {
						s.Found(fmt.Sprintf("del returned %d", n), tr)
					}
				}
				if h.Len() != len(ref) {
					s.Found("wrong length", tr)
				}
				for _, f := range vals {
					x, ok := ref[f]
					n, err := h.KeyLen(NewString(f))
					g := h.Get(news([]string{f, f}))
					if h.Exists(NewString(f)) != ok || (err == nil) != ok || n != len(x) || len(g) != 2 || (g[1] != nil) != ok || g[0] != g[1] {
						s.Found(fmt.Sprintf("field %q: length %d error %v get %s", f, n, err, names(g)), tr)
					}
					if ok {
						whole(s, g[0], x, tr)
					}
				}
				ks, vs := h.Entries()
				seen := map[string]string{}
				for j := range ks {
					seen[ks[j].String()] = vs[j].String()
				}
				if len(ks) != len(ref) || len(vs) != len(ref) || fmt.Sprint(seen) != fmt.Sprint(ref) || len(h.Keys()) != len(ref) || len(h.Values()) != len(ref) {
					s.Found(fmt.Sprintf("entries %q, want %q", seen, ref), tr)
				}
			}
		})
	}
}

func sets(t *testing.T, alg bool) {
	s := zz.New(t)
	for s.More() {
		var tr []string
		s.Guard(func() interface{} { return tr }, func() {
			var cs [3]SetContainer
			var ref [3]map[string]bool
			vals := []string{"", "a", s.Str(), s.Str(), s.Str()}
			v := func() string { return vals[s.Rnd.Intn(len(vals))] }
			for i := range cs {
				cs[i], ref[i] = NewSetContainer("s"), map[string]bool{}
			}
			same := func() {
				for i := range cs {
					got := map[string]bool{}
					m := cs[i].Members()
					for _, c := range m {
						got[c.String()] = true
					}
					if len(m) != len(ref[i]) || fmt.Sprint(got) != fmt.Sprint(ref[i]) || cs[i].Len() != len(m) {
						s.Found(fmt.Sprintf("set %d is %q, want %q", i, got, ref[i]), tr)
					}
					for _, x := range vals {
						if cs[i].IsMember(NewString(x)) != ref[i][x] {
							s.Found("wrong membership", tr)
						}
					}
				}
			}
			for i := s.Rnd.Intn(10); i >= 0; i-- {
				j := s.Rnd.Intn(3)
				var a []string
				for k := s.Rnd.Intn(4); k >= 0; k-- {
					a = append(a, v())
				}
				before := len(ref[j])
				switch s.Rnd.Intn(4) {
				case 0, 1:
					tr = append(tr, fmt.Sprintf("add %d %q", j, a))
					n := cs[j].Add(news(a))
					for _, x := range a {
						ref[j][x] = true
					}
					if n != len(ref[j])-before {
						s.Found(fmt.Sprintf("add returned %d", n), tr)
					}
				case 2:
					tr = append(tr, fmt.Sprintf("delete %d %q", j, a))
					n := cs[j].Delete(news(a))
					for _, x := range a {
						delete(ref[j], x)
					}
					if n != before-len(ref[j]) {
						s.Found(fmt.Sprintf("delete returned %d", n), tr)
					}
				default:
					c := s.SmallInt(4)
					if s.Rnd.Intn(10) == 0 {
						c = int(s.Int(3))
					}
					pop := s.Rnd.Intn(2) == 0
					tr = append(tr, fmt.Sprintf("pick %d %d pop %v", j, c, pop))
					var r []*StringContainer
					if pop {
						r = cs[j].Pop(c)
					} else {
						r = cs[j].RandomMember(c)
					}
					want := before
					if c >= 0 && c < want {
						want = c
					}
					if c < 0 && c > -want {
						want = -c
					}
					got := map[string]bool{}
					for _, x := range r {
						if x == nil || got[x.String()] || !ref[j][x.String()] {
							s.Found("picked no member: "+names(r), tr)
						}
						got[x.String()] = true
					}
					if len(r) != want {
						s.Found(fmt.Sprintf("picked %d, want %d", len(r), want), tr)
					}
					if pop {
						for x := range got {
							delete(ref[j], x)
						}
					}
				}
				same()
				if !alg {
					continue
				}
				var os []SetContainer
				var or []int
				for k := s.Rnd.Intn(4); k > 0; k-- {
					p := s.Rnd.Intn(3)
					os, or = append(os, cs[p]), append(or, p)
				}
				for op := 0; op < 3; op++ {
					want := map[string]bool{}
					for x := range ref[j] {
						want[x] = true
					}
					var r SetContainer
					switch op {
					case 0:
						r = cs[j].Diff(os)
						for _, p := range or {
							for x := range ref[p] {
								delete(want, x)
							}
						}
					case 1:
						r = cs[j].Intersect(os)
						for _, p := range or {
							for x := range want {
								if !ref[p][x] {
									delete(want, x)
								}
							}
						}
					default:
						r = cs[j].Union(os)
						for _, p := range or {
							for x := range ref[p] {
								want[x] = true
							}
						}
					}
					got := map[string]bool{}
					for _, x := range r.Members() {
						got[x.String()] = true
					}
					if fmt.Sprint(got) != fmt.Sprint(want) || r.Len() != len(want) {
						s.Found(fmt.Sprintf("operation %d of set %d with %v is %q, want %q", op, j, or, got, want), tr)
					}
				}
				same()
			}
		})
	}
}

func TestFalsify_C08(t *testing.T) { sets(t, false) }
func TestFalsify_C09(t *testing.T) { sets(t, true) }

func TestFalsify_C19(t *testing.T) {
	s := zz.New(t)
	for s.More() {
		var tr []string
		s.Guard(func() interface{} { return tr }, func() {
			c := NewContainers()
			keys := []string{"", "a", s.Str(), s.Str(), "global"}
			known := map[string]ContainerObject{}
			g := c.Global()
			for i := s.Rnd.Intn(30); i >= 0; i-- {
				k := keys[s.Rnd.Intn(len(keys))]
				kind := s.Rnd.Intn(3)
				create := s.Rnd.Intn(2) == 0
				var o ContainerObject
				isNil := true
				var typ ContainerType
				switch kind {
				case 0:
					typ = LinkedListType
					x := c.GetList(k)
					if create {
						x = c.GetOrCreateList(k)
					}
					o, isNil = x, x == nil
				case 1:
					typ = HashType
					x := c.GetHash(k)
					if create {
						x = c.GetOrCreateHash(k)
					}
					o, isNil = x, x == nil
				default:
					typ = SetType
					x := c.GetSet(k)
					if create {
						x = c.GetOrCreateSet(k)
					}
					o, isNil = x, x == nil
				}
				id := fmt.Sprint(kind, k)
				tr = append(tr, fmt.Sprintf("kind %d key %q create %v", kind, k, create))
				old, had := known[id]
				switch {
				case !had && !create && !isNil:
					s.Found("a read created the key", tr)
				case had && (isNil || o != old):
					s.Found("another collection under the same name", tr)
				case !had && create && k != "":
					if isNil {
						s.Found("the key was not created", tr)
					}
					for n, p := range known {
						if p == o {
							s.Found("shares the collection with "+n, tr)
						}
					}
					known[id] = o
				}
				if !isNil && (o.Type() != typ || o.Key() != k) {
					s.Found(fmt.Sprintf("collection says type %d key %q", o.Type(), o.Key()), tr)
				}
				if c.Global() != g || g.Type() != GlobalType {
					s.Found("the string map changed", tr)
				}
			}
		})
	}
}
