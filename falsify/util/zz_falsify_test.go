package util

import (
	"testing"

	zz "github.com/lxdlam/vertex/pkg/zzfalsify"
)

func normIdx(i, n int) int {
	if i < 0 {
		return i + n
	}
	return i
}

func TestFalsify_C01(t *testing.T) {
	s := zz.New(t)
	check := func(a, b, n int) {
		s.Guard(func() interface{} { return []int{a, b, n} }, func() {
			want := normIdx(a, n)
			if got := NewIndex(a).ResolveRaw(n); got != want {
				s.Found("Index.ResolveRaw", map[string]int{"index": a, "size": n, "got": got, "want": want})
			}
			if want < 0 || want >= n {
				want = -1
			}
			if got := NewIndex(a).Resolve(n); got != want {
				s.Found("Index.Resolve", map[string]int{"index": a, "size": n, "got": got, "want": want})
			}
			l, r := normIdx(a, n), normIdx(b, n)
			if gl, gr := NewSlice(a, b).ResolveRaw(n); gl != l || gr != r {
				s.Found("Slice.ResolveRaw", []int{a, b, n, gl, gr, l, r})
			}
			if l < 0 || r < 0 || l >= n || l > r {
				l, r = -1, -1
			} else if r >= n {
				r = n - 1
			}
			if gl, gr := NewSlice(a, b).Resolve(n); gl != l || gr != r {
				s.Found("Slice.Resolve", map[string]int{"left": a, "right": b, "size": n, "gotL": gl, "gotR": gr, "wantL": l, "wantR": r})
			}
		})
	}
	for n := 0; n <= 8; n++ {
		for a := -11; a <= 11; a++ {
			for b := -11; b <= 11; b++ {
				check(a, b, n)
			}
		}
	}
	for i := 0; i < 300000 && s.More(); i++ {
		n := s.SmallInt(40)
		if n < 0 {
			n = -n
		}
		big := func() int {
			v := int(s.Int(50))
			if v < -(1<<62) || v > 1<<62 { // the sum with the size stays in range
				v /= 2
			}
			return v
		}
		if s.Rnd.Intn(4) == 0 {
			n = int(s.Int(1000))
			if n < 0 || n > 1<<61 {
				n = 7
			}
		}
		check(big(), big(), n)
	}
}

func refCompare(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -(i + 1)
			}
			return i + 1
		}
	}
	m := len(a)
	if len(b) < m {
		m = len(b)
	}
	if m == 0 {
		m = 1
	}
	switch {
	case len(a) == len(b):
		return 0
	case len(a) < len(b):
		return -m
	}
	return m
}

func TestFalsify_C02(t *testing.T) {
	s := zz.New(t)
	check := func(a, b string) {
		s.Guard(func() interface{} { return []string{a, b} }, func() {
			if got, want := LexicalCompare(a, b), refCompare(a, b); got != want {
				s.Found("LexicalCompare", []interface{}{a, b, "got", got, "want", want})
			}
		})
	}
	var all []string
	var gen func(p string, n int)
	gen = func(p string, n int) {
		all = append(all, p)
		if n == 0 {
			return
		}
		for _, c := range []byte{0, 'a', 0x7f, 0xff} {
			gen(p+string([]byte{c}), n-1)
		}
	}
	gen("", 3)
	for _, a := range all {
		for _, b := range all {
			check(a, b)
		}
	}
	for i := 0; i < 400000 && s.More(); i++ {
		a := s.Str()
		b := s.Str()
		if s.Rnd.Intn(2) == 0 {
			b = a + s.Str()
		}
		if s.Rnd.Intn(3) == 0 && len(a) > 0 {
			x := []byte(a)
			x[s.Rnd.Intn(len(x))] ^= byte(1 << uint(s.Rnd.Intn(8)))
			b = string(x)
		}
		check(a, b)
		check(b, a)
	}
}
