// Package zzfalsify searches for failing inputs of the real code after the
// verifier rejected an obligation. It decides nothing: a property is decided by
// the verifier; this only looks for an input that demonstrates the failure.
package zzfalsify

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
)

// Search is one search for a failing input.
type Search struct {
	T        *testing.T
	Rnd      *rand.Rand
	Ints     []int64
	Strs     []string
	deadline time.Time
	Cases    int
}

func New(t *testing.T) *Search {
	seed, _ := strconv.ParseInt(os.Getenv("FALSIFY_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("FALSIFY_SECONDS"))
	if secs == 0 {
		secs = 10
	}
	s := &Search{T: t, Rnd: rand.New(rand.NewSource(seed + 7)), deadline: time.Now().Add(time.Duration(secs) * time.Second)}
	s.literals()
	return s
}

// More reports whether time is left.
func (s *Search) More() bool { s.Cases++; return time.Now().Before(s.deadline) }

// literals collects the constants of the source: conditions that need a
// specific value usually mention it.
func (s *Search) literals() {
	im := map[int64]bool{}
	sm := map[string]bool{}
	for _, v := range []int64{0, 1, 2, 3, 5, 7, 10, 100, -1, -2, -3, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxInt64 - 1, math.MinInt64 + 1} {
		im[v] = true
	}
	for _, v := range []string{"", "a", "b", "ab", "\x00", "\r\n", "\n", "0", "-1", "é", "\xff", "A", " ", "10", "dummy string"} {
		sm[v] = true
	}
	root := filepath.Join(os.Getenv("FALSIFY_SRC"), "pkg")
	fs := token.NewFileSet()
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.HasSuffix(p, ".pb.go") {
			return nil
		}
		f, err := parser.ParseFile(fs, p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
					for d := int64(-1); d <= 1; d++ {
						im[v+d] = true
						im[-(v + d)] = true
					}
				}
			case token.CHAR:
				if v, _, _, err := strconv.UnquoteChar(strings.Trim(l.Value, "'"), '\''); err == nil {
					sm[string(v)] = true
				}
			case token.STRING:
				if v, err := strconv.Unquote(l.Value); err == nil && len(v) <= 24 {
					sm[v] = true
				}
			}
			return true
		})
		return nil
	})
	for v := range im {
		s.Ints = append(s.Ints, v)
	}
	for v := range sm {
		s.Strs = append(s.Strs, v)
	}
	sort.Slice(s.Ints, func(i, j int) bool { return s.Ints[i] < s.Ints[j] })
	sort.Strings(s.Strs)
}

// Int draws an integer: small, from the source, or any.
func (s *Search) Int(small int) int64 {
	switch s.Rnd.Intn(10) {
	case 0:
		return int64(s.Rnd.Uint64())
	case 1, 2:
		return s.Ints[s.Rnd.Intn(len(s.Ints))]
	default:
		return int64(s.Rnd.Intn(2*small+1) - small)
	}
}

// SmallInt draws from [-n, n], sometimes a source constant below 1000.
func (s *Search) SmallInt(n int) int {
	if s.Rnd.Intn(6) == 0 {
		for k := 0; k < 20; k++ {
			v := s.Ints[s.Rnd.Intn(len(s.Ints))]
			if v > -2000 && v < 2000 {
				return int(v)
			}
		}
	}
	return s.Rnd.Intn(2*n+1) - n
}

// Str draws a string: tiny alphabet, from the source, or random bytes.
func (s *Search) Str() string {
	switch s.Rnd.Intn(8) {
	case 0, 1:
		return s.Strs[s.Rnd.Intn(len(s.Strs))]
	case 2:
		b := make([]byte, s.Rnd.Intn(12))
		s.Rnd.Read(b)
		return string(b)
	case 3:
		return strings.Repeat(string(rune('a'+s.Rnd.Intn(2))), s.Rnd.Intn(300))
	case 4:
		a, b := s.Strs[s.Rnd.Intn(len(s.Strs))], s.Strs[s.Rnd.Intn(len(s.Strs))]
		return a + b
	default:
		b := make([]byte, s.Rnd.Intn(5))
		for i := range b {
			b[i] = "ab\x00\xffA1"[s.Rnd.Intn(6)]
		}
		return string(b)
	}
}

// Found records a failing input and ends the test.
func (s *Search) Found(what string, input interface{}) {
	s.record(what, input)
	panic(found{fmt.Sprintf("failing input: %s: %#v", what, input)})
}

type found struct{ msg string }

func (s *Search) record(what string, input interface{}) {
	b, err := json.Marshal(map[string]interface{}{"what": what, "input": fmt.Sprintf("%#v", input), "case": s.Cases})
	if err != nil {
		b = []byte(fmt.Sprintf("%q", what))
	}
	if f := os.Getenv("FALSIFY_OUT"); f != "" {
		os.WriteFile(f, b, 0644)
	}
}

// Guard runs f; a panic or a hang of the real code is a finding.
func (s *Search) Guard(desc func() interface{}, f func()) {
	done := make(chan string, 1)
	hit := make(chan string, 1)
	go func() {
		defer func() {
			r := recover()
			if fd, ok := r.(found); ok {
				hit <- fd.msg
				return
			}
			if r != nil {
				done <- fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		f()
		done <- ""
	}()
	select {
	case m := <-hit:
		s.T.Fatal(m)
	case m := <-done:
		if m != "" {
			s.Found(m, desc())
		}
	case <-time.After(20 * time.Second):
		s.record("does not return within 20s", desc())
		fmt.Println("hang:", desc())
		os.Exit(1)
	}
}
