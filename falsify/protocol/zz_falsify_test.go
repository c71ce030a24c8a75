package protocol

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"strconv"
	"strings"
	"testing"

	zz "github.com/lxdlam/vertex/pkg/zzfalsify"
)

// tree is a reply described independently of the package under test.
type tree struct {
	Kind string // + - : $ * $nil *nil
	Data string
	N    int64
	Kids []*tree
}

func (v *tree) String() string {
	if v.Kind == "*" {
		return fmt.Sprintf("%s%v", v.Kind, v.Kids)
	}
	if v.Kind == ":" {
		return fmt.Sprintf(":%d", v.N)
	}
	if len(v.Data) > 80 {
		return fmt.Sprintf("%s%q...(%d bytes)", v.Kind, v.Data[:80], len(v.Data))
	}
	return fmt.Sprintf("%s%q", v.Kind, v.Data)
}

func (v *tree) enc() string {
	switch v.Kind {
	case "+", "-":
		return v.Kind + v.Data + "\r\n"
	case ":":
		return ":" + strconv.FormatInt(v.N, 10) + "\r\n"
	case "$":
		return "$" + strconv.Itoa(len(v.Data)) + "\r\n" + v.Data + "\r\n"
	case "$nil":
		return "$-1\r\n"
	case "*nil":
		return "*-1\r\n"
	}
	s := "*" + strconv.Itoa(len(v.Kids)) + "\r\n"
	for _, k := range v.Kids {
		s += k.enc()
	}
	return s
}

func (v *tree) build() RedisObject {
	switch v.Kind {
	case "+":
		return NewSimpleRedisString(v.Data)
	case "-":
		if len(v.Data)%2 == 0 {
			return NewRedisErrorFromGoError(errors.New(v.Data))
		}
		return NewRedisError(v.Data)
	case ":":
		return NewRedisInteger(v.N)
	case "$":
		return NewBulkRedisString(v.Data)
	case "$nil":
		return NewNullBulkRedisString()
	case "*nil":
		return NewNullRedisArray()
	}
	kids := make([]RedisObject, 0, len(v.Kids))
	for _, k := range v.Kids {
		kids = append(kids, k.build())
	}
	return NewRedisArray(kids)
}

func (v *tree) canon() bool {
	if v.Kind == "+" || v.Kind == "-" {
		return !strings.Contains(v.Data, "\n")
	}
	for _, k := range v.Kids {
		if !k.canon() {
			return false
		}
	}
	return true
}

func genTree(s *zz.Search, depth int) *tree {
	k := s.Rnd.Intn(9)
	if depth > 0 && s.Rnd.Intn(3) == 0 {
		k = 7
	}
	switch k {
	case 0:
		return &tree{Kind: "+", Data: s.Str()}
	case 1:
		return &tree{Kind: "-", Data: s.Str()}
	case 2:
		return &tree{Kind: ":", N: s.Int(100)}
	case 3:
		return &tree{Kind: "$nil"}
	case 4:
		return &tree{Kind: "*nil"}
	case 5, 6:
		d := s.Str()
		if s.Rnd.Intn(20) == 0 {
			d = strings.Repeat("x", 4000+s.Rnd.Intn(9000))
		}
		if s.Rnd.Intn(10) == 0 {
			d += "\r\n" + s.Str()
		}
		return &tree{Kind: "$", Data: d}
	case 7:
		if depth == 0 {
			return &tree{Kind: "*"}
		}
		n := s.Rnd.Intn(4)
		if s.Rnd.Intn(30) == 0 {
			n = 9 + s.Rnd.Intn(120)
			depth = 1
		}
		t := &tree{Kind: "*"}
		for i := 0; i < n; i++ {
			t.Kids = append(t.Kids, genTree(s, depth-1))
		}
		return t
	}
	return &tree{Kind: ":", N: []int64{0, -1, 1, math.MaxInt64, math.MinInt64, 10, -10}[s.Rnd.Intn(7)]}
}

// same compares an object with its description.
func same(o RedisObject, v *tree) string {
	if o == nil {
		return "nil object"
	}
	if got := string(o.Byte()); got != v.enc() {
		return fmt.Sprintf("Byte() = %q", got)
	}
	if got := o.String(); got != v.enc() {
		return fmt.Sprintf("String() = %q", got)
	}
	if got := o.Type(); got != v.Kind[:1] {
		return fmt.Sprintf("Type() = %q", got)
	}
	switch v.Kind {
	case "+", "$", "$nil":
		x, ok := o.(RedisString)
		if !ok || x.Data() != v.Data {
			return fmt.Sprintf("string value %#v", o)
		}
	case "-":
		x, ok := o.(RedisError)
		if !ok || x.Message() != v.Data || x.Error() == nil || x.Error().Error() != v.Data {
			return fmt.Sprintf("error value %#v", o)
		}
	case ":":
		x, ok := o.(RedisInteger)
		if !ok || x.Data() != v.N {
			return fmt.Sprintf("integer value %#v", o)
		}
	default:
		x, ok := o.(RedisArray)
		if !ok || len(x.Data()) != len(v.Kids) {
			return fmt.Sprintf("array value %#v", o)
		}
		for i, k := range x.Data() {
			if m := same(k, v.Kids[i]); m != "" {
				return fmt.Sprintf("element %d: %s", i, m)
			}
		}
	}
	return ""
}

// chunks delivers its bytes in random pieces.
type chunks struct {
	s   *zz.Search
	rem []byte
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.rem) == 0 {
		return 0, io.EOF
	}
	n := 1 + c.s.Rnd.Intn(len(c.rem))
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.rem[:n])
	c.rem = c.rem[n:]
	return n, nil
}

func TestFalsify_C12(t *testing.T) {
	s := zz.New(t)
	for i := 0; i < 60000 && s.More(); i++ {
		v := genTree(s, s.Rnd.Intn(5))
		s.Guard(func() interface{} { return v.String() }, func() {
			o := v.build()
			if m := same(o, v); m != "" {
				s.Found("encoding: "+m, v.String())
			}
			// reading an object again gives the same bytes
			if m := same(o, v); m != "" {
				s.Found("encoding read again: "+m, v.String())
			}
			if !v.canon() {
				return
			}
			p, err := Parse(&chunks{s, []byte(v.enc())})
			if err != nil {
				s.Found("Parse error "+err.Error(), v.String())
			}
			if m := same(p, v); m != "" {
				s.Found("round trip: "+m, v.String())
			}
			// consumption: several objects behind one another
			var all bytes.Buffer
			vs := []*tree{v}
			for j := 0; j < 1+s.Rnd.Intn(3); j++ {
				w := genTree(s, 2)
				if w.canon() {
					vs = append(vs, w)
				}
			}
			for _, w := range vs {
				all.WriteString(w.enc())
			}
			rd := NewRESPReader(&chunks{s, all.Bytes()})
			for j, w := range vs {
				p, err := rd.ReadObject()
				if err != nil {
					s.Found(fmt.Sprintf("object %d of a stream: error %v", j, err), fmt.Sprint(vs))
				}
				if m := same(p, w); m != "" {
					s.Found(fmt.Sprintf("object %d of a stream: %s", j, m), fmt.Sprint(vs))
				}
			}
			if p, err := rd.ReadObject(); err == nil {
				s.Found(fmt.Sprintf("an object behind the end: %q", p.Byte()), fmt.Sprint(vs))
			}
		})
	}
}

func TestFalsify_C13(t *testing.T) {
	s := zz.New(t)
	atoms := []string{"+", "-", ":", "$", "*", "\r\n", "\n", "\r", "0", "1", "2", "-1", "-2", "9223372036854775807", "-9223372036854775808", "9223372036854775806", "9223372036854775808", "+1", "00", " ", "a", "é", "\x00", "$-1\r\n", "*0\r\n", "*1\r\n", "*2\r\n", "$3\r\nabc\r\n", "+\r\n", ":1\r\n", ":\r\n", "$\r\n", "*\r\n", "*-5\r\n", "4611686018427387904", "2147483648", "-2147483649", "4294967296"}
	check := func(b []byte) {
		s.Guard(func() interface{} { return string(b) }, func() {
			rd := NewRESPReader(&chunks{s, append([]byte(nil), b...)})
			for n := 0; ; n++ {
				o, err := rd.ReadObject()
				if err != nil {
					if o != nil {
						s.Found("object and error", string(b))
					}
					break
				}
				if o == nil {
					s.Found("nil object without error", string(b))
				}
				if n > len(b) {
					s.Found("more objects than bytes", string(b))
				}
				_ = o.Byte()
				_ = o.String()
				_ = o.Type()
			}
			o, err := Parse(&chunks{s, append([]byte(nil), b...)})
			if (o == nil) != (err != nil) {
				s.Found("Parse: object and error disagree", string(b))
			}
		})
	}
	for _, a := range append([]string{""}, atoms...) {
		for _, b := range append([]string{""}, atoms...) {
			for _, c := range []string{"", "\r\n", "\r\n\r\n", "\r\n:1\r\n", "\r\nabcdefgh\r\n", "\n"} {
				check([]byte(a + b + c))
			}
		}
	}
	for i := 0; i < 60000 && s.More(); i++ {
		var b []byte
		switch s.Rnd.Intn(3) {
		case 0:
			for j := s.Rnd.Intn(8); j >= 0; j-- {
				b = append(b, atoms[s.Rnd.Intn(len(atoms))]...)
			}
		case 1: // a truncated encoding
			b = []byte(genTree(s, 3).enc())
			if len(b) > 2000 {
				b = b[:2000]
			}
			b = b[:s.Rnd.Intn(len(b)+1)]
		default: // a mutated encoding
			b = []byte(genTree(s, 3).enc() + genTree(s, 1).enc())
			if len(b) > 2000 {
				b = b[:2000]
			}
			for j := s.Rnd.Intn(3); j >= 0 && len(b) > 0; j-- {
				k := s.Rnd.Intn(len(b))
				switch s.Rnd.Intn(4) {
				case 0:
					b[k] = "+-:$*\r\n019 "[s.Rnd.Intn(11)]
				case 1:
					b = append(b[:k], b[k+1:]...)
				case 2:
					a := atoms[s.Rnd.Intn(len(atoms))]
					b = append(b[:k], append([]byte(a), b[k:]...)...)
				default:
					b[k] = byte(s.Rnd.Intn(256))
				}
			}
		}
		check(b)
	}
	runtime.KeepAlive(s)
}
