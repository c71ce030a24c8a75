package container

import (
	"testing"

	"github.com/lxdlam/vertex/pkg/util"
	zz "github.com/lxdlam/vertex/pkg/zzfalsify"
)

func sgn(i int) int {
	if i < 0 {
		return -1
	} else if i > 0 {
		return 1
	}
	return 0
}

func TestFalsify_C02(t *testing.T) {
	s := zz.New(t)
	for i := 0; i < 100000 && s.More(); i++ {
		a, b := s.Str(), s.Str()
		s.Guard(func() interface{} { return []string{a, b} }, func() {
			got := NewString(a).CompareTo(NewString(b))
			w := 0
			if a < b {
				w = -1
			} else if a > b {
				w = 1
			}
			if sgn(got) != w {
				s.Found("CompareTo", []interface{}{a, b, got})
			}
			_ = util.LexicalCompare
		})
	}
}
