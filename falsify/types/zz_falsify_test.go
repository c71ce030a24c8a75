package types

import (
	"fmt"
	"sync"
	"testing"

	zz "github.com/lxdlam/vertex/pkg/zzfalsify"
)

func TestFalsify_C17(t *testing.T) {
	s := zz.New(t)
	for i := 0; i < 20000 && s.More(); i++ {
		for v, mk := range []func() DataMap{func() DataMap { return NewSimpleDataMap() }, func() DataMap { return NewLockedDataMap() }, func() DataMap { return NewSyncDataMap() }} {
			keys := []string{s.Str(), s.Str(), s.Str(), "a", "b", ""}
			var hist []string
			s.Guard(func() interface{} { return []interface{}{v, hist} }, func() {
				m, ref := mk(), map[string]interface{}{}
				other := mk()
				other.Set("a", 7)
				n := s.Rnd.Intn(24)
				for j := 0; j < n; j++ {
					k := keys[s.Rnd.Intn(len(keys))]
					switch s.Rnd.Intn(4) {
					case 0, 1:
						var val interface{}
						switch s.Rnd.Intn(4) {
						case 0:
							val = s.Rnd.Intn(3)
						case 1:
							val = s.Str()
						case 2:
							val = nil
						case 3:
							val = ""
						}
						hist = append(hist, fmt.Sprintf("Set(%q,%#v)", k, val))
						m.Set(k, val)
						ref[k] = val
					case 2:
						hist = append(hist, fmt.Sprintf("Remove(%q)", k))
						m.Remove(k)
						delete(ref, k)
					case 3:
						hist = append(hist, fmt.Sprintf("Get(%q)", k))
					}
					for _, k := range keys {
						got, ok := m.Get(k)
						want, wok := ref[k]
						if got != want || ok != wok || m.Has(k) != wok || m.Len() != len(ref) {
							s.Found(fmt.Sprintf("variant %d: Get(%q)=%v,%v Has=%v Len=%d, expected %v,%v Len=%d", v, k, got, ok, m.Has(k), m.Len(), want, wok, len(ref)), hist)
						}
					}
				}
				if x, ok := other.Get("a"); other.Len() != 1 || x != 7 || !ok {
					s.Found("another map changed", hist)
				}
			})
		}
	}
}

func TestFalsify_C18(t *testing.T) {
	s := zz.New(t)
	for i := 0; i < 200 && s.More(); i++ {
		s.Guard(func() interface{} { return "concurrent Set/Get/Has/Remove/Len on a locked data map" }, func() {
			m := NewLockedDataMap()
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for j := 0; j < 50; j++ {
						k := fmt.Sprint((g + j) % 5)
						switch (g + j) % 5 {
						case 0, 1:
							m.Set(k, j)
						case 2:
							m.Get(k)
						case 3:
							m.Has(k)
							m.Len()
						case 4:
							m.Remove(k)
						}
					}
				}(g)
			}
			wg.Wait()
			// each operation alone must leave the lock free
			for _, k := range []string{"", "a", "zz"} {
				for r := 0; r < 2; r++ {
					m.Get(k)
					m.mutex.Lock()
					m.mutex.Unlock()
					m.Has(k)
					m.mutex.Lock()
					m.mutex.Unlock()
					m.Len()
					m.mutex.Lock()
					m.mutex.Unlock()
					m.Set(k, r)
					m.mutex.Lock()
					m.mutex.Unlock()
					m.Remove(k)
					m.mutex.Lock()
					m.mutex.Unlock()
					m.Remove(k)
					m.Set(k, nil)
				}
			}
		})
	}
}
