package log

import (
	"os"
	"path/filepath"
	"sync"
	"testing"

	zz "github.com/lxdlam/vertex/pkg/zzfalsify"
)

func TestFalsify_C18(t *testing.T) {
	s := zz.New(t)
	dir := t.TempDir()
	free := func(p *PersistentFile) { p.mutex.Lock(); p.mutex.Unlock() }
	for i := 0; i < 60 && s.More(); i++ {
		s.Guard(func() interface{} { return "concurrent operations on a persistent file" }, func() {
			f, err := os.Create(filepath.Join(dir, "f"))
			if err != nil {
				t.Skip(err)
			}
			p := NewPersistentFile(f)
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for j := 0; j < 40; j++ {
						switch (g + j) % 7 {
						case 0:
							p.Available()
						case 1:
							p.Buffered()
						case 2:
							p.Flush()
						case 3:
							p.Size()
						case 4:
							p.Write([]byte("abc"))
						case 5:
							p.WriteByte('x')
						case 6:
							p.WriteString("abc")
						}
					}
				}(g)
			}
			wg.Wait()
			big := make([]byte, 10000)
			step := func() {
				for _, b := range [][]byte{nil, {}, {1}, big} {
					p.Write(b)
					free(p)
					p.WriteString(string(b))
					free(p)
				}
				for _, op := range []func(){func() { p.Available() }, func() { p.Buffered() }, func() { p.Flush() }, func() { p.Size() }, func() { p.WriteByte(1) }, func() { p.WriteByte(0) }} {
					op()
					free(p)
				}
			}
			step()
			f.Close() // every write now fails
			step()
			step()
		})
	}
}
