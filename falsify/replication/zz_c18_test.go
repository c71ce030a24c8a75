package replication

import (
	"net"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/lxdlam/vertex/pkg/log"
	zz "github.com/lxdlam/vertex/pkg/zzfalsify"
)

func TestFalsify_C18(t *testing.T) {
	s := zz.New(t)
	dir := t.TempDir()
	for i := 0; i < 30 && s.More(); i++ {
		s.Guard(func() interface{} { return "connections handled while the master stops" }, func() {
			path := filepath.Join(dir, "log")
			f, err := os.Create(path)
			if err != nil {
				t.Skip(err)
			}
			defer f.Close()
			mi := NewMaster(&net.TCPAddr{IP: []byte{127, 0, 0, 1}, Port: 0})
			m, ok := mi.(*master)
			if !ok {
				t.Skip("no loopback")
			}
			use := path
			if i%3 == 2 {
				use = filepath.Join(dir, "absent")
			}
			m.SetFile(log.NewPersistentFile(f), use)
			var wg sync.WaitGroup
			handle := func(kill bool) {
				defer wg.Done()
				a, b := net.Pipe()
				done := make(chan bool)
				go func() { m.handleConn(b); close(done) }()
				if kill {
					a.Close()
				} else {
					buf := make([]byte, 64)
					a.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
					a.Read(buf)
					a.Close()
				}
				<-done
			}
			for g := 0; g < 6; g++ {
				wg.Add(1)
				go handle(g%2 == 0)
			}
			wg.Add(1)
			go func() { defer wg.Done(); time.Sleep(time.Duration(i*100) * time.Microsecond); m.stop(); m.stop() }()
			wg.Wait()
			m.mutex.Lock()
			m.mutex.Unlock()
			m.listener.Close()
		})
	}
}
