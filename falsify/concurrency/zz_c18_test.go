package concurrency

import (
	"fmt"
	"sync"
	"testing"
	"time"

	zz "github.com/lxdlam/vertex/pkg/zzfalsify"
)

func TestFalsify_C18(t *testing.T) {
	s := zz.New(t)
	free := func(e *eventBus) { e.mutex.Lock(); e.mutex.Unlock() }
	for i := 0; i < 40 && s.More(); i++ {
		s.Guard(func() interface{} { return "concurrent operations on an event bus" }, func() {
			e := &eventBus{topics: make(map[string]Topic)}
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for j := 0; j < 30; j++ {
						n := fmt.Sprint((g + j) % 3)
						switch (g * 3 + j) % 7 {
						case 0, 1:
							e.NewTopic(n)
						case 2:
							e.RemoveTopic(n)
						case 3:
							e.ExistTopic(n)
						case 4:
							e.Publish(n, 1, nil)
						case 5:
							e.PublishWithSource(n, "s", 1, nil)
						case 6:
							if g == 0 {
								e.Subscribe(n, "x")
								e.SubscribeWithOptions(n, "y", 1, time.Millisecond)
							} else {
								e.ExistTopic(n)
							}
						}
					}
				}(g)
			}
			wg.Wait()
			for _, n := range []string{"", "0", "q", "q", ""} {
				for _, op := range []func(){func() { e.Publish(n, nil, nil) }, func() { e.PublishWithSource(n, "", nil, nil) }, func() { e.Subscribe(n, "") }, func() { e.SubscribeWithOptions(n, "", 0, 0) },
					func() { e.NewTopic(n) }, func() { e.NewTopic(n) }, func() { e.ExistTopic(n) }, func() { e.Publish(n, nil, nil) }, func() { e.PublishWithSource(n, "", nil, nil) }, func() { e.RemoveTopic(n) }, func() { e.RemoveTopic(n) }} {
					op()
					free(e)
				}
			}
		})
	}
}
