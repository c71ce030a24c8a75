package db

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/lxdlam/vertex/pkg/command"
	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/pkg/container"
	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/types"
	zz "github.com/lxdlam/vertex/pkg/zzfalsify"
)

var zTexts = []struct {
	err  error
	text string
}{
	{command.ErrCommandNotExist, "-ERR no such command\r\n"},
	{command.ErrArgumentInvalid, "-ERR invalid argument\r\n"},
	{container.ErrNotAInt, "-ERR value is not an integer or out of range\r\n"},
	{command.ErrNoSuchKey, "-ERR no such key\r\n"},
	{container.ErrOutOfRange, "-ERR index out of range\r\n"},
}

// zAnswer: is this text the reply to a failure of this kind?
func zAnswer(err error, text string) bool {
	known := false
	for _, k := range zTexts {
		if errors.Is(err, k.err) {
			known = true
			if text == k.text {
				return true
			}
		}
	}
	return !known && strings.HasPrefix(text, "-")
}

type zEvent struct{ data interface{} }

func (z *zEvent) Data() interface{} { return z.data }
func (z *zEvent) ID() string        { return "event" }
func (z *zEvent) Error() error      { return nil }
func (z *zEvent) Topic() string     { return "request" }
func (z *zEvent) Time() int64       { return 0 }
func (z *zEvent) Source() string    { return "test" }

type zReceiver struct{ events []concurrency.Event }

func (z *zReceiver) Receive() (concurrency.Event, error) {
	if len(z.events) == 0 {
		return nil, concurrency.ErrChannelClosed
	}
	e := z.events[0]
	z.events = z.events[1:]
	return e, nil
}
func (z *zReceiver) Close() {}

type zPublished struct {
	topic string
	data  interface{}
	err   error
}

type zBus struct {
	concurrency.EventBus
	sent []zPublished
}

func (z *zBus) Publish(t string, d interface{}, err error) concurrency.Future {
	z.sent = append(z.sent, zPublished{t, d, err})
	return nil
}

// zDirect executes a request on a database without the engine.
func zDirect(d DB, objects []protocol.RedisObject) (protocol.RedisObject, error) {
	n, ok := objects[0].(protocol.RedisString)
	if !ok {
		return nil, errors.New("unnamed")
	}
	c, err := command.NewCommand(n.Data(), 1, objects[1:])
	if err != nil {
		return nil, err
	}
	d.ExecuteCommand(c)
	return c.Result()
}

func (r *zrun) request() []string {
	names := zNames()
	for {
		n := names[r.s.Rnd.Intn(len(names))]
		if r.s.Rnd.Intn(12) == 0 {
			n = r.s.Str()
		}
		switch strings.ToLower(n) {
		case "spop", "srandmember", "hkeys", "hvals", "hgetall", "smembers", "sdiff", "sinter", "sunion":
			continue // replies depend on the iteration order of a map
		}
		return append([]string{r.mixCase(n)}, r.args(strings.ToLower(n))...)
	}
}

func TestFalsify_C20(t *testing.T) {
	s := zz.New(t)
	for s.More() {
		var in [][]string
		s.Guard(func() interface{} { return in }, func() {
			r := newRun(s)
			k := zTexts[s.Rnd.Intn(len(zTexts))]
			err := k.err
			for i := s.Rnd.Intn(4); i > 0; i-- {
				err = fmt.Errorf("%s {%w}", s.Str(), err)
			}
			if got := handleError(err).String(); got != k.text {
				s.Found(fmt.Sprintf("the error %q is answered with %q", err, got), in)
			}
			bus, recv := &zBus{}, &zReceiver{}
			e := &engine{eventBus: bus, requestReceiver: recv, shutChan: make(chan struct{})}
			d := NewDB(1)
			type want struct {
				id  string
				o   protocol.RedisObject
				err error
			}
			var ws []want
			for i := s.Rnd.Intn(12); i >= 0; i-- {
				if s.Rnd.Intn(10) == 0 {
					junk := types.NewSimpleDataMap()
					var data interface{} = junk
					switch s.Rnd.Intn(5) {
					case 0:
						data = 5
					case 1:
						junk.Set("id", "x")
					case 2:
						junk.Set("id", 3)
						junk.Set("request", protocol.NewRedisArray(wrap([]string{"get", "a"}, nil)))
					case 3:
						junk.Set("id", "x")
						junk.Set("request", protocol.NewBulkRedisString("get"))
					}
					recv.events = append(recv.events, &zEvent{data})
					in = append(in, []string{"(malformed)"})
					continue
				}
				args := r.request()
				objects := wrap(args, s)
				if s.Rnd.Intn(20) == 0 {
					objects[0] = protocol.NewRedisInteger(7)
				}
				in = append(in, args)
				m := types.NewSimpleDataMap()
				id := s.Str()
				m.Set("id", id)
				m.Set("request", protocol.NewRedisArray(objects))
				recv.events = append(recv.events, &zEvent{m})
				o, err := zDirect(d, objects)
				ws = append(ws, want{id, o, err})
			}
			e.Start()
			if len(bus.sent) != len(ws) {
				s.Found(fmt.Sprintf("%d replies to %d requests", len(bus.sent), len(ws)), in)
			}
			for i, p := range bus.sent {
				m, ok := p.data.(types.DataMap)
				if !ok || p.topic != "response" {
					s.Found("a reply is published elsewhere", in)
				}
				id, _ := m.Get("id")
				if id != ws[i].id {
					s.Found(fmt.Sprintf("reply %d carries the id %q, want %q", i, id, ws[i].id), in)
				}
				x, _ := m.Get("response")
				o, ok := x.(protocol.RedisObject)
				if !ok || o == nil {
					s.Found("a reply without an object", in)
				}
				if ws[i].err == nil && o.String() != ws[i].o.String() {
					s.Found(fmt.Sprintf("reply %d is %q, the command returned %q", i, o.String(), ws[i].o.String()), in)
				}
				if ws[i].err != nil && !zAnswer(ws[i].err, o.String()) {
					s.Found(fmt.Sprintf("reply %d is %q, the command failed with %q", i, o.String(), ws[i].err), in)
				}
			}
		})
	}
}

func zValid(a []string) bool {
	for _, x := range a {
		if !utf8.ValidString(x) {
			return false
		}
	}
	return true
}

func TestFalsify_C15(t *testing.T) {
	s := zz.New(t)
	dir, err := os.MkdirTemp("", "zzc15")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	for s.More() {
		var in [][]string
		s.Guard(func() interface{} { return in }, func() {
			r := newRun(s)
			path := filepath.Join(dir, "log")
			f, err := os.Create(path)
			if err != nil {
				t.Fatal(err)
			}
			defer f.Close()
			e := &engine{eventBus: &zBus{}, requestReceiver: &zReceiver{}, shutChan: make(chan struct{})}
			e.SetFile(f, path)
			type rec struct {
				name string
				args []protocol.RedisObject
			}
			var want []rec
			for i := s.Rnd.Intn(14); i >= 0; i-- {
				args := r.request()
				if !zValid(args) {
					continue // known finding: not encodable as a record
				}
				objects := wrap(args, nil)
				if s.Rnd.Intn(30) == 0 {
					objects[0] = protocol.NewRedisInteger(7)
				}
				in = append(in, args)
				_, _ = e.handleRequest(objects)
				if _, ok := objects[0].(protocol.RedisString); !ok {
					continue
				}
				c, err := command.NewCommand(args[0], 1, objects[1:])
				if err == nil && zTypes[strings.ToLower(args[0])] == command.ModifyCommandType && c != nil {
					want = append(want, rec{args[0], objects[1:]})
				}
			}
			_ = e.file.Flush()
			raw, err := os.ReadFile(path)
			if err != nil {
				t.Fatal(err)
			}
			logs, err := log.ParseLog(bytes.NewReader(raw))
			if err != nil {
				s.Found("the log cannot be read back: "+err.Error(), in)
			}
			if len(logs) != len(want) {
				s.Found(fmt.Sprintf("%d records of %d accepted modifying requests", len(logs), len(want)), in)
			}
			for i, vl := range logs {
				ok := vl.Name == want[i].name && vl.Index == 1 && len(vl.Arguments) == len(want[i].args)
				for j := range want[i].args {
					ok = ok && vl.Arguments[j] == want[i].args[j].String()
				}
				if !ok {
					s.Found(fmt.Sprintf("record %d is not the request it was written for", i), in)
				}
				if s.Rnd.Intn(8) == 0 {
					vl.Name = "nosuch"
				}
				if s.Rnd.Intn(8) == 0 {
					vl.Index = int32(s.Rnd.Intn(4))
				}
			}
			b := &engine{eventBus: &zBus{}, requestReceiver: &zReceiver{}, shutChan: make(chan struct{})}
			b.BuildFromLog(logs)
			for i := 0; i < 4; i++ {
				d := NewDB(i)
				for _, vl := range logs {
					if int(vl.Index) == i {
						var a []protocol.RedisObject
						for _, x := range vl.Arguments {
							o, err := protocol.Parse(strings.NewReader(x))
							if err != nil {
								s.Found("a recorded argument does not parse", in)
							}
							a = append(a, o)
						}
						if c, err := command.NewCommand(vl.Name, i, a); err == nil {
							d.ExecuteCommand(c)
						}
					}
				}
				got := b.getOrCreateDB(i)
				for _, k := range append(r.keys, r.vals...) {
					for _, q := range [][]string{{"get", k}, {"hlen", k}, {"scard", k}, {"lrange", k, "0", "-1"}} {
						x, e1 := zDirect(got, wrap(q, nil))
						y, e2 := zDirect(d, wrap(q, nil))
						if (e1 == nil) != (e2 == nil) || (e1 == nil && x.String() != y.String()) {
							s.Found(fmt.Sprintf("after rebuilding, database %d answers %q differently", i, q), in)
						}
					}
				}
			}
		})
	}
}
