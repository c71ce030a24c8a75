package replication

import (
	"encoding/binary"
	"io"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/lxdlam/vertex/pkg/log"
	zz "github.com/lxdlam/vertex/pkg/zzfalsify"
)

type zzConn struct {
	net.Conn
	data  []byte
	chunk int
	err   error
}

func (c *zzConn) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, c.err
	}
	n := len(p)
	if n > c.chunk {
		n = c.chunk
	}
	n = copy(p[:n], c.data)
	c.data = c.data[n:]
	return n, nil
}
func (c *zzConn) Close() error                       { return nil }
func (c *zzConn) SetDeadline(t time.Time) error      { return nil }
func (c *zzConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *zzConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *zzConn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *zzConn) LocalAddr() net.Addr                { return &net.TCPAddr{} }

// zzSnapshot: what a replica makes of the bytes of a snapshot.
func zzSnapshot(d []byte) (out []*log.VertexLog, ok bool) {
	if len(d) < 4 {
		return nil, false
	}
	n := int(binary.LittleEndian.Uint32(d))
	d = d[4:]
	if len(d) < n {
		return nil, false
	}
	d = d[:n]
	ok = true
	for len(d) > 0 {
		if len(d) < 4 {
			return out, false
		}
		n := int(binary.LittleEndian.Uint32(d))
		if len(d)-4 < n {
			return out, false
		}
		v := &log.VertexLog{}
		if proto.Unmarshal(d[4:4+n], v) == nil {
			out = append(out, v)
		}
		d = d[4+n:]
	}
	return out, true
}

func TestFalsify_C16(t *testing.T) {
	s := zz.New(t)
	for s.More() {
		var body []byte
		for k := s.Rnd.Intn(4); k > 0; k-- {
			n := 1 + s.Rnd.Intn(6)
			if s.Rnd.Intn(10) == 0 {
				n = []int{120, 252, 4000, 4088, 33000, 66000}[s.Rnd.Intn(6)]
			}
			b, err := log.PackLog(&log.VertexLog{Name: strings.Repeat("n", n), Index: int32(s.Rnd.Intn(3))})
			if err == nil {
				body = append(body, b...)
			}
			if s.Rnd.Intn(8) == 0 {
				body = append(body, 2, 0, 0, 0, 0xff, 0xff)
			}
		}
		if s.Rnd.Intn(8) == 0 && len(body) > 0 {
			body = body[:s.Rnd.Intn(len(body))]
		}
		d := make([]byte, 4)
		binary.LittleEndian.PutUint32(d, uint32(len(body)))
		d = append(d, body...)
		switch s.Rnd.Intn(4) {
		case 0:
			d = d[:s.Rnd.Intn(len(d))]
		case 1:
			d = append(d, "extra"[:1+s.Rnd.Intn(5)]...)
		}
		want, ok := zzSnapshot(d)
		short := len(d) < 4 || len(d)-4 < int(binary.LittleEndian.Uint32(d))
		in := append([]byte(nil), d...)
		c := &zzConn{data: d, chunk: []int{1, 3, 7, 4096, 1 << 20}[s.Rnd.Intn(5)], err: io.EOF}
		if short && s.Rnd.Intn(3) == 0 {
			c.err = io.ErrUnexpectedEOF
		}
		s.Guard(func() interface{} { return in }, func() {
			got, err := NewReplica(c).Receive()
			if (err == nil) != ok {
				s.Found("Receive misjudges whether the snapshot is complete", in)
			}
			if short && (len(got) != 0 || err == nil) {
				s.Found("Receive returns records of an incomplete snapshot", in)
			}
			if !short {
				if len(got) != len(want) {
					s.Found("Receive does not return the records of the snapshot", in)
				}
				for i := range got {
					if !proto.Equal(got[i], want[i]) {
						s.Found("Receive returns another record", in)
					}
				}
			}
		})
	}
}
