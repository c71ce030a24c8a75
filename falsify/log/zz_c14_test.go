package log

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/golang/protobuf/proto"
	zz "github.com/lxdlam/vertex/pkg/zzfalsify"
)

func zzRecord(s *zz.Search) *VertexLog {
	str := func() string {
		n := s.Rnd.Intn(8)
		if s.Rnd.Intn(12) == 0 {
			n = []int{127, 128, 255, 256, 1000, 4092, 4096, 32768, 40000, 66000}[s.Rnd.Intn(10)]
		}
		return strings.Repeat(string(rune('a'+s.Rnd.Intn(3))), n)
	}
	vl := &VertexLog{Id: str(), Time: s.Int(5), Name: str(), Index: int32(s.Rnd.Intn(16))}
	for k := s.Rnd.Intn(4); k > 0; k-- {
		vl.Arguments = append(vl.Arguments, strings.ToValidUTF8(s.Str(), "?"))
	}
	if s.Rnd.Intn(3) == 0 {
		vl.RawRequest = str()
	}
	if s.Rnd.Intn(15) == 0 {
		vl = &VertexLog{}
	}
	return vl
}

type zzBroken struct{ r io.Reader }

var zzErr = errors.New("device gone")

func (b zzBroken) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = zzErr
	}
	return n, err
}

// zzWant: the records of the complete frames, and whether the log ends at a boundary.
func zzWant(d []byte) (out []*VertexLog, whole bool) {
	for len(d) > 0 {
		if len(d) < 4 {
			return out, false
		}
		n := int(binary.LittleEndian.Uint32(d))
		if len(d)-4 < n {
			return out, false
		}
		v := &VertexLog{}
		if proto.Unmarshal(d[4:4+n], v) == nil {
			out = append(out, v)
		}
		d = d[4+n:]
	}
	return out, true
}

func TestFalsify_C14(t *testing.T) {
	s := zz.New(t)
	for s.More() {
		var data []byte
		for k := s.Rnd.Intn(5); k > 0; k-- {
			vl := zzRecord(s)
			var b []byte
			switch s.Rnd.Intn(8) {
			case 0: // a frame that holds no record
				body := make([]byte, s.Rnd.Intn(6))
				s.Rnd.Read(body)
				b = make([]byte, 4)
				binary.LittleEndian.PutUint32(b, uint32(len(body)))
				b = append(b, body...)
			default:
				var err error
				s.Guard(func() interface{} { return vl }, func() { b, err = PackLog(vl) })
				wire, merr := proto.Marshal(vl)
				if merr != nil || len(wire) == 0 {
					if err == nil {
						s.Guard(nil, func() { s.Found("PackLog accepts a record without bytes", vl) })
					}
					continue
				}
				v := &VertexLog{}
				if err != nil || len(b) != 4+len(wire) || int(binary.LittleEndian.Uint32(b)) != len(wire) || proto.Unmarshal(b[4:], v) != nil || !proto.Equal(v, vl) {
					s.Guard(nil, func() { s.Found("PackLog is not the length and the record", vl) })
				}
			}
			data = append(data, b...)
		}
		cut := len(data)
		switch s.Rnd.Intn(4) {
		case 0:
			if len(data) > 0 {
				cut = s.Rnd.Intn(len(data))
			}
		case 1:
			if len(data) > 6 {
				cut = len(data) - 1 - s.Rnd.Intn(6)
			}
		}
		in := data[:cut]
		var r io.Reader = bytes.NewReader(in)
		broken := false
		switch s.Rnd.Intn(6) {
		case 0:
			r = iotest.OneByteReader(r)
		case 1:
			r = iotest.DataErrReader(r)
		case 2:
			r, broken = zzBroken{r}, true
		}
		want, whole := zzWant(in)
		s.Guard(func() interface{} { return in }, func() {
			got, err := ParseLog(r)
			if broken {
				if err == nil {
					s.Found("ParseLog reports success although the reader failed", in)
				}
				return
			}
			if (err == nil) != whole {
				s.Found("ParseLog misjudges whether the log is complete", in)
			}
			if len(got) != len(want) {
				s.Found("ParseLog does not return every complete record", in)
			}
			for i := range got {
				if !proto.Equal(got[i], want[i]) {
					s.Found("ParseLog returns another record", in)
				}
			}
		})
	}
}
