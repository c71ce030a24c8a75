// The log file framing (C14) and the replication snapshot (C16).

define sdat(s) = ghost("stream.data", s)
define spos(s) = ghost("stream.pos", s)
define sfail(s) = ghost("stream.fail", s)
define le32(d, p) = d[p] + 256 * d[p+1] + 65536 * d[p+2] + 16777216 * d[p+3]
define wire(v) = ghost("proto.wire", v)
define parsable(s) = uf("protoOK", bool, s)

func util.ReadExactBytes(reader, count) (b, err)
  props C14, C16
  requires reader != nil && 0 <= spos(reader) && spos(reader) <= len(sdat(reader))
  modifies ghost("stream.pos", reader)
  let d := sdat(reader)
  let p := spos(reader)
  let f := sfail(reader)
  hint [at] spos(reader) == p + mv_i && p + mv_i <= len(d) && len(mv_l) == mv_i
  hint [bytes] forall(k, 0, len(mv_l), mv_l[k] == d[p + k], trig(mv_l[k]))
  ensures [all] imp(err == nil, len(b) == ite(count < 0, 0, count) && spos(reader) == p + len(b))
  ensures [rest] imp(err != nil, spos(reader) == len(d) && len(b) == len(d) - p && len(b) < count)
  ensures [bytes] forall(k, 0, len(b), b[k] == d[p + k], trig(b[k]))
  ensures [string] bytestr(b) == d[p:p+len(b)]
  ensures [enough] iff(err == nil, count <= len(d) - p)
  ensures [eof] imp(err != nil, iff(errIs(err, io.EOF), !f))
  ensures [other] imp(err != nil && f, fresh(err) && all(t, "error", imp(errIs(err, t), t == err), trig(errIs(err, t))))

// the frames of a log: where the n-th one ends, and how many of the first n hold a record
define whole(d, p) = p + 4 <= len(d) && p + 4 + le32(d, p) <= len(d)
fold endAt(d string, n int) int
  base 0
  step ite(whole(d, prev), prev + 4 + le32(d, prev), prev)

fold okCount(d string, n int) int
  base 0
  step prev + ite(parsable(d[endAt(d, n-1)+4:endAt(d, n)]), 1, 0)

define frames = ghost("stream.frames", nil)

func log.PackLog(vl) (b, err)
  props C14
  modifies ghost("proto.wire", vl)
  requires vl != nil
  ensures [length] imp(err == nil, len(b) == 4 + len(wire(vl)) && len(wire(vl)) > 0)
  ensures [header] imp(err == nil, b[0] + 256 * b[1] + 65536 * b[2] + 16777216 * b[3] == len(wire(vl)))
  ensures [body] imp(err == nil, bytestr(b)[4:len(b)] == wire(vl))
  ensures [rejected] imp(err != nil, len(b) == 0)

func log.(*logReader).readLog(lr) (v, err)
  props C14, C16
  requires lr.reader != nil && 0 <= spos(lr.reader) && spos(lr.reader) <= len(sdat(lr.reader))
  modifies ghost("stream.pos", lr.reader), ghost("stream.frames", nil)
  let d := sdat(lr.reader)
  let p := spos(lr.reader)
  let f := sfail(lr.reader)
  let n0 := frames
  ghost ghost("stream.frames", nil) := n0 + ite(whole(d, p), 1, 0)
  ensures [end] imp(p == len(d) && !f, errIs(err, io.EOF))
  ensures [cut] imp(p != len(d) && !whole(d, p) && !f, errIs(err, log.errUnexpectedEOF) && !errIs(err, io.EOF))
  ensures [broken] imp(!whole(d, p) && f, err != nil && !errIs(err, io.EOF) && !errIs(err, log.errUnexpectedEOF) && !errIs(err, log.errInvalidMessage))
  ensures [moved] imp(whole(d, p), spos(lr.reader) == p + 4 + le32(d, p))
  ensures [record] imp(whole(d, p), iff(err == nil, parsable(d[p+4:p+4+le32(d, p)])))
  ensures [value] imp(err == nil, whole(d, p) && v != nil && fresh(v) && wire(v) == d[p+4:p+4+le32(d, p)])
  ensures [invalid] imp(whole(d, p) && err != nil, errIs(err, log.errInvalidMessage) && !errIs(err, io.EOF) && !errIs(err, log.errUnexpectedEOF))
  ensures [frames] frames == n0 + ite(whole(d, p), 1, 0)
  ensures [none] imp(err != nil, v == nil)
  ensures [bounds] p <= spos(lr.reader) && spos(lr.reader) <= len(d)

// what a parsed log consists of: one record for each frame that holds one, in order
define records(logs, d) = forall(i, 1, frames + 1, imp(parsable(d[endAt(d, i-1)+4:endAt(d, i)]), 1 <= okCount(d, i) && okCount(d, i) <= len(logs) && wire(logs[okCount(d, i) - 1]) == d[endAt(d, i-1)+4:endAt(d, i)]), trig(okCount(d, i)))

func log.ParseLog(reader) (logs, err)
  props C14, C16
  requires reader != nil && 0 <= spos(reader) && spos(reader) <= len(sdat(reader))
  modifies ghost("stream.pos", reader), ghost("stream.frames", nil)
  let d := sdat(reader)[spos(reader):len(sdat(reader))]
  let f := sfail(reader)
  ghostpre ghost("stream.frames", nil) := 0
  hint [at] sdat(mv_r) == d && spos(mv_r) == endAt(d, frames) && 0 <= spos(mv_r) && spos(mv_r) <= len(d) && sfail(mv_r) == f
  hint [count] 0 <= frames && len(mv_l) == okCount(d, frames)
  hint [whole] forall(i, 0, frames, whole(d, endAt(d, i)), trig(endAt(d, i)))
  hint [records] forall(i, 1, frames + 1, imp(parsable(d[endAt(d, i-1)+4:endAt(d, i)]), 1 <= okCount(d, i) && okCount(d, i) <= len(mv_l) && wire(mv_l[okCount(d, i) - 1]) == d[endAt(d, i-1)+4:endAt(d, i)]), trig(okCount(d, i)))
  hint [real] each("*log.VertexLog", 0 < d && !isold(d))
  ensures [complete] imp(!f, iff(err == nil, endAt(d, frames) == len(d)))
  ensures [all] 0 <= frames && !whole(d, endAt(d, frames)) && forall(i, 0, frames, whole(d, endAt(d, i)), trig(endAt(d, i)))
  ensures [count] imp(!f, len(logs) == okCount(d, frames))
  ensures [records] imp(!f, records(logs, d))
  ensures [broken] imp(f, err != nil)

func replication.(*replica).Receive(r) (logs, err)
  props C16
  requires r.conn != nil && 0 <= spos(r.conn) && spos(r.conn) <= len(sdat(r.conn))
  modifies ghost("stream.pos", r.conn), ghost("stream.frames", nil)
  let d := sdat(r.conn)[spos(r.conn):len(sdat(r.conn))]
  let cut := len(d) < 4 || len(d) < 4 + le32(d, 0)
  let none := len(d) >= 4 && le32(d, 0) == 0
  let m := d[4:4+le32(d, 0)]
  ensures [cut] imp(cut, err == replication.ErrIncompleteMessage && err != nil && logs == nil)
  ensures [none] imp(none, err == nil && len(logs) == 0)
  ensures [complete] imp(!cut && !none, iff(err == nil, endAt(m, frames) == len(m)))
  ensures [all] imp(!cut && !none, 0 <= frames && !whole(m, endAt(m, frames)) && forall(i, 0, frames, whole(m, endAt(m, i)), trig(endAt(m, i))))
  ensures [count] imp(!cut && !none, len(logs) == okCount(m, frames))
  ensures [records] imp(!cut && !none, records(logs, m))
