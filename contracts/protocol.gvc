// RESP objects and the RESP parser (C12, C13).

// enc: the RESP bytes of a reply object, fixed at construction.
attr enc string

// aelems: the elements of an array reply, in order, fixed at construction.
attr aelems []protocol.RedisObject

// adata, aint: the value of a simple string, error or bulk string; of an integer.
attr adata string
attr aint int

// canon: the object is a single-line simple string or error, an integer, a bulk
// string, a null, or an array of such objects.
attr canon bool

define oneline(s) = indexbyte(s, 0, 10) < 0
define crlf = "\r\n"
define noReply = nonew("*protocol.redisString") && nonew("*protocol.redisError") && nonew("*protocol.redisInteger") && nonew("*protocol.redisArray")
define encSimple(s) = "+" + s + crlf
define encError(s) = "-" + s + crlf
define encInt(n) = ":" + itoa(n) + crlf
define encBulk(s) = "$" + itoa(len(s)) + crlf + s + crlf
define encNullBulk = "$-1\r\n"
define encNullArray = "*-1\r\n"
define encArray(s) = "*" + itoa(len(s)) + crlf + encAll(s, len(s))

// own: the object that owns the memory of a slice or map
define own(m) = ghost("mem.own", m)

fold encAll(s []protocol.RedisObject, n int) string
  base ""
  step prev + enc(s[n-1])

law canon(o)
  body 0 < o && ((enc(o)[0] == 43 && enc(o) == encSimple(adata(o)) && oneline(adata(o)))
    || (enc(o)[0] == 45 && enc(o) == encError(adata(o)) && oneline(adata(o)))
    || (enc(o)[0] == 58 && enc(o) == encInt(aint(o)) && minint <= aint(o) && aint(o) <= maxint)
    || (enc(o)[0] == 36 && ((enc(o) == encBulk(adata(o)) && len(adata(o)) <= 140737488355328) || (enc(o) == encNullBulk && enc(o)[1:3] == itoa(0-1))))
    || (enc(o)[0] == 42 && ((enc(o) == encNullArray && enc(o)[1:3] == itoa(0-1)) || (enc(o) == encArray(aelems(o)) && 0 <= len(aelems(o)) && len(aelems(o)) <= maxint
       && forall(i, 0, len(aelems(o)), canon(aelems(o)[i]) && 0 < aelems(o)[i] && aelems(o)[i] < o, trig(aelems(o)[i]))))))

class protocol.redisString o
  trig enc(o)
  body [bytes] bytestr(o.byteRep) == enc(o) && o.stringRep == enc(o)
  body [kind] (o.subType == "+" && enc(o) == encSimple(o.data) && enc(o)[0] == 43) || (o.subType == "$" && enc(o)[0] == 36 && (enc(o) == encBulk(o.data) || (enc(o) == encNullBulk && o.data == "")))


class protocol.redisError o
  trig enc(o)
  body [bytes] bytestr(o.byteRep) == enc(o) && o.stringRep == enc(o) && enc(o) == encError(o.data) && enc(o)[0] == 45

class protocol.redisInteger o
  trig enc(o)
  body [bytes] bytestr(o.byteRep) == enc(o) && o.stringRep == enc(o) && enc(o) == encInt(o.data) && enc(o)[0] == 58

class protocol.redisArray o
  trig enc(o)
  body [own] len(o.data) == 0 || own(o.data) == o
  body [bytes] bytestr(o.byteRep) == enc(o) && o.stringRep == enc(o)
  body [elements] enc(o)[0] == 42 && len(o.data) == len(aelems(o)) && ((enc(o) == encNullArray && len(aelems(o)) == 0) || enc(o) == encArray(aelems(o)))
  body [values] forall(i, 0, len(o.data), 0 < o.data[i] && o.data[i] == aelems(o)[i], trig(o.data[i]))

func protocol.NewSimpleRedisString(data) (r)
  props C12
  inv protocol.redisString
  ghost enc(r) := encSimple(data)
  ghost adata(r) := data
  ghost canon(r) := oneline(data)
  ensures [object] r != nil && fresh(r) && is(r, "*protocol.redisString")
  ensures [encoding] enc(r) == encSimple(data)
  ensures [data] as(r, "protocol.redisString").data == data
  ensures [canonical] iff(canon(r), oneline(data))
  decreases [progress] {C13} 0

func protocol.NewBulkRedisString(data) (r)
  props C12
  inv protocol.redisString
  ghost enc(r) := encBulk(data)
  ghost adata(r) := data
  ghost canon(r) := true
  ensures [object] r != nil && fresh(r) && is(r, "*protocol.redisString")
  ensures [encoding] enc(r) == encBulk(data)
  ensures [data] as(r, "protocol.redisString").data == data
  ensures [canonical] iff(canon(r), true)
  decreases [progress] {C13} 0

func protocol.NewNullBulkRedisString() (r)
  props C12
  inv protocol.redisString
  ghost enc(r) := encNullBulk
  ghost canon(r) := true
  ensures [object] r != nil && fresh(r) && is(r, "*protocol.redisString")
  ensures [encoding] enc(r) == encNullBulk
  ensures [canonical] iff(canon(r), true)
  decreases [progress] {C13} 0

func protocol.NewRedisError(data) (r)
  props C12
  inv protocol.redisError
  ghost enc(r) := encError(data)
  ghost adata(r) := data
  ghost canon(r) := oneline(data)
  ensures [object] r != nil && fresh(r) && is(r, "*protocol.redisError")
  ensures [encoding] enc(r) == encError(data)
  ensures [canonical] iff(canon(r), oneline(data))
  decreases [progress] {C13} 0

func protocol.NewRedisErrorFromGoError(err) (r)
  props C12
  inv protocol.redisError
  requires err != nil
  ghost enc(r) := encError(errmsg(err))
  ghost adata(r) := errmsg(err)
  ghost canon(r) := oneline(errmsg(err))
  ensures [object] r != nil && fresh(r) && is(r, "*protocol.redisError")
  ensures [encoding] enc(r) == encError(errmsg(err))
  ensures [canonical] iff(canon(r), oneline(errmsg(err)))

func protocol.NewRedisInteger(n) (r)
  props C12
  inv protocol.redisInteger
  ghost enc(r) := encInt(n)
  ghost aint(r) := n
  ghost canon(r) := true
  ensures [object] r != nil && fresh(r) && is(r, "*protocol.redisInteger")
  ensures [encoding] enc(r) == encInt(n)
  ensures [canonical] iff(canon(r), true)
  decreases [progress] {C13} 0

func protocol.NewRedisArray(data) (r)
  props C12
  inv protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  requires forall(i, 0, len(data), 0 < data[i])
  ghost enc(r) := encArray(data)
  ghost aelems(r) := data
  ghost ghost("mem.own", as(r, "protocol.redisArray").data) := ite(len(data) == 0, own(as(r, "protocol.redisArray").data), r)
  ghost canon(r) := forall(i, 0, len(data), canon(data[i]))
  hint [copied] mapping("protocol.RedisObject", "protocol.RedisObject", d == s)
  hint [prefix] mv_s == "*" + itoa(len(data)) + crlf + encAll(data, mv_i)
  ensures [object] r != nil && fresh(r) && is(r, "*protocol.redisArray")
  ensures [encoding] enc(r) == encArray(data)
  ensures [elements] forall(i, 0, len(data), aelems(r)[i] == data[i]) && len(aelems(r)) == len(data)
  ensures [array] enc(r) == encArray(aelems(r))
  ensures [canonical] iff(canon(r), forall(i, 0, len(data), canon(data[i])))
  decreases [progress] {C13} 0

func protocol.NewNullRedisArray() (r)
  props C12
  inv protocol.redisArray
  ghost enc(r) := encNullArray
  ghost aelems(r) := as(r, "protocol.redisArray").data
  ghost canon(r) := true
  ensures [object] r != nil && fresh(r) && is(r, "*protocol.redisArray")
  ensures [encoding] enc(r) == encNullArray && len(aelems(r)) == 0
  ensures [canonical] iff(canon(r), true)
  decreases [progress] {C13} 0

func protocol.RedisObject.Byte(o) (b)
  props C12
  inv protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  ensures [encoding] bytestr(b) == enc(o)
  ensures [nonew] noReply
  decreases [progress] {C13} 0

func protocol.RedisObject.String(o) (s)
  props C12
  inv protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  ensures [encoding] s == enc(o)

func protocol.RedisObject.Type(o) (t)
  props C12
  inv protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  ensures [kind] t == enc(o)[0:1]

func protocol.(*redisString).Data(o) (s)
  props C12
  inv protocol.redisString
  ensures [value] enc(o) == encSimple(s) || enc(o) == encBulk(s) || (enc(o) == encNullBulk && s == "")
  ensures [data] s == o.data

func protocol.(*redisError).Message(o) (s)
  props C12
  inv protocol.redisError
  ensures [value] enc(o) == encError(s)

func protocol.(*redisError).Error(o) (e)
  props C12
  inv protocol.redisError
  ensures [value] e != nil && enc(o) == encError(errmsg(e))

func protocol.(*redisInteger).Data(o) (n)
  props C12
  inv protocol.redisInteger
  ensures [value] enc(o) == encInt(n)

func protocol.(*redisArray).Data(o) (s)
  props C12
  inv protocol.redisArray
  ensures [value] (enc(o) == encNullArray && len(s) == 0) || enc(o) == encArray(s)
  ensures [elements] len(s) == len(aelems(o)) && forall(i, 0, len(s), 0 < s[i] && s[i] == aelems(o)[i], trig(s[i]))

// The parser.

define replies = protocol.redisString
class protocol.respReader r
  body [reader] r.reader != nil
  body [stream] 0 <= rpos(r) && rpos(r) <= len(rdata(r))

define rdata(r) = ghost("stream.data", r.reader)
define rpos(r) = ghost("stream.pos", r.reader)

func protocol.(*respReader).readToken(r) (err)
  props C12, C13
  inv protocol.respReader
  modifies r.token, ghost("stream.pos", r.reader)
  let d := rdata(r)
  let p := rpos(r)
  let q := indexbyte(rdata(r), rpos(r), 10)
  hint [line] p <= rpos(r) && rpos(r) <= len(d) && mv_s == d[p:rpos(r)]
  hint [first] p == rpos(r) || !(q >= p + 1 && d[q-1] == 13)
  ensures [bounds] p <= rpos(r) && rpos(r) <= len(d)
  ensures [line] imp(err == nil, p + 2 <= rpos(r) && r.token == d[p:rpos(r)] && len(r.token) >= 2 && r.token[len(r.token)-1] == 10 && r.token[len(r.token)-2] == 13)
  ensures [inner] imp(err == nil && len(r.token) >= 3, r.token[1:len(r.token)-2] == d[p+1:rpos(r)-2])
  ensures [first] imp(q >= p + 1 && d[p:q+1][q-p-1] == 13, err == nil && rpos(r) == q + 1)
  decreases [progress] {C13} len(rdata(r)) - rpos(r)

func protocol.(*respReader).readBytes(r, count) (err)
  props C12, C13
  inv protocol.respReader
  modifies r.token, ghost("stream.pos", r.reader)
  let d := rdata(r)
  let p := rpos(r)
  hint [bytes] rpos(r) == p + mv_i && rpos(r) <= len(d) && mv_s == d[p:rpos(r)]
  ensures [bounds] p <= rpos(r) && rpos(r) <= len(d)
  ensures [bytes] imp(err == nil, rpos(r) == p + count && r.token == d[p:rpos(r)])
  ensures [front] imp(err == nil, forall(k, 0, count + 1, r.token[0:k] == d[p:p+k], trig(r.token[0:k])))
  ensures [enough] imp(count >= 0 && p + count <= len(d), err == nil)
  decreases [progress] {C13} len(rdata(r)) - rpos(r)

lemma encBase(s []protocol.RedisObject, n int)
  props C12
  requires n <= 0
  ensures [empty] encAll(s, n) == ""
  pat encAll(s, n)

lemma encStep(s []protocol.RedisObject, i int, j int)
  props C12
  requires 0 <= i && j == i + 1
  ensures [step] encAll(s, j) == encAll(s, i) + enc(s[i])
  pat encAll(s, i), encAll(s, j)

lemma encPart(s []protocol.RedisObject, i int, j int, n int)
  props C12
  induct n
  use encStep
  requires 0 <= i && i < n && j == i + 1
  ensures [within] len(encAll(s, j)) <= len(encAll(s, n))
  ensures [prefix] encAll(s, n)[0:len(encAll(s, j))] == encAll(s, j)
  ensures [piece] encAll(s, n)[len(encAll(s, i)):len(encAll(s, j))] == enc(s[i])
  pat encAll(s, i), encAll(s, j), encAll(s, n)

// at: the encoding of the canonical object v stands in d at p; eol(d, p) ends its first line.
define at(v, d, p) = mention(spot(v, d, p)) && v != nil && canon(v) && 0 <= p && p + len(enc(v)) <= len(d) && d[p:p+len(enc(v))] == enc(v)
define spot(v, d, p) = uf("spot", int, v, d, p)
define eol(d, p) = indexbyte(d, p, 10)
define word(d, p) = d[p+1:eol(d, p)-1]
define isArray(v) = enc(v)[0] == 42 && enc(v) != encNullArray

lemma line(v protocol.RedisObject, d string, p int)
  props C12
  use canon
  requires at(v, d, p)
  ensures [first] d[p] == enc(v)[0] && mention(enc(v)[0:eol(d, p)+1-p], enc(v)[1:eol(d, p)-1-p])
  ensures [end] p + 2 <= eol(d, p) && eol(d, p) < p + len(enc(v))
  ensures [cr] d[eol(d, p)-1] == 13 && mention(enc(v)[eol(d, p)-1-p])
  ensures [simple] imp(enc(v)[0] == 43, enc(v) == encSimple(word(d, p)) && len(enc(v)) == eol(d, p) + 1 - p)
  ensures [error] imp(enc(v)[0] == 45, enc(v) == encError(word(d, p)) && len(enc(v)) == eol(d, p) + 1 - p)
  ensures [integer] imp(enc(v)[0] == 58, isint(word(d, p)) && enc(v) == encInt(intval(word(d, p))) && len(enc(v)) == eol(d, p) + 1 - p)
  ensures [null] imp(enc(v) == encNullBulk || enc(v) == encNullArray, word(d, p) == "-1" && len(enc(v)) == eol(d, p) + 1 - p)
  ensures [bulk] imp(enc(v)[0] == 36 && enc(v) != encNullBulk, isint(word(d, p)) && 0 <= intval(word(d, p)) && intval(word(d, p)) <= 140737488355328
    && enc(v) == encBulk(d[eol(d, p)+1:eol(d, p)+1+intval(word(d, p))]) && len(enc(v)) == eol(d, p) + 3 + intval(word(d, p)) - p)
  ensures [array] imp(isArray(v), isint(word(d, p)) && intval(word(d, p)) == len(aelems(v)) && 0 <= len(aelems(v)) && enc(v) == encArray(aelems(v)) && len(enc(v)) == eol(d, p) + 1 - p + len(encAll(aelems(v), len(aelems(v)))))
  ensures [kinds] enc(v)[0] == 43 || enc(v)[0] == 45 || enc(v)[0] == 58 || enc(v)[0] == 36 || enc(v)[0] == 42
  ensures [elements] imp(isArray(v), d[eol(d, p)+1:p+len(enc(v))] == encAll(aelems(v), len(aelems(v))) && mention(enc(v)[eol(d, p)+1-p:len(enc(v))]))
  pat spot(v, d, p)

lemma elem(v protocol.RedisObject, i int)
  props C12
  use canon
  requires canon(v) && isArray(v) && 0 <= i && i < len(aelems(v))
  ensures [element] canon(aelems(v)[i]) && 0 < aelems(v)[i] && aelems(v)[i] < v
  pat canon(v), aelems(v)[i]

lemma piece(v protocol.RedisObject, d string, p int, i int, j int)
  props C12
  use encStep, encPart, line
  requires at(v, d, p) && isArray(v) && 0 <= i && i < len(aelems(v)) && j == i + 1
  ensures [length] len(encAll(aelems(v), j)) == len(encAll(aelems(v), i)) + len(enc(aelems(v)[i]))
  ensures [within] eol(d, p) + 1 + len(encAll(aelems(v), j)) <= p + len(enc(v))
  ensures [place] d[eol(d, p)+1+len(encAll(aelems(v), i)):eol(d, p)+1+len(encAll(aelems(v), j))] == enc(aelems(v)[i]) && mention(encAll(aelems(v), len(aelems(v)))[len(encAll(aelems(v), i)):len(encAll(aelems(v), j))])
  pat spot(v, d, p), encAll(aelems(v), i), encAll(aelems(v), j)

// mark: names the object under consideration, so that the hints are only used at it.
attr mark int

define parses(v, d, p) = at(v, d, p) && isold(v)

func protocol.(*respReader).readObject(r) (obj, err)
  props C12, C13
  inv protocol.respReader, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  use encBase, encStep, line, elem, piece
  omit piece
  modifies r.token, ghost("stream.pos", r.reader)
  let d := rdata(r)
  let p := rpos(r)
  let q := indexbyte(rdata(r), rpos(r), 10)
  hint [count] len(mv_l) == mv_i
  hint [own] mv_l == nil || (own(mv_l) == 0 && !isold(mv_l))
  hint [nonnil] forall(j, 0, len(mv_l), 0 < mv_l[j], trig(mv_l[j]))
  hint [bounds] p <= rpos(r) && rpos(r) <= len(d)
  hint [consumed] p < rpos(r)
  hint [elements] all(v, "protocol.RedisObject", imp(parses(v, d, p) && isArray(v), intval(d[p+1:q-1]) == len(aelems(v))), trig(mark(v)))
  hint [position] all(v, "protocol.RedisObject", imp(parses(v, d, p) && isArray(v), rpos(r) == q + 1 + len(encAll(aelems(v), mv_i))), trig(mark(v)))
  hint [next] all(v, "protocol.RedisObject", imp(parses(v, d, p) && isArray(v) && mv_i < len(aelems(v)), mention(encAll(aelems(v), mv_i), encAll(aelems(v), mv_i+1))), trig(mark(v)))
  hint [parsed] all(v, "protocol.RedisObject", imp(parses(v, d, p) && isArray(v), encAll(mv_l, mv_i) == encAll(aelems(v), mv_i)), trig(mark(v)))
  ensures [either] {C13} iff(obj != nil, err == nil) && 0 <= obj
  ensures [bounds] {C13} p <= rpos(r) && rpos(r) <= len(d)
  ensures [roundtrip] all(v, "protocol.RedisObject", imp(parses(v, d, p), err == nil && rpos(r) == p + len(enc(v)) && enc(obj) == enc(v)), trig(enc(v)), trig(mark(v)))
  decreases [progress] {C13} len(rdata(r)) - rpos(r)

func protocol.(*respReader).ReadObject(r) (obj, err)
  props C12, C13
  inv protocol.respReader, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  modifies r.token, ghost("stream.pos", r.reader)
  let d := rdata(r)
  let p := rpos(r)
  ensures [either] {C13} iff(obj != nil, err == nil) && 0 <= obj
  ensures [bounds] {C13} p <= rpos(r) && rpos(r) <= len(d)
  ensures [roundtrip] all(v, "protocol.RedisObject", imp(parses(v, d, p), err == nil && rpos(r) == p + len(enc(v)) && enc(obj) == enc(v)), trig(enc(v)), trig(mark(v)))
  decreases [progress] {C13} len(rdata(r)) - rpos(r)

define unread(s) = ghost("stream.data", s)[ghost("stream.pos", s):len(ghost("stream.data", s))]

func protocol.NewRESPReader(reader) (r)
  props C12, C13
  inv protocol.respReader
  requires reader != nil
  modifies ghost("stream.pos", reader)
  let d := unread(reader)
  ensures [reader] is(r, "*protocol.respReader") && fresh(r) && rpos(as(r, "protocol.respReader")) == 0 && rdata(as(r, "protocol.respReader")) == d

func protocol.Parse(reader) (obj, err)
  props C12, C13
  inv protocol.respReader, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  requires reader != nil
  modifies ghost("stream.pos", reader)
  let d := unread(reader)
  decreases [progress] {C13} len(d)
  ensures [either] {C13} iff(obj != nil, err == nil)
  ensures [roundtrip] all(v, "protocol.RedisObject", imp(parses(v, d, 0), err == nil && enc(obj) == enc(v)), trig(enc(v)), trig(mark(v)))
