// String values (C01, C02, C03, C04).

// own: 0 not stored anywhere, -1 stored in lists, sets or hashes (never changes
// again), m > 0 stored in the string map m under the key okey.
field container.StringContainer own int
field container.StringContainer okey string
// sown: the string an integer cache belongs to
field container.intVariantImpl sown ref

class container.StringContainer s
  trig s.data
  body [size] s.size == len(s.data)
  body [bytes] bytestr(s.bytes) == s.data
  body [hash] s.hash == fnv(s.data)
  body [number] iff(s.intVar == nil, !isint(s.data))
  body [value] imp(s.intVar != nil, 0 < s.intVar && as(s.intVar, "container.intVariantImpl").val == intval(s.data) && as(s.intVar, "container.intVariantImpl").sown == s)

define fits(n) = minint <= n && n <= maxint

func container.NewString(s) (r)
  props C03, C04
  inv container.StringContainer
  ghost as(r.intVar, "container.intVariantImpl").sown := r
  ensures [value] r != nil && fresh(r) && r.data == s
  ensures [own] r.own == 0

func container.(*StringContainer).Len(s) (n)
  props C03
  inv container.StringContainer
  ensures [length] n == len(s.data)

func container.(*StringContainer).String(s) (r)
  props C03
  inv container.StringContainer
  ensures [value] r == s.data

func container.(*StringContainer).Byte(s) (b)
  props C03
  inv container.StringContainer
  ensures [value] bytestr(b) == s.data

func container.(*StringContainer).Equals(s, another) (r)
  props C02, C06
  inv container.StringContainer
  requires another != nil
  ensures [equal] r == (s.data == another.data)

func container.(*StringContainer).Append(s, another) (r)
  props C03
  inv container.StringContainer
  requires another != nil
  ensures [value] r != nil && fresh(r) && r.data == s.data + another.data
  ensures [own] r.own == 0

func container.(*StringContainer).IsInt(s) (r)
  props C04
  inv container.StringContainer
  ensures [integer] r == isint(s.data)

func container.(*StringContainer).Int(s) (n, err)
  props C04
  inv container.StringContainer
  ensures [ok] iff(err == nil, isint(s.data))
  ensures [value] imp(err == nil, n == intval(s.data))
  ensures [error] imp(err != nil, n == 0 && err == container.ErrNotAInt)

func container.(*StringContainer).AsIntObject(s) (o, err)
  props C04
  inv container.StringContainer, protocol.redisInteger
  ensures [ok] iff(err == nil, isint(s.data))
  ensures [value] imp(err == nil, o != nil && enc(o) == encInt(intval(s.data)))

func container.(*StringContainer).AsSimpleStringObject(s) (o)
  props C12
  inv container.StringContainer, protocol.redisString
  ensures [value] o != nil && enc(o) == encSimple(s.data)

func container.(*StringContainer).AsBulkStringObject(s) (o)
  props C12
  inv container.StringContainer, protocol.redisString
  ensures [value] o != nil && enc(o) == ite(s.data == "", encNullBulk, encBulk(s.data))

func container.(*StringContainer).Increase(s, increment) (n, err)
  props C04
  inv container.StringContainer
  modifies s.data, s.bytes, s.size, s.hash, as(s.intVar, "container.intVariantImpl").val
  ensures [ok] iff(err == nil, isint(old(s.data)) && fits(intval(old(s.data)) + increment))
  ensures [value] imp(err == nil, n == intval(old(s.data)) + increment && s.data == itoa(n))
  ensures [error] imp(err != nil, s.data == old(s.data) && n == 0 && err == container.ErrNotAInt)

func container.(*StringContainer).Decrease(s, decrement) (n, err)
  props C04
  inv container.StringContainer
  modifies s.data, s.bytes, s.size, s.hash, as(s.intVar, "container.intVariantImpl").val
  ensures [ok] iff(err == nil, isint(old(s.data)) && fits(intval(old(s.data)) - decrement))
  ensures [value] imp(err == nil, n == intval(old(s.data)) - decrement && s.data == itoa(n))
  ensures [error] imp(err != nil, s.data == old(s.data) && n == 0 && err == container.ErrNotAInt)

func container.(*StringContainer).GetRange(s, start, end) (r, err)
  props C01, C03
  inv container.StringContainer
  ensures [ok] iff(err == nil, validrange(norm(start, len(s.data)), norm(end, len(s.data)), len(s.data)))
  ensures [value] imp(err == nil, r != nil && fresh(r) && r.data == s.data[norm(start, len(s.data)):ite(norm(end, len(s.data)) >= len(s.data), len(s.data), norm(end, len(s.data)) + 1)])
  ensures [none] imp(err != nil, r == nil)

func container.(*StringContainer).Key(s) (r)
  props C03
  inv container.StringContainer
  ensures [value] r == s.data
