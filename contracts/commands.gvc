// Commands: from the request's arguments to the reply and the stored data
// (C03-C11). Each unit is a function of driver/verif_driver.go: NewCommand,
// db.ExecuteCommand and Result of the real code, inlined.

class db.db d
  trig d.containers
  body [containers] 0 < d.containers && is(d.containers, "*container.containers")

define ready(d) = 0 < d && held(command.lock) == 0
define cs(d) = as(d.containers, "container.containers")
define strs(d) = as(cs(d).global, "container.simpleStringMap")
define isarg(a, i) = is(a[i], "*protocol.redisString")
define arg(a, i) = as(a[i], "protocol.redisString").data
define args1(a) = len(a) == 1 && isarg(a, 0)
define args2(a) = len(a) == 2 && isarg(a, 0) && isarg(a, 1)
define args3(a) = len(a) == 3 && isarg(a, 0) && isarg(a, 1) && isarg(a, 2)
define invalid(err) = errIs(err, command.ErrArgumentInvalid)
define encBytes(p, k, e) = ite(p, encBulk(e), encNullBulk)

define entryOf(m, k) = ite(has(m, k), m[k], nil)
define K(d) = strs(d).container
define strinv = db.db

func db.verif_get(b, a) (r, err)
  props C03, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, protocol.redisString
  ensures [args] iff(err == nil, args1(a))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C03} imp(err == nil, r != nil && enc(r) == ite(has(K(b), arg(a, 0)), encBulk(K(b)[arg(a, 0)].data), encNullBulk))

func db.verif_strlen(b, a) (r, err)
  props C03, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, protocol.redisString, protocol.redisInteger
  ensures [args] iff(err == nil, args1(a))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C03} imp(err == nil, r != nil && enc(r) == encInt(ite(has(K(b), arg(a, 0)), len(K(b)[arg(a, 0)].data), 0)))

func db.verif_set(b, a) (r, err)
  props C03, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, protocol.redisString
  modifies content(K(b))
  let k0 := arg(a, 0)
  ensures [args] iff(err == nil, args2(a))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C03} imp(err == nil, r != nil && enc(r) == encSimple("OK"))
  ensures [dom] dom(K(b)) == ite(err == nil, store(old(dom(K(b))), k0, true), old(dom(K(b))))
  ensures [others] all(k, "string", imp(err != nil || k != k0, K(b)[k] == old(K(b)[k])), trig(K(b)[k]))
  ensures [value] {C03} imp(err == nil, K(b)[k0].data == arg(a, 1))

func db.verif_append(b, a) (r, err)
  props C03, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, protocol.redisString, protocol.redisInteger
  modifies content(K(b))
  let k0 := arg(a, 0)
  ensures [args] iff(err == nil, args2(a))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C03} imp(err == nil, r != nil && enc(r) == encInt(len(K(b)[k0].data)))
  ensures [dom] dom(K(b)) == ite(err == nil, store(old(dom(K(b))), k0, true), old(dom(K(b))))
  ensures [others] all(k, "string", imp(err != nil || k != k0, K(b)[k] == old(K(b)[k])), trig(K(b)[k]))
  ensures [value] {C03} imp(err == nil, K(b)[k0].data == ite(old(has(K(b), k0)), old(K(b)[k0].data), "") + arg(a, 1))

func db.verif_getrange(b, a) (r, err)
  props C03, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, protocol.redisString
  let v := K(b)[arg(a, 0)].data
  let lo := norm(intval(arg(a, 1)), len(v))
  let hi := norm(intval(arg(a, 2)), len(v))
  ensures [args] iff(err == nil, args3(a) && isint(arg(a, 1)) && isint(arg(a, 2)))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C03} imp(err == nil, r != nil && enc(r) == encBulk(ite(has(K(b), arg(a, 0)) && validrange(lo, hi, len(v)), subrange(v, intval(arg(a, 1)), intval(arg(a, 2))), "")))

define countable(d, a, k, n) = has(K(d), k) && isint(K(d)[k].data) && fits(intval(K(d)[k].data) + n)
define amount(a) = ite(len(a) == 1, 1, intval(arg(a, 1)))
define counterargs(a) = args1(a) || (args2(a) && isint(arg(a, 1)))

func db.verif_incr(b, a) (r, err)
  props C04, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, protocol.redisString, protocol.redisInteger
  let k0 := arg(a, 0)
  let e := K(b)[k0]
  modifies entryOf(K(b), k0).data, entryOf(K(b), k0).bytes, entryOf(K(b), k0).size, entryOf(K(b), k0).hash
  modifies as(entryOf(K(b), k0).intVar, "container.intVariantImpl").val
  ensures [ok] {C04, C10} iff(err == nil, len(a) >= 1 && isarg(a, 0) && old(has(K(b), k0) && isint(e.data) && fits(intval(e.data) + 1)))
  ensures [rejected] imp(!(len(a) >= 1 && isarg(a, 0)), invalid(err))
  ensures [missing] {C04} imp(len(a) >= 1 && isarg(a, 0) && !has(K(b), k0), errIs(err, command.ErrNoSuchKey))
  ensures [value] {C04} imp(err == nil, e.data == itoa(old(intval(e.data)) + 1))
  ensures [reply] {C04} imp(err == nil, r != nil && enc(r) == encInt(old(intval(e.data)) + 1))
  ensures [unchanged] imp(err != nil && has(K(b), k0), e.data == old(e.data))

func db.verif_incrby(b, a) (r, err)
  props C04, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, protocol.redisString, protocol.redisInteger
  let k0 := arg(a, 0)
  let e := K(b)[k0]
  modifies entryOf(K(b), k0).data, entryOf(K(b), k0).bytes, entryOf(K(b), k0).size, entryOf(K(b), k0).hash
  modifies as(entryOf(K(b), k0).intVar, "container.intVariantImpl").val
  ensures [ok] {C04, C10} iff(err == nil, counterargs(a) && old(has(K(b), k0) && isint(e.data) && fits(intval(e.data) + amount(a))))
  ensures [rejected] imp(!args1(a) && !args2(a), invalid(err))
  ensures [missing] {C04} imp(counterargs(a) && !has(K(b), k0), errIs(err, command.ErrNoSuchKey))
  ensures [value] {C04} imp(err == nil, e.data == itoa(old(intval(e.data)) + amount(a)))
  ensures [reply] {C04} imp(err == nil, r != nil && enc(r) == encInt(old(intval(e.data)) + amount(a)))
  ensures [unchanged] imp(err != nil && has(K(b), k0), e.data == old(e.data))

func db.verif_decr(b, a) (r, err)
  props C04, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, protocol.redisString, protocol.redisInteger
  let k0 := arg(a, 0)
  let e := K(b)[k0]
  modifies entryOf(K(b), k0).data, entryOf(K(b), k0).bytes, entryOf(K(b), k0).size, entryOf(K(b), k0).hash
  modifies as(entryOf(K(b), k0).intVar, "container.intVariantImpl").val
  ensures [ok] {C04, C10} iff(err == nil, len(a) >= 1 && isarg(a, 0) && old(has(K(b), k0) && isint(e.data) && fits(intval(e.data) - 1)))
  ensures [rejected] imp(!(len(a) >= 1 && isarg(a, 0)), invalid(err))
  ensures [missing] {C04} imp(len(a) >= 1 && isarg(a, 0) && !has(K(b), k0), errIs(err, command.ErrNoSuchKey))
  ensures [value] {C04} imp(err == nil, e.data == itoa(old(intval(e.data)) - 1))
  ensures [reply] {C04} imp(err == nil, r != nil && enc(r) == encInt(old(intval(e.data)) - 1))
  ensures [unchanged] imp(err != nil && has(K(b), k0), e.data == old(e.data))

func db.verif_decrby(b, a) (r, err)
  props C04, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, protocol.redisString, protocol.redisInteger
  let k0 := arg(a, 0)
  let e := K(b)[k0]
  modifies entryOf(K(b), k0).data, entryOf(K(b), k0).bytes, entryOf(K(b), k0).size, entryOf(K(b), k0).hash
  modifies as(entryOf(K(b), k0).intVar, "container.intVariantImpl").val
  ensures [ok] {C04, C10} iff(err == nil, counterargs(a) && old(has(K(b), k0) && isint(e.data) && fits(intval(e.data) - amount(a))))
  ensures [rejected] imp(!args1(a) && !args2(a), invalid(err))
  ensures [missing] {C04} imp(counterargs(a) && !has(K(b), k0), errIs(err, command.ErrNoSuchKey))
  ensures [value] {C04} imp(err == nil, e.data == itoa(old(intval(e.data)) - amount(a)))
  ensures [reply] {C04} imp(err == nil, r != nil && enc(r) == encInt(old(intval(e.data)) - amount(a)))
  ensures [unchanged] imp(err != nil && has(K(b), k0), e.data == old(e.data))

define L(d, k) = as(ite(has(cs(d).lists, k), cs(d).lists[k], nil), "container.linkedList")
define sameList(l) = l.n == old(l.n) && forall(i, 1, l.n + 1, l.val[i] == old(l.val[i]), trig(l.val[i]))

func db.verif_llen(b, a) (r, err)
  props C05, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.linkedList, container.linkedList+size, protocol.redisString, protocol.redisInteger
  let l := L(b, arg(a, 0))
  ensures [args] iff(err == nil, args1(a))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C05} imp(err == nil, r != nil && enc(r) == ite(l == nil, encInt(0), encInt(l.n)))

func db.verif_lpop(b, a) (r, err)
  props C05, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.linkedList, container.linkedList+size, container.listNode, protocol.redisString
  let l := L(b, arg(a, 0))
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos, all container.listNode.$lst
  modifies l.n, l.node, l.val, l.size
  ensures [args] iff(err == nil, args1(a))
  ensures [class] imp(err != nil, invalid(err))
  ensures [unchanged] imp(err != nil || old(l.n) == 0, sameList(l))
  ensures [reply] {C05} imp(err == nil, r != nil && enc(r) == ite(l != nil && old(l.n) > 0, encBulk(old(l.val[1].data)), encNullBulk))
  ensures [length] {C05} imp(err == nil && l != nil && old(l.n) > 0, l.n == old(l.n) - 1)
  ensures [values] {C05} imp(err == nil && l != nil && old(l.n) > 0, forall(i, 1, l.n + 1, l.val[i] == old(l.val[i+1]), trig(l.val[i])))

func db.verif_rpop(b, a) (r, err)
  props C05, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.linkedList, container.linkedList+size, container.listNode, protocol.redisString
  let l := L(b, arg(a, 0))
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos, all container.listNode.$lst
  modifies l.n, l.node, l.val, l.size
  ensures [args] iff(err == nil, args1(a))
  ensures [class] imp(err != nil, invalid(err))
  ensures [unchanged] imp(err != nil || old(l.n) == 0, sameList(l))
  ensures [reply] {C05} imp(err == nil, r != nil && enc(r) == ite(l != nil && old(l.n) > 0, encBulk(old(l.val[l.n].data)), encNullBulk))
  ensures [length] {C05} imp(err == nil && l != nil && old(l.n) > 0, l.n == old(l.n) - 1)
  ensures [values] {C05} imp(err == nil && l != nil && old(l.n) > 0, forall(i, 1, l.n + 1, l.val[i] == old(l.val[i]), trig(l.val[i])))

func db.verif_lindex(b, a) (r, err)
  props C01, C05, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.linkedList, container.linkedList+size, container.listNode, protocol.redisString
  let l := L(b, arg(a, 0))
  let q := norm(intval(arg(a, 1)), l.n)
  ensures [args] iff(err == nil, args2(a) && isint(arg(a, 1)))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C05} imp(err == nil, r != nil && enc(r) == ite(l != nil && 0 <= q && q < l.n, encBulk(l.val[q+1].data), encNullBulk))

func db.verif_lset(b, a) (r, err)
  props C06, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.linkedList, container.linkedList+size, container.listNode, protocol.redisString
  let l := L(b, arg(a, 0))
  let q := norm(intval(arg(a, 1)), l.n)
  modifies all container.listNode.data, l.val
  ensures [args] iff(err == nil, args3(a) && isint(arg(a, 1)) && l != nil && 0 <= q && q < l.n)
  ensures [rejected] imp(!(args3(a) && isint(arg(a, 1))), invalid(err))
  ensures [missing] {C06} imp(args3(a) && isint(arg(a, 1)) && l == nil, errIs(err, command.ErrNoSuchKey))
  ensures [range] {C06} imp(args3(a) && isint(arg(a, 1)) && l != nil && (q < 0 || q >= l.n), errIs(err, container.ErrOutOfRange))
  ensures [unchanged] imp(err != nil, sameList(l))
  ensures [reply] {C06} imp(err == nil, r != nil && enc(r) == encSimple("OK"))
  ensures [value] {C06} imp(err == nil, l.val[q+1].data == arg(a, 2))
  ensures [others] {C06} imp(err == nil, forall(i, 1, l.n + 1, imp(i != q + 1, l.val[i] == old(l.val[i])), trig(l.val[i])))

func db.verif_lrem(b, a) (r, err)
  props C06, C10
  use matchUp, matchPos
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.linkedList, container.linkedList+size, container.listNode, protocol.redisString, protocol.redisInteger
  let l := L(b, arg(a, 0))
  let n0 := l.n
  let v0 := l.val
  let k := arg(a, 2)
  let cnt := intval(arg(a, 1))
  let c := ite(cnt == 0, n0, ite(cnt < 0, 0 - cnt, cnt))
  let rem := ite(l == nil, 0, min(c, matchN(H, v0, k, n0)))
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos, all container.listNode.$lst
  modifies l.n, l.node, l.val, l.size
  ensures [args] iff(err == nil, args3(a) && isint(arg(a, 1)))
  ensures [class] imp(err != nil, invalid(err))
  ensures [unchanged] imp(err != nil, sameList(l))
  ensures [reply] {C06} imp(err == nil, r != nil && enc(r) == ite(l == nil, encInt(0), encInt(rem)))
  ensures [length] {C06} imp(err == nil && l != nil, l.n == n0 - rem)
  ensures [head] {C06} imp(err == nil && l != nil && cnt >= 0, headleft(l.val, v0, n0, k, c))
  ensures [tail] {C06} imp(err == nil && l != nil && cnt < 0, tailleft(l.val, v0, n0, k, c))

func db.verif_ltrim(b, a) (r, err)
  props C01, C06, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.linkedList, container.linkedList+size, container.listNode, protocol.redisString
  let l := L(b, arg(a, 0))
  let lo := segleft(intval(arg(a, 1)), intval(arg(a, 2)), l.n)
  let hi := segright(intval(arg(a, 1)), intval(arg(a, 2)), l.n)
  let ok := l != nil && valid(intval(arg(a, 1)), intval(arg(a, 2)), l.n)
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos, all container.listNode.$lst, all container.listNode.$stop
  modifies l.n, l.node, l.val, l.size
  ensures [args] iff(err == nil, args3(a) && isint(arg(a, 1)) && isint(arg(a, 2)))
  ensures [class] imp(err != nil, invalid(err))
  ensures [unchanged] imp(err != nil, sameList(l))
  ensures [reply] {C06} imp(err == nil, r != nil && enc(r) == encSimple("OK"))
  ensures [none] {C06} imp(err == nil && !ok, sameList(l))
  ensures [length] {C06} imp(err == nil && ok, l.n == hi - lo + 1)
  ensures [values] {C06} imp(err == nil && ok, forall(i, 1, l.n + 1, l.val[i] == old(l.val[i+lo]), trig(l.val[i])))

func db.verif_linsert(b, a) (r, err)
  props C06, C10
  use firstStays, firstRange
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.linkedList, container.linkedList+size, container.listNode, protocol.redisString, protocol.redisInteger
  let l := L(b, arg(a, 0))
  let n0 := l.n
  let v0 := l.val
  let after := lower(arg(a, 1)) == "after"
  let q := ite(l == nil, 0, firstAt(H, l.val, arg(a, 2), l.n))
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos
  modifies l.n, l.node, l.val, l.size
  ensures [args] iff(err == nil, len(a) == 4 && isarg(a, 0) && isarg(a, 1) && isarg(a, 2) && isarg(a, 3) && (lower(arg(a, 1)) == "before" || lower(arg(a, 1)) == "after"))
  ensures [class] imp(err != nil, invalid(err))
  ensures [unchanged] imp(err != nil || q == 0, sameList(l))
  ensures [reply] {C06} imp(err == nil, r != nil && enc(r) == ite(l == nil, encInt(0), ite(q == 0, encInt(0-1), encInt(n0 + 1))))
  ensures [length] {C06} imp(err == nil && q > 0, l.n == n0 + 1)
  ensures [value] {C06} imp(err == nil && q > 0, l.val[ite(after, q + 1, q)].data == arg(a, 3))
  ensures [values] {C06} imp(err == nil && q > 0, forall(i, 1, l.n + 1, imp(i != ite(after, q + 1, q), l.val[i] == ite(i <= q && i <= ite(after, q, q - 1), v0[i], v0[i-1])), trig(l.val[i])))

define allargs(a, from) = forall(i, from, len(a), isarg(a, i), trig(a[i]))

func db.verif_lpush(b, a) (r, err)
  props C05, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.linkedList, container.linkedList+size, container.listNode, protocol.redisString, protocol.redisInteger
  let k0 := arg(a, 0)
  let l := L(b, k0)
  let m := len(a) - 1
  modifies content(cs(b).lists)
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos
  modifies l.n, l.node, l.val, l.size
  hint [parsed] mapping("string", "protocol.RedisObject", is(s, "*protocol.redisString") && d == as(s, "protocol.redisString").data)
  hint [strings] sweep("protocol.RedisObject", is(s, "*protocol.redisString"))
  hint [made] mapping("*container.StringContainer", "string", 0 < d && !isold(d) && d.own == 0 && d.data == s)
  ensures [args] iff(err == nil, len(a) >= 2 && allargs(a, 0) && k0 != "")
  ensures [rejected] imp(!(len(a) >= 2 && allargs(a, 0)), invalid(err))
  ensures [unchanged] imp(err != nil, sameList(l) && dom(cs(b).lists) == old(dom(cs(b).lists)) && vals(cs(b).lists) == old(vals(cs(b).lists)))
  ensures [dom] {C05} imp(err == nil, dom(cs(b).lists) == store(old(dom(cs(b).lists)), k0, true))
  ensures [kept] {C05} all(k, "string", imp(old(has(cs(b).lists, k)), cs(b).lists[k] == old(cs(b).lists[k])), trig(cs(b).lists[k]))
  ensures [reply] {C05} imp(err == nil, r != nil && enc(r) == encInt(L(b, k0).n))
  ensures [length] {C05} imp(err == nil, L(b, k0).n == ite(l == nil, 0, old(l.n)) + m)
  ensures [pushed] {C05} imp(err == nil, forall(i, 1, m + 1, L(b, k0).val[i].data == arg(a, m + 1 - i), trig(L(b, k0).val[i])))
  ensures [rest] {C05} imp(err == nil && l != nil, forall(i, m + 1, l.n + 1, l.val[i] == old(l.val[i-m]), trig(l.val[i])))

func db.verif_rpush(b, a) (r, err)
  props C05, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.linkedList, container.linkedList+size, container.listNode, protocol.redisString, protocol.redisInteger
  let k0 := arg(a, 0)
  let l := L(b, k0)
  let m := len(a) - 1
  let n0 := ite(l == nil, 0, l.n)
  modifies content(cs(b).lists)
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos
  modifies l.n, l.node, l.val, l.size
  hint [parsed] mapping("string", "protocol.RedisObject", is(s, "*protocol.redisString") && d == as(s, "protocol.redisString").data)
  hint [strings] sweep("protocol.RedisObject", is(s, "*protocol.redisString"))
  hint [made] mapping("*container.StringContainer", "string", 0 < d && !isold(d) && d.own == 0 && d.data == s)
  ensures [args] iff(err == nil, len(a) >= 2 && allargs(a, 0) && k0 != "")
  ensures [rejected] imp(!(len(a) >= 2 && allargs(a, 0)), invalid(err))
  ensures [unchanged] imp(err != nil, sameList(l) && dom(cs(b).lists) == old(dom(cs(b).lists)) && vals(cs(b).lists) == old(vals(cs(b).lists)))
  ensures [dom] {C05} imp(err == nil, dom(cs(b).lists) == store(old(dom(cs(b).lists)), k0, true))
  ensures [kept] {C05} all(k, "string", imp(old(has(cs(b).lists, k)), cs(b).lists[k] == old(cs(b).lists[k])), trig(cs(b).lists[k]))
  ensures [reply] {C05} imp(err == nil, r != nil && enc(r) == encInt(L(b, k0).n))
  ensures [length] {C05} imp(err == nil, L(b, k0).n == n0 + m)
  ensures [pushed] {C05} imp(err == nil, forall(i, n0 + 1, n0 + m + 1, L(b, k0).val[i].data == arg(a, i - n0), trig(L(b, k0).val[i])))
  ensures [rest] {C05} imp(err == nil && l != nil, forall(i, 1, n0 + 1, l.val[i] == old(l.val[i]), trig(l.val[i])))

func db.verif_lrange(b, a) (r, err)
  props C01, C05, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.linkedList, container.linkedList+size, container.listNode, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  let l := L(b, arg(a, 0))
  let lo := segleft(intval(arg(a, 1)), intval(arg(a, 2)), l.n)
  let hi := segright(intval(arg(a, 1)), intval(arg(a, 2)), l.n)
  let ok := l != nil && valid(intval(arg(a, 1)), intval(arg(a, 2)), l.n)
  hint [replies] mapping("protocol.RedisObject", "*container.StringContainer", 0 < d && enc(d) == encBulk(s.data))
  ensures [args] iff(err == nil, args3(a) && isint(arg(a, 1)) && isint(arg(a, 2)))
  ensures [class] imp(err != nil, invalid(err))
  ensures [none] {C05} imp(err == nil && !ok, r != nil && enc(r) == encNullArray)
  ensures [array] {C05} imp(err == nil && ok, r != nil && enc(r) == encArray(aelems(r)) && len(aelems(r)) == hi - lo + 1)
  ensures [items] {C05} imp(err == nil && ok, forall(i, 0, len(aelems(r)), enc(aelems(r)[i]) == encBulk(l.val[lo+1+i].data), trig(aelems(r)[i])))

define A = heapof("protocol.redisString", "data")

// argHits: how many of the first n arguments are names in d.
fold argHits(h [ref]string, d [string]bool, a []protocol.RedisObject, n int) int
  base 0
  step prev + ite(d[h[a[n-1]]], 1, 0)

// pairPos: the last of the first n name-value pairs of the arguments, from
// position f on, whose name is k; -1 when there is none.
fold pairPos(h [ref]string, a []protocol.RedisObject, f int, k string, n int) int
  base 0-1
  step ite(h[a[f+2*(n-1)]] == k, n-1, prev)

lemma hitsArgs(h [ref]string, g [ref]string, d [string]bool, ks []*container.StringContainer, a []protocol.RedisObject, n int)
  props C03
  induct n
  requires 0 <= n && forall(i, 0, n, h[ks[i]] == g[a[i]], trig(ks[i]))
  ensures [same] hits(h, d, ks, n) == argHits(g, d, a, n)
  pat hits(h, d, ks, n), argHits(g, d, a, n)

lemma pairDom(h [ref]string, g [ref]string, d [string]bool, ks []*container.StringContainer, a []protocol.RedisObject, f int, n int, k string)
  props C03, C07
  induct n
  requires 0 <= n && forall(i, 0, n, h[ks[i]] == g[a[f+2*i]], trig(ks[i]))
  ensures [member] setDom(h, d, ks, n)[k] == (d[k] || pairPos(g, a, f, k, n) >= 0)
  pat setDom(h, d, ks, n)[k], pairPos(g, a, f, k, n)

lemma pairVal(h [ref]string, g [ref]string, v [string]*container.StringContainer, ks []*container.StringContainer, vs []*container.StringContainer, a []protocol.RedisObject, f int, n int, k string)
  props C03, C07
  induct n
  requires 0 <= n && forall(i, 0, n, h[ks[i]] == g[a[f+2*i]], trig(ks[i]))
  ensures [range] pairPos(g, a, f, k, n) >= 0-1 && pairPos(g, a, f, k, n) < n
  ensures [value] setVal(h, v, ks, vs, n)[k] == ite(pairPos(g, a, f, k, n) >= 0, vs[pairPos(g, a, f, k, n)], v[k])
  pat setVal(h, v, ks, vs, n)[k], pairPos(g, a, f, k, n)

func db.verif_exists(b, a) (r, err)
  props C03, C10
  use hitsArgs
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, protocol.redisString, protocol.redisInteger
  hint [objects] each("container.ContainerObject", d == cs(b).global)
  hint [parsed] mapping("string", "protocol.RedisObject", is(s, "*protocol.redisString") && d == as(s, "protocol.redisString").data)
  hint [strings] sweep("protocol.RedisObject", is(s, "*protocol.redisString"))
  hint [made] mapping("*container.StringContainer", "string", 0 < d && !isold(d) && d.own == 0 && d.data == s)
  ensures [args] iff(err == nil, len(a) >= 1 && allargs(a, 0))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C03} imp(err == nil, r != nil && enc(r) == encInt(argHits(A, dom(K(b)), a, len(a))))

func db.verif_mget(b, a) (r, err)
  props C03, C10
  budget 150
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  hint [objects] each("container.ContainerObject", d == cs(b).global)
  hint [parsed] mapping("string", "protocol.RedisObject", is(s, "*protocol.redisString") && d == as(s, "protocol.redisString").data)
  hint [strings] sweep("protocol.RedisObject", is(s, "*protocol.redisString"))
  hint [made] mapping("*container.StringContainer", "string", 0 < d && !isold(d) && d.own == 0 && d.data == s)
  hint [replies] mapping("protocol.RedisObject", "*container.StringContainer", 0 < d && enc(d) == ite(s == nil, encNullBulk, encBulk(s.data)))
  ensures [args] iff(err == nil, len(a) >= 1 && allargs(a, 0))
  ensures [class] imp(err != nil, invalid(err))
  ensures [array] {C03} imp(err == nil, r != nil && enc(r) == encArray(aelems(r)) && len(aelems(r)) == len(a))
  ensures [items] {C03} imp(err == nil, forall(i, 0, len(a), enc(aelems(r)[i]) == ite(has(K(b), arg(a, i)), encBulk(K(b)[arg(a, i)].data), encNullBulk), trig(aelems(r)[i])))

func db.verif_mset(b, a) (r, err)
  props C03, C10
  use pairDom, pairVal
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, protocol.redisString
  modifies content(K(b))
  hint [objects] each("container.ContainerObject", d == cs(b).global)
  hint [parsed] mapping("string", "protocol.RedisObject", is(s, "*protocol.redisString") && d == as(s, "protocol.redisString").data, 2)
  hint [strings] sweep("protocol.RedisObject", is(s, "*protocol.redisString"))
  hint [made] mapping("*container.StringContainer", "string", 0 < d && !isold(d) && d.own == 0 && d.data == s)
  hint [even] mv_i % 2 == 0
  hint [pairs] 2 * len(mv_l) == mv_i
  hint [ordered] forall(i, 0, len(mv_l), forall(j, 0, i, mv_l[j] < mv_l[i], trig(mv_l[j])), trig(mv_l[i]))
  ensures [args] iff(err == nil, len(a) >= 2 && len(a) % 2 == 0 && allargs(a, 0))
  ensures [rejected] imp(len(a) % 2 != 0 || !allargs(a, 0), invalid(err))
  ensures [unchanged] imp(err != nil, dom(K(b)) == old(dom(K(b))) && vals(K(b)) == old(vals(K(b))))
  ensures [reply] {C03} imp(err == nil, r != nil && enc(r) == encSimple("OK"))
  ensures [names] {C03} imp(err == nil, all(k, "string", has(K(b), k) == (old(has(K(b), k)) || pairPos(A, a, 0, k, len(a) / 2) >= 0), trig(has(K(b), k))))
  ensures [values] {C03} imp(err == nil, all(k, "string", imp(pairPos(A, a, 0, k, len(a) / 2) >= 0, K(b)[k].data == arg(a, 2 * pairPos(A, a, 0, k, len(a) / 2) + 1)), trig(K(b)[k])))
  ensures [others] {C03} imp(err == nil, all(k, "string", imp(pairPos(A, a, 0, k, len(a) / 2) < 0, K(b)[k] == old(K(b)[k])), trig(K(b)[k])))

// Hash commands (C07).

define HC(d, k) = as(ite(has(cs(d).hashes, k), cs(d).hashes[k], nil), "container.hashContainer")
define hhas(h, k) = h != nil && has(h.container, k)

func db.verif_hget(b, a) (r, err)
  props C07, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.hashContainer, protocol.redisString
  let h := HC(b, arg(a, 0))
  ensures [args] iff(err == nil, args2(a) && (h == nil || arg(a, 1) != ""))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C07} imp(err == nil, r != nil && enc(r) == ite(hhas(h, arg(a, 1)), encBulk(h.fields[arg(a, 1)].data), encNullBulk))

func db.verif_hexists(b, a) (r, err)
  props C07, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.hashContainer, protocol.redisString, protocol.redisInteger
  let h := HC(b, arg(a, 0))
  ensures [args] iff(err == nil, args2(a) && (h == nil || arg(a, 1) != ""))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C07} imp(err == nil, r != nil && enc(r) == ite(hhas(h, arg(a, 1)), encInt(1), encInt(0)))

func db.verif_hstrlen(b, a) (r, err)
  props C07, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.hashContainer, protocol.redisString, protocol.redisInteger
  let h := HC(b, arg(a, 0))
  ensures [args] iff(err == nil, args2(a) && (h == nil || arg(a, 1) != ""))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C07} imp(err == nil, r != nil && enc(r) == ite(hhas(h, arg(a, 1)), encInt(len(h.fields[arg(a, 1)].data)), encInt(0)))

func db.verif_hlen(b, a) (r, err)
  props C07, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.hashContainer, protocol.redisString, protocol.redisInteger
  let h := HC(b, arg(a, 0))
  ensures [args] iff(err == nil, args1(a))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C07} imp(err == nil, r != nil && enc(r) == ite(h == nil, encInt(0), encInt(card(dom(h.container)))))

// argPos: the last of the n arguments from position f on that is k; -1 when
// there is none.
fold argPos(h [ref]string, a []protocol.RedisObject, f int, k string, n int) int
  base 0-1
  step ite(h[a[f+n-1]] == k, f+n-1, prev)

lemma setArgs(h [ref]string, g [ref]string, d [string]bool, ks []*container.StringContainer, a []protocol.RedisObject, f int, n int, k string)
  props C07, C08
  induct n
  requires 0 <= n && 0 <= f && forall(i, 0, n, h[ks[i]] == g[a[f+i]], trig(ks[i]))
  ensures [member] setDom(h, d, ks, n)[k] == (d[k] || argPos(g, a, f, k, n) >= 0)
  pat setDom(h, d, ks, n)[k], argPos(g, a, f, k, n)

lemma delArgs(h [ref]string, g [ref]string, d [string]bool, ks []*container.StringContainer, a []protocol.RedisObject, f int, n int, k string)
  props C07, C08
  induct n
  requires 0 <= n && 0 <= f && forall(i, 0, n, h[ks[i]] == g[a[f+i]], trig(ks[i]))
  ensures [member] delDom(h, d, ks, n)[k] == (d[k] && argPos(g, a, f, k, n) < 0)
  pat delDom(h, d, ks, n)[k], argPos(g, a, f, k, n)

func db.verif_hdel(b, a) (r, err)
  props C07, C10
  use delArgs, delDomAt
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.hashContainer, protocol.redisString, protocol.redisInteger
  let h := HC(b, arg(a, 0))
  modifies content(h.container)
  hint [parsed] mapping("string", "protocol.RedisObject", is(s, "*protocol.redisString") && d == as(s, "protocol.redisString").data)
  hint [strings] sweep("protocol.RedisObject", is(s, "*protocol.redisString"))
  hint [made] mapping("*container.StringContainer", "string", 0 < d && !isold(d) && d.own == 0 && d.data == s)
  ensures [args] iff(err == nil, len(a) >= 2 && allargs(a, 0))
  ensures [class] imp(err != nil, invalid(err))
  ensures [unchanged] imp(err != nil && h != nil, dom(h.container) == old(dom(h.container)))
  ensures [reply] {C07} imp(err == nil, r != nil && enc(r) == ite(h == nil, encInt(0), encInt(old(card(dom(h.container))) - card(dom(h.container)))))
  ensures [removed] {C07} imp(err == nil && h != nil, all(k, "string", has(h.container, k) == (old(has(h.container, k)) && argPos(A, a, 1, k, len(a) - 1) < 0), trig(has(h.container, k))))

func db.verif_hset(b, a) (r, err)
  props C07, C10
  use pairDom, pairVal
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.hashContainer, protocol.redisString, protocol.redisInteger
  let k0 := arg(a, 0)
  let h := HC(b, k0)
  let m := (len(a) - 1) / 2
  let d0 := ite(h == nil, emptyset(), dom(h.container))
  modifies content(cs(b).hashes)
  modifies content(h.container)
  modifies h.fields
  modifies all container.hashEntry.value
  hint [parsed] mapping("string", "protocol.RedisObject", is(s, "*protocol.redisString") && d == as(s, "protocol.redisString").data, 2)
  hint [strings] sweep("protocol.RedisObject", is(s, "*protocol.redisString"))
  hint [made] mapping("*container.StringContainer", "string", 0 < d && !isold(d) && d.own == 0 && d.data == s)
  hint [odd] mv_i % 2 == 1
  hint [pairs] 2 * len(mv_l) == mv_i - 1
  ensures [args] iff(err == nil, len(a) >= 3 && len(a) % 2 == 1 && allargs(a, 0) && k0 != "")
  ensures [rejected] imp(!(len(a) >= 3 && len(a) % 2 == 1 && allargs(a, 0)), invalid(err))
  ensures [unchanged] imp(err != nil, dom(cs(b).hashes) == old(dom(cs(b).hashes)) && vals(cs(b).hashes) == old(vals(cs(b).hashes)) && imp(h != nil, dom(h.container) == d0 && h.fields == old(h.fields)))
  ensures [dom] {C07} imp(err == nil, dom(cs(b).hashes) == store(old(dom(cs(b).hashes)), k0, true))
  ensures [kept] {C07} all(k, "string", imp(old(has(cs(b).hashes, k)), cs(b).hashes[k] == old(cs(b).hashes[k])), trig(cs(b).hashes[k]))
  ensures [reply] {C07} imp(err == nil, r != nil && enc(r) == encInt(card(dom(HC(b, k0).container)) - card(d0)))
  ensures [names] {C07} imp(err == nil, all(k, "string", has(HC(b, k0).container, k) == (d0[k] || pairPos(A, a, 1, k, m) >= 0), trig(has(HC(b, k0).container, k))))
  ensures [values] {C07} imp(err == nil, all(k, "string", imp(pairPos(A, a, 1, k, m) >= 0, HC(b, k0).fields[k].data == arg(a, 2 * pairPos(A, a, 1, k, m) + 2)), trig(HC(b, k0).fields[k])))
  ensures [others] {C07} imp(err == nil && h != nil, all(k, "string", imp(pairPos(A, a, 1, k, m) < 0, h.fields[k] == old(h.fields[k])), trig(h.fields[k])))

func db.verif_hmget(b, a) (r, err)
  props C07, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.hashContainer, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  let h := HC(b, arg(a, 0))
  hint [parsed] mapping("string", "protocol.RedisObject", is(s, "*protocol.redisString") && d == as(s, "protocol.redisString").data)
  hint [strings] sweep("protocol.RedisObject", is(s, "*protocol.redisString"))
  hint [made] mapping("*container.StringContainer", "string", 0 < d && !isold(d) && d.own == 0 && d.data == s)
  hint [replies] mapping("protocol.RedisObject", "*container.StringContainer", 0 < d && enc(d) == ite(s == nil, encNullBulk, encBulk(s.data)))
  hint [nulls] each("protocol.RedisObject", 0 < d && enc(d) == encNullBulk)
  hint [count] len(mv_l) == mv_i
  ensures [args] iff(err == nil, len(a) >= 2 && allargs(a, 0))
  ensures [class] imp(err != nil, invalid(err))
  ensures [array] {C07} imp(err == nil, r != nil && enc(r) == encArray(aelems(r)) && len(aelems(r)) == len(a) - 1)
  ensures [items] {C07} imp(err == nil, forall(i, 0, len(a) - 1, enc(aelems(r)[i]) == ite(hhas(h, arg(a, i + 1)), encBulk(h.fields[arg(a, i + 1)].data), encNullBulk), trig(aelems(r)[i])))

// bdata: the bytes of a bulk reply
define bdata(o) = as(o, "protocol.redisString").data
define bstr(o) = is(o, "*protocol.redisString") && enc(o) == encBulk(bdata(o))
// bulks: an array of distinct names of d, each as a bulk string
define bulks(r, d) = r != nil && enc(r) == encArray(aelems(r)) && forall(i, 0, len(aelems(r)), bstr(aelems(r)[i]) && d[bdata(aelems(r)[i])], trig(aelems(r)[i])) && forall(i, 0, len(aelems(r)), forall(j, 0, len(aelems(r)), imp(i != j, bdata(aelems(r)[i]) != bdata(aelems(r)[j])), trig(aelems(r)[j])), trig(aelems(r)[i]))

func db.verif_hkeys(b, a) (r, err)
  props C07, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.hashContainer, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  let h := HC(b, arg(a, 0))
  hint [replies] mapping("protocol.RedisObject", "*container.StringContainer", 0 < d && is(d, "*protocol.redisString") && bdata(d) == s.data && enc(d) == encBulk(s.data))
  ensures [args] iff(err == nil, args1(a))
  ensures [class] imp(err != nil, invalid(err))
  ensures [none] {C07} imp(err == nil && h == nil, r != nil && enc(r) == encNullArray)
  ensures [count] {C07} imp(err == nil && h != nil, len(aelems(r)) == card(dom(h.container)))
  ensures [names] {C07} imp(err == nil && h != nil, bulks(r, dom(h.container)))

// fkeys: the field each value of a reply belongs to
field protocol.redisArray fkeys [int]string

func db.verif_hvals(b, a) (r, err)
  props C07, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.hashContainer, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  let h := HC(b, arg(a, 0))
  hint [replies] mapping("protocol.RedisObject", "*container.StringContainer", 0 < d && enc(d) == encBulk(s.data))
  ghost as(r, "protocol.redisArray").fkeys[i] := fkey(lastresult("container.(*hashContainer).Values"))[i]
  ensures [args] iff(err == nil, args1(a))
  ensures [class] imp(err != nil, invalid(err))
  ensures [none] {C07} imp(err == nil && h == nil, r != nil && enc(r) == encNullArray)
  ensures [array] {C07} imp(err == nil && h != nil, r != nil && enc(r) == encArray(aelems(r)) && len(aelems(r)) == card(dom(h.container)))
  ensures [items] {C07} imp(err == nil && h != nil, forall(i, 0, len(aelems(r)), has(h.container, as(r, "protocol.redisArray").fkeys[i]) && enc(aelems(r)[i]) == encBulk(h.fields[as(r, "protocol.redisArray").fkeys[i]].data), trig(aelems(r)[i])))
  ensures [distinct] {C07} imp(err == nil && h != nil, forall(i, 0, len(aelems(r)), forall(j, 0, len(aelems(r)), imp(i != j, as(r, "protocol.redisArray").fkeys[i] != as(r, "protocol.redisArray").fkeys[j]), trig(as(r, "protocol.redisArray").fkeys[j])), trig(as(r, "protocol.redisArray").fkeys[i])))

func db.verif_hgetall(b, a) (r, err)
  props C07, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.hashContainer, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  let h := HC(b, arg(a, 0))
  hint [count] len(mv_l) == 2 * mv_i
  hint [replies] each("protocol.RedisObject", 0 < d && is(d, "*protocol.redisString") && enc(d) == encBulk(bdata(d)))
  hint [names] forall(i, 0, mv_i, bdata(mv_l[2*i]) == mv_k[i].data, trig(mv_k[i]), trig(mv_l[2*i]))
  hint [values] forall(i, 0, mv_i, bdata(mv_l[2*i+1]) == mv_k[i].data, trig(mv_k[i]), trig(mv_l[2*i+1]))
  ensures [args] iff(err == nil, args1(a))
  ensures [class] imp(err != nil, invalid(err))
  ensures [none] {C07} imp(err == nil && h == nil, r != nil && enc(r) == encNullArray)
  ensures [array] {C07} imp(err == nil && h != nil, r != nil && enc(r) == encArray(aelems(r)) && len(aelems(r)) == 2 * card(dom(h.container)))
  ensures [names] {C07} imp(err == nil && h != nil, forall(i, 0, card(dom(h.container)), bstr(aelems(r)[2*i]) && has(h.container, bdata(aelems(r)[2*i])), trig(aelems(r)[2*i])))
  ensures [values] {C07} imp(err == nil && h != nil, forall(i, 0, card(dom(h.container)), bstr(aelems(r)[2*i+1]) && bdata(aelems(r)[2*i+1]) == h.fields[bdata(aelems(r)[2*i])].data, trig(aelems(r)[2*i+1])))
  ensures [distinct] {C07} imp(err == nil && h != nil, forall(i, 0, card(dom(h.container)), forall(j, 0, card(dom(h.container)), imp(i != j, bdata(aelems(r)[2*i]) != bdata(aelems(r)[2*j])), trig(aelems(r)[2*j])), trig(aelems(r)[2*i])))

define SC(d, k) = as(ite(has(cs(d).sets, k), cs(d).sets[k], nil), "container.setContainer")
define shas(s, k) = s != nil && has(s.container, k)

func db.verif_scard(b, a) (r, err)
  props C08, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.setContainer, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  let s := SC(b, arg(a, 0))
  ensures [args] iff(err == nil, args1(a))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C08} imp(err == nil, r != nil && enc(r) == ite(s == nil, encInt(0), encInt(card(dom(s.container)))))

func db.verif_sismember(b, a) (r, err)
  props C08, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.setContainer, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  let s := SC(b, arg(a, 0))
  ensures [args] iff(err == nil, args2(a) && (s == nil || arg(a, 1) != ""))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C08} imp(err == nil, r != nil && enc(r) == ite(shas(s, arg(a, 1)), encInt(1), encInt(0)))

func db.verif_smembers(b, a) (r, err)
  props C08, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.setContainer, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  let s := SC(b, arg(a, 0))
  hint [replies] mapping("protocol.RedisObject", "*container.StringContainer", 0 < d && is(d, "*protocol.redisString") && bdata(d) == s.data && enc(d) == encBulk(s.data))
  ensures [args] iff(err == nil, args1(a))
  ensures [class] imp(err != nil, invalid(err))
  ensures [none] {C08} imp(err == nil && s == nil, r != nil && enc(r) == encNullArray)
  ensures [count] {C08} imp(err == nil && s != nil, len(aelems(r)) == card(dom(s.container)))
  ensures [names] {C08} imp(err == nil && s != nil, bulks(r, dom(s.container)))

func db.verif_sadd(b, a) (r, err)
  props C08, C10
  use setArgs, setDomAt
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.setContainer, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  let k0 := arg(a, 0)
  let s := SC(b, k0)
  let d0 := ite(s == nil, emptyset(), dom(s.container))
  modifies content(cs(b).sets)
  modifies content(s.container)
  hint [parsed] mapping("string", "protocol.RedisObject", is(s, "*protocol.redisString") && d == as(s, "protocol.redisString").data)
  hint [strings] sweep("protocol.RedisObject", is(s, "*protocol.redisString"))
  hint [made] mapping("*container.StringContainer", "string", 0 < d && !isold(d) && d.own == 0 && d.data == s)
  ensures [args] iff(err == nil, len(a) >= 2 && allargs(a, 0) && k0 != "")
  ensures [rejected] imp(!(len(a) >= 2 && allargs(a, 0)), invalid(err))
  ensures [unchanged] imp(err != nil, dom(cs(b).sets) == old(dom(cs(b).sets)) && vals(cs(b).sets) == old(vals(cs(b).sets)) && imp(s != nil, dom(s.container) == d0))
  ensures [dom] {C08} imp(err == nil, dom(cs(b).sets) == store(old(dom(cs(b).sets)), k0, true))
  ensures [kept] {C08} all(k, "string", imp(old(has(cs(b).sets, k)), cs(b).sets[k] == old(cs(b).sets[k])), trig(cs(b).sets[k]))
  ensures [reply] {C08} imp(err == nil, r != nil && enc(r) == encInt(card(dom(SC(b, k0).container)) - card(d0)))
  ensures [members] {C08} imp(err == nil, all(k, "string", has(SC(b, k0).container, k) == (d0[k] || argPos(A, a, 1, k, len(a) - 1) >= 0), trig(has(SC(b, k0).container, k))))

func db.verif_srem(b, a) (r, err)
  props C08, C10
  use delArgs, delDomAt
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.setContainer, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  let k0 := arg(a, 0)
  let s := SC(b, k0)
  let d0 := ite(s == nil, emptyset(), dom(s.container))
  modifies content(cs(b).sets)
  modifies content(s.container)
  hint [parsed] mapping("string", "protocol.RedisObject", is(s, "*protocol.redisString") && d == as(s, "protocol.redisString").data)
  hint [strings] sweep("protocol.RedisObject", is(s, "*protocol.redisString"))
  hint [made] mapping("*container.StringContainer", "string", 0 < d && !isold(d) && d.own == 0 && d.data == s)
  ensures [args] iff(err == nil, len(a) >= 2 && allargs(a, 0) && k0 != "")
  ensures [rejected] imp(!(len(a) >= 2 && allargs(a, 0)), invalid(err))
  ensures [unchanged] imp(err != nil, dom(cs(b).sets) == old(dom(cs(b).sets)) && vals(cs(b).sets) == old(vals(cs(b).sets)) && imp(s != nil, dom(s.container) == d0))
  ensures [dom] {C08} imp(err == nil, dom(cs(b).sets) == store(old(dom(cs(b).sets)), k0, true))
  ensures [kept] {C08} all(k, "string", imp(old(has(cs(b).sets, k)), cs(b).sets[k] == old(cs(b).sets[k])), trig(cs(b).sets[k]))
  ensures [reply] {C08} imp(err == nil, r != nil && enc(r) == encInt(card(d0) - card(dom(SC(b, k0).container))))
  ensures [members] {C08} imp(err == nil, all(k, "string", has(SC(b, k0).container, k) == (d0[k] && argPos(A, a, 1, k, len(a) - 1) < 0), trig(has(SC(b, k0).container, k))))

func db.verif_srandmember(b, a) (r, err)
  props C08, C10
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.setContainer, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  let s := SC(b, arg(a, 0))
  let n := ite(s == nil, 0, minof(absint(amount(a)), card(dom(s.container))))
  hint [replies] mapping("protocol.RedisObject", "*container.StringContainer", 0 < d && is(d, "*protocol.redisString") && bdata(d) == s.data && enc(d) == encBulk(s.data))
  ensures [args] iff(err == nil, counterargs(a))
  ensures [class] imp(err != nil, invalid(err))
  ensures [none] {C08} imp(err == nil && n == 0, r != nil && enc(r) == ite(len(a) == 1, encNullBulk, encNullArray))
  ensures [one] {C08} imp(err == nil && n > 0 && len(a) == 1, r != nil && bstr(r) && has(s.container, bdata(r)))
  ensures [count] {C08} imp(err == nil && n > 0 && len(a) == 2, len(aelems(r)) == n)
  ensures [many] {C08} imp(err == nil && n > 0 && len(a) == 2, bulks(r, dom(s.container)))

func db.verif_spop(b, a) (r, err)
  props C08, C10
  use delDomAt
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.setContainer, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  let s := SC(b, arg(a, 0))
  let d0 := dom(s.container)
  let n := ite(s == nil, 0, minof(absint(amount(a)), card(dom(s.container))))
  modifies content(s.container)
  hint [replies] mapping("protocol.RedisObject", "*container.StringContainer", 0 < d && is(d, "*protocol.redisString") && bdata(d) == s.data && enc(d) == encBulk(s.data))
  ensures [args] iff(err == nil, counterargs(a))
  ensures [class] imp(err != nil, invalid(err))
  ensures [unchanged] imp(err != nil && s != nil, dom(s.container) == d0)
  ensures [none] {C08} imp(err == nil && n == 0, r != nil && enc(r) == ite(len(a) == 1, encNullBulk, encNullArray))
  ensures [one] {C08} imp(err == nil && n > 0 && len(a) == 1, r != nil && bstr(r) && d0[bdata(r)] && dom(s.container) == store(d0, bdata(r), false))
  ensures [count] {C08} imp(err == nil && n > 0 && len(a) == 2, len(aelems(r)) == n)
  ensures [many] {C08} imp(err == nil && n > 0 && len(a) == 2, bulks(r, d0))
  ensures [gone] {C08} imp(err == nil && n > 0 && len(a) == 2, forall(i, 0, len(aelems(r)), !has(s.container, bdata(aelems(r)[i])), trig(aelems(r)[i])))
  ensures [kept] {C08} imp(err == nil && s != nil, all(k, "string", imp(has(s.container, k), d0[k]), trig(has(s.container, k))))
  ensures [left] {C08} imp(err == nil && s != nil, card(dom(s.container)) == card(d0) - n)

// inSet: k is a member of the set stored under the i-th argument
define inSet(b, a, i, k) = shas(SC(b, arg(a, i)), k)
define diffHas(b, a, k) = inSet(b, a, 0, k) && forall(j, 1, len(a), !inSet(b, a, j, k), trig(a[j]))
define interHas(b, a, k) = forall(j, 0, len(a), inSet(b, a, j, k), trig(a[j]))
define noneHas(b, a, k) = forall(j, 0, len(a), !inSet(b, a, j, k), trig(a[j]))

func db.verif_sdiff(b, a) (r, err)
  props C09, C10
  budget 400
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.setContainer, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  hint [parsed] bimap("string", "protocol.RedisObject", is(s, "*protocol.redisString") && d == as(s, "protocol.redisString").data)
  hint [strings] sweep("protocol.RedisObject", is(s, "*protocol.redisString"))
  hint [objects] bimap("container.ContainerObject", "string", d == ite(has(cs(b).sets, s), cs(b).sets[s], nil))
  hint [anonymous] bimap("container.ContainerObject", "container.ContainerObject", 0 < d && is(d, "*container.setContainer") && (s != nil && d == s || s == nil && !isold(d) && sdom(d) == emptyset()))
  hint [sets] sweep("container.ContainerObject", is(s, "*container.setContainer"))
  hint [others] bimap("container.SetContainer", "container.ContainerObject", 0 < d && d == s && is(d, "*container.setContainer"))
  hint [replies] bimap("protocol.RedisObject", "*container.StringContainer", 0 < d && is(d, "*protocol.redisString") && bdata(d) == s.data && enc(d) == encBulk(s.data))
  ensures [args] iff(err == nil, len(a) >= 1 && allargs(a, 0))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C09} imp(err == nil, r != nil && (enc(r) == encNullArray || enc(r) == encArray(aelems(r)) && len(aelems(r)) > 0))
  ensures [distinct] {C09} imp(err == nil && enc(r) != encNullArray, forall(i, 0, len(aelems(r)), bstr(aelems(r)[i]), trig(aelems(r)[i])) && forall(i, 0, len(aelems(r)), forall(j, 0, len(aelems(r)), imp(i != j, bdata(aelems(r)[i]) != bdata(aelems(r)[j])), trig(aelems(r)[j])), trig(aelems(r)[i])))
  ensures [members] {C09} imp(err == nil && enc(r) != encNullArray, forall(i, 0, len(aelems(r)), diffHas(b, a, bdata(aelems(r)[i])), trig(aelems(r)[i])))
  ensures [position] {C09} imp(err == nil && enc(r) != encNullArray, all(k, "string", imp(diffHas(b, a, k), 0 <= find(H, lastresult("container.(*setContainer).Members"), len(lastresult("container.(*setContainer).Members")), k) && find(H, lastresult("container.(*setContainer).Members"), len(lastresult("container.(*setContainer).Members")), k) < len(aelems(r)) && bdata(aelems(r)[find(H, lastresult("container.(*setContainer).Members"), len(lastresult("container.(*setContainer).Members")), k)]) == k), trig(has(SC(b, arg(a, 0)).container, k)), trig(iset(lastresult("container.(*setContainer).Diff"), k))))
  ensures [complete] {C09} imp(err == nil && enc(r) != encNullArray, all(k, "string", imp(diffHas(b, a, k), !forall(i, 0, len(aelems(r)), bdata(aelems(r)[i]) != k, trig(aelems(r)[i]))), trig(has(SC(b, arg(a, 0)).container, k)), trig(iset(lastresult("container.(*setContainer).Diff"), k))))
  ensures [empty] {C09} imp(err == nil && enc(r) == encNullArray, all(k, "string", !(diffHas(b, a, k)), trig(has(SC(b, arg(a, 0)).container, k)), trig(iset(lastresult("container.(*setContainer).Diff"), k))))

func db.verif_sinter(b, a) (r, err)
  props C09, C10
  budget 400
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.setContainer, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  hint [parsed] bimap("string", "protocol.RedisObject", is(s, "*protocol.redisString") && d == as(s, "protocol.redisString").data)
  hint [strings] sweep("protocol.RedisObject", is(s, "*protocol.redisString"))
  hint [objects] bimap("container.ContainerObject", "string", d == ite(has(cs(b).sets, s), cs(b).sets[s], nil))
  hint [anonymous] bimap("container.ContainerObject", "container.ContainerObject", 0 < d && is(d, "*container.setContainer") && (s != nil && d == s || s == nil && !isold(d) && sdom(d) == emptyset()))
  hint [sets] sweep("container.ContainerObject", is(s, "*container.setContainer"))
  hint [others] bimap("container.SetContainer", "container.ContainerObject", 0 < d && d == s && is(d, "*container.setContainer"))
  hint [replies] bimap("protocol.RedisObject", "*container.StringContainer", 0 < d && is(d, "*protocol.redisString") && bdata(d) == s.data && enc(d) == encBulk(s.data))
  ensures [args] iff(err == nil, len(a) >= 1 && allargs(a, 0))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C09} imp(err == nil, r != nil && (enc(r) == encNullArray || enc(r) == encArray(aelems(r)) && len(aelems(r)) > 0))
  ensures [distinct] {C09} imp(err == nil && enc(r) != encNullArray, forall(i, 0, len(aelems(r)), bstr(aelems(r)[i]), trig(aelems(r)[i])) && forall(i, 0, len(aelems(r)), forall(j, 0, len(aelems(r)), imp(i != j, bdata(aelems(r)[i]) != bdata(aelems(r)[j])), trig(aelems(r)[j])), trig(aelems(r)[i])))
  ensures [members] {C09} imp(err == nil && enc(r) != encNullArray, forall(i, 0, len(aelems(r)), interHas(b, a, bdata(aelems(r)[i])), trig(aelems(r)[i])))
  ensures [position] {C09} imp(err == nil && enc(r) != encNullArray, all(k, "string", imp(interHas(b, a, k), 0 <= find(H, lastresult("container.(*setContainer).Members"), len(lastresult("container.(*setContainer).Members")), k) && find(H, lastresult("container.(*setContainer).Members"), len(lastresult("container.(*setContainer).Members")), k) < len(aelems(r)) && bdata(aelems(r)[find(H, lastresult("container.(*setContainer).Members"), len(lastresult("container.(*setContainer).Members")), k)]) == k), trig(has(SC(b, arg(a, 0)).container, k)), trig(iset(lastresult("container.(*setContainer).Intersect"), k))))
  ensures [complete] {C09} imp(err == nil && enc(r) != encNullArray, all(k, "string", imp(interHas(b, a, k), !forall(i, 0, len(aelems(r)), bdata(aelems(r)[i]) != k, trig(aelems(r)[i]))), trig(has(SC(b, arg(a, 0)).container, k)), trig(iset(lastresult("container.(*setContainer).Intersect"), k))))
  ensures [empty] {C09} imp(err == nil && enc(r) == encNullArray, all(k, "string", !(interHas(b, a, k)), trig(has(SC(b, arg(a, 0)).container, k)), trig(iset(lastresult("container.(*setContainer).Intersect"), k))))

func db.verif_sunion(b, a) (r, err)
  props C09, C10
  budget 400
  requires ready(b)
  inv db.db, container.containers, container.simpleStringMap, container.StringContainer, container.setContainer, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  hint [parsed] bimap("string", "protocol.RedisObject", is(s, "*protocol.redisString") && d == as(s, "protocol.redisString").data)
  hint [strings] sweep("protocol.RedisObject", is(s, "*protocol.redisString"))
  hint [objects] bimap("container.ContainerObject", "string", d == ite(has(cs(b).sets, s), cs(b).sets[s], nil))
  hint [anonymous] bimap("container.ContainerObject", "container.ContainerObject", 0 < d && is(d, "*container.setContainer") && (s != nil && d == s || s == nil && !isold(d) && sdom(d) == emptyset()))
  hint [sets] sweep("container.ContainerObject", is(s, "*container.setContainer"))
  hint [others] bimap("container.SetContainer", "container.ContainerObject", 0 < d && d == s && is(d, "*container.setContainer"))
  hint [replies] bimap("protocol.RedisObject", "*container.StringContainer", 0 < d && is(d, "*protocol.redisString") && bdata(d) == s.data && enc(d) == encBulk(s.data))
  ensures [args] iff(err == nil, len(a) >= 1 && allargs(a, 0))
  ensures [class] imp(err != nil, invalid(err))
  ensures [reply] {C09} imp(err == nil, r != nil && (enc(r) == encNullArray || enc(r) == encArray(aelems(r)) && len(aelems(r)) > 0))
  ensures [distinct] {C09} imp(err == nil && enc(r) != encNullArray, forall(i, 0, len(aelems(r)), bstr(aelems(r)[i]), trig(aelems(r)[i])) && forall(i, 0, len(aelems(r)), forall(j, 0, len(aelems(r)), imp(i != j, bdata(aelems(r)[i]) != bdata(aelems(r)[j])), trig(aelems(r)[j])), trig(aelems(r)[i])))
  ensures [members] {C09} imp(err == nil && enc(r) != encNullArray, forall(i, 0, len(aelems(r)), !noneHas(b, a, bdata(aelems(r)[i])), trig(aelems(r)[i])))
  ensures [position] {C09} imp(err == nil && enc(r) != encNullArray, all(k, "string", imp(!noneHas(b, a, k), 0 <= find(H, lastresult("container.(*setContainer).Members"), len(lastresult("container.(*setContainer).Members")), k) && find(H, lastresult("container.(*setContainer).Members"), len(lastresult("container.(*setContainer).Members")), k) < len(aelems(r)) && bdata(aelems(r)[find(H, lastresult("container.(*setContainer).Members"), len(lastresult("container.(*setContainer).Members")), k)]) == k), trig(has(SC(b, arg(a, 0)).container, k)), trig(iset(lastresult("container.(*setContainer).Union"), k))))
  ensures [complete] {C09} imp(err == nil && enc(r) != encNullArray, all(k, "string", imp(!noneHas(b, a, k), !forall(i, 0, len(aelems(r)), bdata(aelems(r)[i]) != k, trig(aelems(r)[i]))), trig(has(SC(b, arg(a, 0)).container, k)), trig(iset(lastresult("container.(*setContainer).Union"), k))))
  ensures [empty] {C09} imp(err == nil && enc(r) == encNullArray, all(k, "string", !(!noneHas(b, a, k)), trig(has(SC(b, arg(a, 0)).container, k)), trig(iset(lastresult("container.(*setContainer).Union"), k))))

// What each command is (C11): its class, the kind of key it addresses, whether
// it creates an absent key, and its keys, for every name in any letter case.
define globalName(n) = n == "set" || n == "get" || n == "mset" || n == "mget" || n == "exists" || n == "strlen" || n == "append" || n == "incr" || n == "incrby" || n == "decr" || n == "decrby" || n == "getrange"
define listName(n) = n == "lpop" || n == "rpop" || n == "lindex" || n == "linsert" || n == "llen" || n == "lpush" || n == "rpush" || n == "lrange" || n == "ltrim" || n == "lrem" || n == "lset"
define hashName(n) = n == "hset" || n == "hget" || n == "hexists" || n == "hdel" || n == "hmget" || n == "hkeys" || n == "hvals" || n == "hgetall" || n == "hstrlen" || n == "hlen"
define setName(n) = n == "sadd" || n == "srem" || n == "sismember" || n == "smembers" || n == "srandmember" || n == "spop" || n == "sdiff" || n == "sinter" || n == "sunion" || n == "scard"
define known(n) = globalName(n) || listName(n) || hashName(n) || setName(n)
define modifying(n) = n == "set" || n == "mset" || n == "append" || n == "incr" || n == "incrby" || n == "decr" || n == "decrby" || n == "lpop" || n == "rpop" || n == "linsert" || n == "lpush" || n == "rpush" || n == "ltrim" || n == "lrem" || n == "lset" || n == "hset" || n == "hdel" || n == "sadd" || n == "srem" || n == "spop"
define creating(n) = n == "set" || n == "mset" || n == "append" || n == "incr" || n == "incrby" || n == "decr" || n == "decrby" || n == "lpush" || n == "rpush" || n == "hset" || n == "sadd" || n == "srem"
define manyKeys(n) = n == "mget" || n == "exists" || n == "sdiff" || n == "sinter" || n == "sunion"

func db.verif_shape(name, a) (t, kind, create, keys, err)
  props C11, C19
  budget 600
  requires held(command.lock) == 0
  inv protocol.redisString
  let n := lower(name)
  hint [parsed] mapping("string", "protocol.RedisObject", is(s, "*protocol.redisString") && d == as(s, "protocol.redisString").data, 2)
  hint [even] mv_i % 2 == 0
  hint [odd] mv_i % 2 == 1
  hint [pairs] 2 * len(mv_l) == mv_i
  ensures [unknown] imp(!known(n), errIs(err, command.ErrCommandNotExist))
  ensures [rejected] imp(known(n) && err != nil, errIs(err, command.ErrArgumentInvalid))
  ensures [type] imp(err == nil, t == ite(modifying(n), command.ModifyCommandType, command.AccessCommandType))
  ensures [kind] imp(err == nil, kind == ite(globalName(n), container.GlobalType, ite(listName(n), container.LinkedListType, ite(hashName(n), container.HashType, container.SetType))))
  ensures [create] imp(err == nil && !globalName(n), create == creating(n))
  ensures [keys] imp(err == nil, len(keys) == ite(manyKeys(n), len(a), ite(n == "mset", len(a) / 2, 1)))
  ensures [named] imp(err == nil, forall(i, 0, len(keys), isarg(a, ite(n == "mset", 2 * i, i)) && keys[i] == arg(a, ite(n == "mset", 2 * i, i)), trig(keys[i])))
