// The string keyspace (C03, C04).

define H = heapof("container.StringContainer", "data")
define sdata(s) = s.data

// setDom, setVal: names and values after writing n pairs in order.
fold setDom(h [ref]string, d [string]bool, ks []*container.StringContainer, n int) [string]bool
  base d
  step store(prev, h[ks[n-1]], true)

fold setVal(h [ref]string, v [string]*container.StringContainer, ks []*container.StringContainer, vs []*container.StringContainer, n int) [string]*container.StringContainer
  base v
  step store(prev, h[ks[n-1]], vs[n-1])

// hits: how many of the first n keys are present.
fold hits(h [ref]string, d [string]bool, ks []*container.StringContainer, n int) int
  base 0
  step prev + ite(d[h[ks[n-1]]], 1, 0)

define allset(s) = forall(i, 0, len(s), 0 < s[i], trig(s[i]))
define unstored(s) = forall(i, 0, len(s), 0 < s[i] && s[i].own == 0 && idx(s, s[i]) == i, trig(s[i]))
define bound(m, k) = has(m.container, k)

class container.simpleStringMap m
  trig m.container
  body [map] m.container != nil && m.container.downer == m
  body [entries] all(k, "string", imp(has(m.container, k), 0 < m.container[k] && m.container[k].own == m && m.container[k].okey == k), trig(m.container[k]))

define stringmapinv = container.simpleStringMap

func container.NewStringMap() (r)
  props C03
  inv container.simpleStringMap
  ghost as(r, "container.simpleStringMap").container.downer := as(r, "container.simpleStringMap")
  ensures [empty] r != nil && fresh(r) && is(r, "*container.simpleStringMap") && dom(as(r, "container.simpleStringMap").container) == emptyset()

func container.(*simpleStringMap).Set(m, keys, values) (err)
  props C03
  inv container.StringContainer, container.simpleStringMap
  requires allset(keys) && unstored(values)
  modifies content(m.container)
  modifies all container.StringContainer.$own, all container.StringContainer.$okey
  let d := dom(m.container)
  let v := vals(m.container)
  ghostpre each(o, "container.StringContainer").okey := ite(len(keys) == len(values) && idx(values, o) >= 0, keys[idx(values, o)].data, o.okey)
  ghostpre each(o, "container.StringContainer").own := ite(len(keys) == len(values) && idx(values, o) >= 0, m, o.own)
  hint [dom] dom(m.container) == setDom(H, d, keys, mv_i)
  hint [val] vals(m.container) == setVal(H, v, keys, values, mv_i)
  ensures [err] iff(err == nil, len(keys) == len(values))
  ensures [dom] dom(m.container) == ite(err == nil, setDom(H, d, keys, len(keys)), d)
  ensures [val] vals(m.container) == ite(err == nil, setVal(H, v, keys, values, len(keys)), v)
  ensures [own] all(o, "*container.StringContainer", o.own == old(o.own) || (old(o.own) == 0 && idx(values, o) >= 0), trig(o.own))
  ensures [okey] all(o, "*container.StringContainer", o.okey == old(o.okey) || (old(o.own) == 0 && idx(values, o) >= 0), trig(o.okey))

func container.(*simpleStringMap).Get(m, keys) (r)
  props C03
  inv container.StringContainer, container.simpleStringMap
  requires allset(keys)
  hint [read] mapping("*container.StringContainer", "*container.StringContainer", d == ite(has(m.container, s.data), m.container[s.data], nil))
  ensures [length] len(r) == len(keys)
  ensures [values] forall(i, 0, len(keys), r[i] == ite(has(m.container, keys[i].data), m.container[keys[i].data], nil), trig(r[i]))

func container.(*simpleStringMap).StringLen(m, key) (n, err)
  props C03
  inv container.StringContainer, container.simpleStringMap
  requires 0 < key
  ensures [ok] iff(err == nil, has(m.container, key.data))
  ensures [length] n == ite(has(m.container, key.data), len(m.container[key.data].data), 0)

func container.(*simpleStringMap).Append(m, key, str) (n)
  props C03
  inv container.StringContainer, container.simpleStringMap
  requires 0 < key && 0 < str && str.own == 0
  modifies content(m.container), str.own, str.okey
  ghost m.container[key.data].own := m
  ghost m.container[key.data].okey := key.data
  ensures [dom] dom(m.container) == store(old(dom(m.container)), key.data, true)
  ensures [others] all(k, "string", imp(k != key.data, m.container[k] == old(m.container[k])), trig(m.container[k]))
  ensures [value] 0 < m.container[key.data] && m.container[key.data].data == ite(old(has(m.container, key.data)), old(m.container[key.data].data), "") + str.data
  ensures [length] n == len(m.container[key.data].data)
  ensures [where] m.container[key.data] == str || fresh(m.container[key.data])

func container.(*simpleStringMap).Increase(m, key, increment) (n, err)
  props C04
  inv container.StringContainer, container.simpleStringMap
  requires 0 < key
  modifies entryOf(m.container, key.data).data, entryOf(m.container, key.data).bytes, entryOf(m.container, key.data).size, entryOf(m.container, key.data).hash
  modifies as(entryOf(m.container, key.data).intVar, "container.intVariantImpl").val
  let k := key.data
  let e := m.container[key.data]
  ensures [ok] iff(err == nil, has(m.container, k) && isint(old(e.data)) && fits(intval(old(e.data)) + increment))
  ensures [missing] iff(errIs(err, container.ErrKeyNotFound), !has(m.container, k))
  ensures [notint] iff(errIs(err, container.ErrNotAInt), has(m.container, k) && err != nil)
  ensures [value] imp(err == nil, n == intval(old(e.data)) + increment && e.data == itoa(n))
  ensures [error] imp(err != nil && has(m.container, k), e.data == old(e.data))

func container.(*simpleStringMap).Decrease(m, key, decrement) (n, err)
  props C04
  inv container.StringContainer, container.simpleStringMap
  requires 0 < key
  modifies entryOf(m.container, key.data).data, entryOf(m.container, key.data).bytes, entryOf(m.container, key.data).size, entryOf(m.container, key.data).hash
  modifies as(entryOf(m.container, key.data).intVar, "container.intVariantImpl").val
  let k := key.data
  let e := m.container[key.data]
  ensures [ok] iff(err == nil, has(m.container, k) && isint(old(e.data)) && fits(intval(old(e.data)) - decrement))
  ensures [missing] iff(errIs(err, container.ErrKeyNotFound), !has(m.container, k))
  ensures [notint] iff(errIs(err, container.ErrNotAInt), has(m.container, k) && err != nil)
  ensures [value] imp(err == nil, n == intval(old(e.data)) - decrement && e.data == itoa(n))
  ensures [error] imp(err != nil && has(m.container, k), e.data == old(e.data))

define subrange(s, l, r) = s[norm(l, len(s)):ite(norm(r, len(s)) >= len(s), len(s), norm(r, len(s)) + 1)]

func container.(*simpleStringMap).GetRange(m, key, start, end) (r, err)
  props C01, C03
  inv container.StringContainer, container.simpleStringMap
  requires 0 < key
  let s := m.container[key.data].data
  ensures [ok] iff(err == nil, has(m.container, key.data) && validrange(norm(start, len(s)), norm(end, len(s)), len(s)))
  ensures [value] imp(err == nil, 0 < r && fresh(r) && r.data == subrange(s, start, end))

func container.(*simpleStringMap).Len(m) (n)
  props C03
  inv container.StringContainer, container.simpleStringMap
  ensures [count] n == card(dom(m.container))

func container.(*simpleStringMap).Exists(m, keys) (n)
  props C03
  inv container.StringContainer, container.simpleStringMap
  requires allset(keys)
  hint [hits] mv_j == hits(H, dom(m.container), keys, mv_i)
  ensures [count] n == hits(H, dom(m.container), keys, len(keys))
