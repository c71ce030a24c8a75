// Hashes (C07).

field container.hashEntry hown ref
// fields: the values by field name
field container.hashContainer fields [string]*container.StringContainer

class container.hashContainer h
  trig h.container
  body [map] h.container != nil && h.container.downer == h
  body [entries] all(k, "string", imp(has(h.container, k), 0 < h.container[k] && h.container[k].hown == h && 0 < h.container[k].key && h.container[k].key.data == k && h.container[k].key.own == -1 && 0 < h.container[k].value && h.container[k].value.own == -1 && h.container[k].value == h.fields[k]), trig(h.container[k]), trig(h.fields[k]))

// delDom: names after deleting the first n keys.
fold delDom(h [ref]string, d [string]bool, ks []*container.StringContainer, n int) [string]bool
  base d
  step store(prev, h[ks[n-1]], false)

// storable: new strings, or strings that are already shared.
define storable(s) = forall(i, 0, len(s), 0 < s[i] && (s[i].own == 0 || s[i].own == -1), trig(s[i]))
define taken(s) = all(o, "*container.StringContainer", o.own == ite(old(o.own) == 0 && idx(s, o) >= 0, -1, old(o.own)), trig(o.own))

func container.NewHashContainer(key) (r)
  props C07
  inv container.hashContainer
  ghost as(r, "container.hashContainer").container.downer := as(r, "container.hashContainer")
  ensures [empty] r != nil && fresh(r) && is(r, "*container.hashContainer") && dom(as(r, "container.hashContainer").container) == emptyset()
  ensures [map] fresh(as(r, "container.hashContainer").container)

func container.(*hashContainer).Set(h, keys, values) (n, err)
  props C07
  inv container.StringContainer, container.hashContainer
  requires storable(keys) && storable(values)
  modifies content(h.container)
  modifies h.fields
  modifies all container.hashEntry.value
  modifies all container.StringContainer.$own
  let d := dom(h.container)
  let v := h.fields
  ghostpre each(o, "container.StringContainer").own := ite(len(keys) == len(values) && o.own == 0 && (idx(values, o) >= 0 || idx(keys, o) >= 0), -1, o.own)
  hint [dom] dom(h.container) == setDom(H, d, keys, mv_i)
  hint [val] all(k, "string", imp(has(h.container, k), 0 < h.container[k] && 0 < h.container[k].key && h.container[k].key.data == k && h.container[k].key.own == -1 && 0 < h.container[k].value && h.container[k].value.own == -1 && h.container[k].value == setVal(H, v, keys, values, mv_i)[k]), trig(h.container[k]))
  hint [mine] all(k, "string", imp(has(h.container, k) && isold(h.container[k]), h.container[k].hown == h), trig(h.container[k]))
  hint [others] all(o, "*container.hashEntry", imp(isold(o) && o.hown != h, o.value == entry(o.value)), trig(o.value))
  ghost each(o, "container.hashEntry").hown := ite(isold(o), o.hown, h)
  ghost h.fields := ite(err == nil, setVal(H, v, keys, values, len(keys)), v)
  ensures [err] iff(err == nil, len(keys) == len(values))
  ensures [dom] dom(h.container) == ite(err == nil, setDom(H, d, keys, len(keys)), d)
  ensures [val] h.fields == ite(err == nil, setVal(H, v, keys, values, len(keys)), v)
  ensures [count] n == card(dom(h.container)) - card(d)
  ensures [own] all(o, "*container.StringContainer", o.own == old(o.own) || (old(o.own) == 0 && o.own == -1 && (idx(values, o) >= 0 || idx(keys, o) >= 0)), trig(o.own))

func container.(*hashContainer).Get(h, keys) (r)
  props C07
  inv container.StringContainer, container.hashContainer
  requires allset(keys)
  hint [read] mapping("*container.StringContainer", "*container.StringContainer", d == ite(has(h.container, s.data), h.fields[s.data], nil))
  ensures [length] len(r) == len(keys)
  ensures [values] forall(i, 0, len(keys), r[i] == ite(has(h.container, keys[i].data), h.fields[keys[i].data], nil), trig(r[i]))

func container.(*hashContainer).Exists(h, key) (r)
  props C07
  inv container.StringContainer, container.hashContainer
  requires 0 < key
  ensures [present] r == has(h.container, key.data)

func container.(*hashContainer).Del(h, keys) (n)
  props C07
  inv container.StringContainer, container.hashContainer
  requires allset(keys)
  modifies content(h.container)
  let d := dom(h.container)
  hint [dom] dom(h.container) == delDom(H, d, keys, mv_i)
  hint [count] mv_j == card(d) - card(dom(h.container))
  hint [same] all(k, "string", imp(has(h.container, k), h.container[k] == old(h.container[k])), trig(h.container[k]))
  ensures [dom] dom(h.container) == delDom(H, d, keys, len(keys))
  ensures [count] n == card(d) - card(dom(h.container))

func container.(*hashContainer).KeyLen(h, key) (n, err)
  props C07
  inv container.StringContainer, container.hashContainer
  requires 0 < key
  ensures [ok] iff(err == nil, has(h.container, key.data))
  ensures [length] n == ite(has(h.container, key.data), len(h.fields[key.data].data), 0)

func container.(*hashContainer).Len(h) (n)
  props C07
  ensures [count] n == card(dom(h.container))

// mem.key: the field each value of a listing belongs to
field mem key [int]string
define fkey(m) = ghost("mem.key", m)
// listing: every name exactly once.
define listing(r, d) = len(r) == card(d) && forall(i, 0, len(r), 0 < r[i] && r[i].own == -1 && d[r[i].data], trig(r[i])) && forall(i, 0, len(r), forall(j, 0, len(r), imp(i != j, r[i].data != r[j].data), trig(r[j])), trig(r[i])) && all(k, "string", imp(d[k], find(H, r, len(r), k) >= 0), trig(d[k]), trig(find(H, r, len(r), k)))
define vlisting(r, d, v) = len(r) == card(d) && forall(i, 0, len(r), 0 < r[i] && r[i].own == -1 && d[fkey(r)[i]] && r[i] == v[fkey(r)[i]], trig(r[i])) && forall(i, 0, len(r), forall(j, 0, len(r), imp(i != j, fkey(r)[i] != fkey(r)[j]), trig(fkey(r)[j])), trig(fkey(r)[i]))

func container.(*hashContainer).Keys(h) (r)
  props C07
  inv container.StringContainer, container.hashContainer
  hint [listed] keyed("*container.StringContainer", "string", "*container.hashEntry", 0 < d && d.own == -1 && d.data == k && has(h.container, k))
  ensures [listing] listing(r, dom(h.container))

func container.(*hashContainer).Values(h) (r)
  props C07
  inv container.StringContainer, container.hashContainer
  hint [listed] keyed("*container.StringContainer", "string", "*container.hashEntry", 0 < d && d.own == -1 && d == h.fields[k] && has(h.container, k))
  ghost ghost("mem.key", r)[i] := lastkey(i)
  ensures [listing] vlisting(r, dom(h.container), h.fields)

func container.(*hashContainer).Entries(h) (ks, vs)
  props C07
  inv container.StringContainer, container.hashContainer
  hint [listed] keyed("*container.StringContainer", "string", "*container.hashEntry", 0 < d && d.own == -1 && (d.data == k || d == h.fields[k]) && has(h.container, k))
  hint [keys] keyed("*container.StringContainer", "string", "*container.hashEntry", d.data == k)
  hint [values] keyed("*container.StringContainer", "string", "*container.hashEntry", d == h.fields[k])
  ensures [keys] listing(ks, dom(h.container))
  ensures [values] len(vs) == len(ks) && forall(i, 0, len(ks), 0 < vs[i] && vs[i].own == -1 && vs[i] == h.fields[ks[i].data], trig(vs[i]), trig(ks[i]))
