// Sets (C08, C09).

class container.setContainer c
  trig c.container
  body [map] c.container != nil && c.container.downer == c
  body [members] all(k, "string", imp(has(c.container, k), 0 < c.container[k] && c.container[k].data == k && c.container[k].own == -1), trig(c.container[k]))

define sdom(c) = dom(as(c, "container.setContainer").container)

lemma setDomAt(h [ref]string, d [string]bool, ks []*container.StringContainer, n int, k string)
  props C07, C08, C09
  induct n
  ensures [member] setDom(h, d, ks, n)[k] == (d[k] || find(h, ks, n, k) >= 0)
  pat setDom(h, d, ks, n)[k]

lemma delDomAt(h [ref]string, d [string]bool, ks []*container.StringContainer, n int, k string)
  props C07, C08, C09
  induct n
  ensures [member] delDom(h, d, ks, n)[k] == (d[k] && find(h, ks, n, k) < 0)
  pat delDom(h, d, ks, n)[k]

lemma delCard(h [ref]string, d [string]bool, ks []*container.StringContainer, n int)
  props C08
  induct n
  use delDomAt
  requires 0 <= n
  requires forall(i, 0, n, d[h[ks[i]]], trig(ks[i]))
  requires forall(i, 0, n, forall(j, 0, n, imp(i != j, h[ks[i]] != h[ks[j]]), trig(ks[j])), trig(ks[i]))
  ensures [count] card(delDom(h, d, ks, n)) == card(d) - n
  pat card(delDom(h, d, ks, n))

func container.NewSetContainer(key) (r)
  props C08
  inv container.setContainer
  ghost as(r, "container.setContainer").container.downer := as(r, "container.setContainer")
  ensures [empty] r != nil && fresh(r) && is(r, "*container.setContainer") && sdom(r) == emptyset()
  ensures [map] fresh(as(r, "container.setContainer").container)

func container.(*setContainer).Add(sc, s) (n)
  props C08
  inv container.StringContainer, container.setContainer
  requires storable(s)
  modifies content(sc.container)
  modifies all container.StringContainer.$own
  let d := dom(sc.container)
  ghostpre each(o, "container.StringContainer").own := ite(o.own == 0 && idx(s, o) >= 0, -1, o.own)
  hint [dom] dom(sc.container) == setDom(H, d, s, mv_i)
  hint [count] mv_j == card(dom(sc.container)) - card(d)
  hint [val] all(k, "string", imp(has(sc.container, k), 0 < sc.container[k] && sc.container[k].data == k && sc.container[k].own == -1), trig(sc.container[k]))
  ensures [dom] dom(sc.container) == setDom(H, d, s, len(s))
  ensures [count] n == card(dom(sc.container)) - card(d)
  ensures [own] all(o, "*container.StringContainer", o.own == old(o.own) || (old(o.own) == 0 && o.own == -1 && idx(s, o) >= 0), trig(o.own))

func container.(*setContainer).Delete(sc, s) (n)
  props C08
  inv container.StringContainer, container.setContainer
  requires allset(s)
  modifies content(sc.container)
  let d := dom(sc.container)
  hint [dom] dom(sc.container) == delDom(H, d, s, mv_i)
  hint [count] mv_j == card(d) - card(dom(sc.container))
  hint [same] all(k, "string", imp(has(sc.container, k), sc.container[k] == old(sc.container[k])), trig(sc.container[k]))
  ensures [dom] dom(sc.container) == delDom(H, d, s, len(s))
  ensures [count] n == card(d) - card(dom(sc.container))
  ensures [same] all(k, "string", imp(has(sc.container, k), sc.container[k] == old(sc.container[k])), trig(sc.container[k]))

func container.(*setContainer).IsMember(sc, s) (r)
  props C08
  inv container.StringContainer, container.setContainer
  requires 0 < s
  ensures [member] r == has(sc.container, s.data)

func container.(*setContainer).Members(sc) (r)
  props C08
  inv container.StringContainer, container.setContainer
  hint [listed] keyed("*container.StringContainer", "string", "*container.StringContainer", 0 < d && d.own == -1 && d.data == k && has(sc.container, k))
  ensures [listing] listing(r, dom(sc.container))

func container.(*setContainer).Len(sc) (n)
  props C08
  ensures [count] n == card(dom(sc.container))

define picked(r, d) = forall(i, 0, len(r), 0 < r[i] && r[i].own == -1 && d[r[i].data], trig(r[i])) && forall(i, 0, len(r), forall(j, 0, len(r), imp(i != j, r[i].data != r[j].data), trig(r[j])), trig(r[i]))
define absint(n) = ite(n < 0, 0 - n, n)
define minof(a, b) = ite(a < b, a, b)

func container.(*setContainer).RandomMember(sc, count) (r)
  props C08
  inv container.StringContainer, container.setContainer
  let c0 := count
  hint [left] ite(len(mv_l) == 0 && c0 == minint, mv_j == minint, mv_j + len(mv_l) == absint(c0))
  hint [listed] keyed("*container.StringContainer", "string", "*container.StringContainer", 0 < d && d.own == -1 && d.data == k && has(sc.container, k))
  ensures [count] len(r) == minof(absint(count), card(dom(sc.container)))
  ensures [picked] picked(r, dom(sc.container))

func container.(*setContainer).Pop(sc, count) (r)
  props C08
  inv container.StringContainer, container.setContainer
  modifies content(sc.container)
  use delCard
  ensures [count] len(r) == minof(absint(count), card(old(dom(sc.container))))
  ensures [picked] picked(r, old(dom(sc.container)))
  ensures [removed] dom(sc.container) == delDom(H, old(dom(sc.container)), r, len(r))
  ensures [left] card(dom(sc.container)) == card(old(dom(sc.container))) - len(r)

// inset(cs, n, k): k is a member of one of the first n sets
define iset(c, k) = has(as(c, "container.setContainer").container, k)
define allsets(cs) = forall(i, 0, len(cs), allocated(cs[i]) && is(cs[i], "*container.setContainer"), trig(cs[i]))

func container.(*setContainer).Diff(sc, cs) (r)
  props C09
  inv container.StringContainer, container.setContainer
  use setDomAt, delDomAt
  budget 300
  requires allsets(cs)
  hint [diff] {C09} all(k, "string", iset(mv_o, k) == (has(sc.container, k) && forall(j, 0, mv_i, !iset(cs[j], k), trig(cs[j]))), trig(iset(mv_o, k)))
  hint [filter] {C09} all(k, "string", (find(H, mv_l, len(mv_l), k) >= 0) == (iset(mv_o, k) && find(H, mv_m, mv_i, k) >= 0), trig(find(H, mv_l, len(mv_l), k)), trig(iset(mv_o, k)))
  hint [items] each("*container.StringContainer", 0 < d && d.own == -1)
  ensures [set] r != nil && fresh(r) && is(r, "*container.setContainer")
  ensures [diff] {C09} all(k, "string", iset(r, k) == (has(sc.container, k) && forall(j, 0, len(cs), !iset(cs[j], k), trig(cs[j]))), trig(iset(r, k)))

func container.(*setContainer).Intersect(sc, cs) (r)
  props C09
  inv container.StringContainer, container.setContainer
  use setDomAt, delDomAt
  budget 300
  requires allsets(cs)
  hint [common] {C09} all(k, "string", iset(mv_o, k) == (has(sc.container, k) && forall(j, 0, mv_i, iset(cs[j], k), trig(cs[j]))), trig(iset(mv_o, k)))
  hint [filter] {C09} all(k, "string", (find(H, mv_l, len(mv_l), k) >= 0) == (iset(mv_o, k) && find(H, mv_m, mv_i, k) >= 0), trig(find(H, mv_l, len(mv_l), k)), trig(iset(mv_o, k)))
  hint [items] each("*container.StringContainer", 0 < d && d.own == -1)
  ensures [set] r != nil && fresh(r) && is(r, "*container.setContainer")
  ensures [common] {C09} all(k, "string", iset(r, k) == (has(sc.container, k) && forall(j, 0, len(cs), iset(cs[j], k), trig(cs[j]))), trig(iset(r, k)))

func container.(*setContainer).Union(sc, cs) (r)
  props C09
  inv container.StringContainer, container.setContainer
  use setDomAt, delDomAt
  budget 300
  requires allsets(cs)
  hint [any] {C09} all(k, "string", !iset(mv_o, k) == forall(j, 0, mv_i, !iset(cs[j], k), trig(cs[j])), trig(iset(mv_o, k)))
  ensures [set] r != nil && fresh(r) && is(r, "*container.setContainer")
  ensures [any] {C09} all(k, "string", !iset(r, k) == (!has(sc.container, k) && forall(j, 0, len(cs), !iset(cs[j], k), trig(cs[j]))), trig(iset(r, k)))
