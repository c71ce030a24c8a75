// Lists (C05, C06).

// A list is its node sequence: node[0] and node[n+1] are the sentinels,
// node[1..n] hold the elements val[1..n].
field container.linkedList n int
field container.linkedList node [int]*container.listNode
field container.linkedList val [int]*container.StringContainer
field container.listNode lst *container.linkedList
field container.listNode pos int

class container.linkedList l
  trig l.head
  trig l.tail
  trig l.node
  body [length] 0 <= l.n
  assumed [memory] l.n <= 140737488355328
  body [ends] 0 < l.head && 0 < l.tail && l.head == l.node[0] && l.tail == l.node[l.n+1]
  body [nodes] forall(i, 0, l.n+2, allocated(l.node[i]) && is(l.node[i], "*container.listNode") && l.node[i].lst == l && l.node[i].pos == i, trig(l.node[i]))
  body [values] forall(i, 1, l.n+1, l.node[i].data == l.val[i] && 0 < l.val[i] && l.val[i].own == -1, trig(l.val[i]), trig(l.node[i]))

class container.linkedList+size l
  trig l.size
  body [size] l.size == l.n && 0 <= l.size

class container.listNode x
  trig x.next
  trig x.prev
  body [member] x.lst == nil || (allocated(x.lst) && is(x.lst, "*container.linkedList") && 0 <= x.pos && x.pos <= x.lst.n + 1 && x.lst.node[x.pos] == x)
  body [next] imp(x.lst != nil && x.pos <= x.lst.n, x.next == x.lst.node[x.pos+1])
  body [prev] imp(x.lst != nil && x.pos >= 1, x.prev == x.lst.node[x.pos-1])

define inlist(x) = 0 < x && x.lst != nil && 1 <= x.pos && x.pos <= x.lst.n

func container.insertAfter(n, data) (err)
  props C05, C06
  inv container.linkedList, container.listNode
  requires 0 < n && n.lst != nil && n.pos <= n.lst.n
  requires 0 < data && data.own == -1
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos
  modifies n.lst.n, n.lst.node, n.lst.val
  let L := n.lst
  let p := n.pos
  ghost n.next.lst := L
  ghost L.node[i] := ite(i <= p, old(L.node[i]), ite(i == p + 1, n.next, old(L.node[i-1])))
  ghost L.val[i] := ite(i <= p, old(L.val[i]), ite(i == p + 1, data, old(L.val[i-1])))
  ghost L.n := old(L.n) + 1
  ghost each(o, "container.listNode").pos := ite(!isold(o), p + 1, ite(old(o.lst) == L && old(o.pos) > p, old(o.pos) + 1, old(o.pos)))
  ensures [ok] err == nil
  ensures [length] L.n == old(L.n) + 1
  ensures [values] forall(i, 1, L.n + 1, L.val[i] == ite(i <= p, old(L.val[i]), ite(i == p + 1, data, old(L.val[i-1]))), trig(L.val[i]))

func container.insertBefore(n, data) (err)
  props C05, C06
  inv container.linkedList, container.listNode
  requires 0 < n && n.lst != nil && n.pos >= 1
  requires 0 < data && data.own == -1
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos
  modifies n.lst.n, n.lst.node, n.lst.val
  let L := n.lst
  let p := n.pos - 1
  ghost n.prev.lst := L
  ghost L.node[i] := ite(i <= p, old(L.node[i]), ite(i == p + 1, n.prev, old(L.node[i-1])))
  ghost L.val[i] := ite(i <= p, old(L.val[i]), ite(i == p + 1, data, old(L.val[i-1])))
  ghost L.n := old(L.n) + 1
  ghost each(o, "container.listNode").pos := ite(!isold(o), p + 1, ite(old(o.lst) == L && old(o.pos) > p, old(o.pos) + 1, old(o.pos)))
  ensures [ok] err == nil
  ensures [length] L.n == old(L.n) + 1
  ensures [values] forall(i, 1, L.n + 1, L.val[i] == ite(i <= p, old(L.val[i]), ite(i == p + 1, data, old(L.val[i-1]))), trig(L.val[i]))

func container.deleteNode(n) (r, err)
  props C05, C06
  inv container.linkedList, container.listNode
  requires inlist(n)
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos
  modifies n.lst, n.lst.n, n.lst.node, n.lst.val
  let L := n.lst
  let p := n.pos
  ghost L.node[i] := ite(i < p, old(L.node[i]), old(L.node[i+1]))
  ghost L.val[i] := ite(i < p, old(L.val[i]), old(L.val[i+1]))
  ghost L.n := old(L.n) - 1
  ghost each(o, "container.listNode").pos := ite(old(o.lst) == L && old(o.pos) > p, old(o.pos) - 1, old(o.pos))
  ghost n.lst := nil
  ensures [ok] err == nil && r == old(L.val[p])
  ensures [length] L.n == old(L.n) - 1
  ensures [values] forall(i, 1, L.n + 1, L.val[i] == ite(i < p, old(L.val[i]), old(L.val[i+1])), trig(L.val[i]))
  ensures [nodes] forall(i, 0, p, L.node[i] == old(L.node[i]), trig(L.node[i]), trig(old(L.node[i])))
  ensures [moved] forall(i, p + 1, L.n + 3, L.node[i-1] == old(L.node[i]), trig(old(L.node[i])))


func container.NewLinkedListContainer(key) (r)
  props C05
  inv container.linkedList, container.linkedList+size, container.listNode
  ghost as(r, "container.linkedList").node[i] := ite(i == 0, as(r, "container.linkedList").head, as(r, "container.linkedList").tail)
  ghost as(r, "container.linkedList").n := 0
  ghost as(r, "container.linkedList").head.lst := as(r, "container.linkedList")
  ghost as(r, "container.linkedList").tail.lst := as(r, "container.linkedList")
  ghost as(r, "container.linkedList").head.pos := 0
  ghost as(r, "container.linkedList").tail.pos := 1
  ensures [empty] r != nil && fresh(r) && is(r, "*container.linkedList") && as(r, "container.linkedList").n == 0

func container.(*linkedList).Len(l) (n)
  props C05
  inv container.linkedList+size
  ensures [length] n == l.n

func container.(*linkedList).PushHead(l, data) (n, err)
  props C05
  inv container.linkedList, container.linkedList+size, container.listNode
  requires storable(data)
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos
  modifies l.n, l.node, l.val, l.size
  modifies all container.StringContainer.$own
  let n0 := l.n
  ghostpre each(o, "container.StringContainer").own := ite(o.own == 0 && idx(data, o) >= 0, -1, o.own)
  hint [length] l.n == n0 + mv_i
  hint [size] l.size == l.n
  hint [values] forall(i, 1, l.n + 1, l.val[i] == ite(i <= mv_i, data[mv_i-i], old(l.val[i-mv_i])), trig(l.val[i]))
  ensures [ok] err == nil && n == l.n
  ensures [length] l.n == n0 + len(data)
  ensures [values] forall(i, 1, l.n + 1, l.val[i] == ite(i <= len(data), data[len(data)-i], old(l.val[i-len(data)])), trig(l.val[i]))
  ensures [own] all(o, "*container.StringContainer", o.own == old(o.own) || (old(o.own) == 0 && o.own == -1 && idx(data, o) >= 0), trig(o.own))

func container.(*linkedList).PushTail(l, data) (n, err)
  props C05
  inv container.linkedList, container.linkedList+size, container.listNode
  requires storable(data)
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos
  modifies l.n, l.node, l.val, l.size
  modifies all container.StringContainer.$own
  let n0 := l.n
  ghostpre each(o, "container.StringContainer").own := ite(o.own == 0 && idx(data, o) >= 0, -1, o.own)
  hint [length] l.n == n0 + mv_i
  hint [size] l.size == l.n
  hint [values] forall(i, 1, l.n + 1, l.val[i] == ite(i <= n0, old(l.val[i]), data[i-n0-1]), trig(l.val[i]))
  ensures [ok] err == nil && n == l.n
  ensures [length] l.n == n0 + len(data)
  ensures [values] forall(i, 1, l.n + 1, l.val[i] == ite(i <= n0, old(l.val[i]), data[i-n0-1]), trig(l.val[i]))
  ensures [own] all(o, "*container.StringContainer", o.own == old(o.own) || (old(o.own) == 0 && o.own == -1 && idx(data, o) >= 0), trig(o.own))

func container.(*linkedList).PopHead(l) (r, err)
  props C05
  inv container.linkedList, container.linkedList+size, container.listNode
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos, all container.listNode.$lst
  modifies l.n, l.node, l.val, l.size
  ensures [empty] iff(err == nil, old(l.n) > 0) && imp(err != nil, err == container.ErrEmptyList && l.n == 0)
  ensures [value] imp(err == nil, r == old(l.val[1]) && 0 < r && r.own == -1)
  ensures [length] imp(err == nil, l.n == old(l.n) - 1)
  ensures [values] imp(err == nil, forall(i, 1, l.n + 1, l.val[i] == old(l.val[i+1]), trig(l.val[i])))

func container.(*linkedList).PopTail(l) (r, err)
  props C05
  inv container.linkedList, container.linkedList+size, container.listNode
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos, all container.listNode.$lst
  modifies l.n, l.node, l.val, l.size
  ensures [empty] iff(err == nil, old(l.n) > 0) && imp(err != nil, err == container.ErrEmptyList && l.n == 0)
  ensures [value] imp(err == nil, r == old(l.val[l.n]) && 0 < r && r.own == -1)
  ensures [length] imp(err == nil, l.n == old(l.n) - 1)
  ensures [values] imp(err == nil, forall(i, 1, l.n + 1, l.val[i] == old(l.val[i]), trig(l.val[i])))

func container.(*linkedList).extract(l, index) (x)
  props C01, C05, C06
  inv container.linkedList, container.linkedList+size, container.listNode
  hint [walk] 0 < mv_p && mv_p.lst == l && mv_p.pos == mv_j + 1 && mv_p == l.node[mv_j+1] && is(mv_p, "*container.listNode")
  ensures [none] iff(x == nil, norm(index, l.n) < 0 || norm(index, l.n) >= l.n)
  ensures [node] imp(x != nil, 0 < x && x == l.node[norm(index, l.n)+1] && norm(index, l.n) < l.n)

func container.(*linkedList).Index(l, index) (r, err)
  props C01, C05
  inv container.linkedList, container.linkedList+size, container.listNode
  ensures [ok] iff(err == nil, 0 <= norm(index, l.n) && norm(index, l.n) < l.n)
  ensures [value] imp(err == nil, 0 < r && r == l.val[norm(index, l.n)+1] && r.own == -1)
  ensures [error] imp(err != nil, err == container.ErrOutOfRange)

func container.(*linkedList).Set(l, index, data) (err)
  props C01, C06
  inv container.linkedList, container.linkedList+size, container.listNode
  requires 0 < data && (data.own == 0 || data.own == -1)
  modifies all container.listNode.data
  modifies l.val, data.own
  let k := norm(index, l.n)
  ghostpre data.own := -1
  ghost l.val[i] := ite(err == nil && i == k + 1, data, old(l.val[i]))
  ensures [ok] iff(err == nil, 0 <= k && k < l.n)
  ensures [error] imp(err != nil, err == container.ErrOutOfRange)
  ensures [values] forall(i, 1, l.n + 1, l.val[i] == ite(err == nil && i == k + 1, data, old(l.val[i])), trig(l.val[i]))

// firstAt: the first of positions 1..n whose value is k, 0 when there is none.
fold firstAt(h [ref]string, v [int]*container.StringContainer, k string, n int) int
  base 0
  step ite(prev > 0, prev, ite(h[v[n]] == k, n, 0))

lemma firstStays(h [ref]string, v [int]*container.StringContainer, k string, m int, n int)
  props C06
  induct n
  requires 0 <= m && m <= n && firstAt(h, v, k, m) > 0
  ensures [same] firstAt(h, v, k, n) == firstAt(h, v, k, m)
  pat firstAt(h, v, k, m), firstAt(h, v, k, n)

lemma firstRange(h [ref]string, v [int]*container.StringContainer, k string, n int)
  props C06
  induct n
  requires 0 <= n
  ensures [range] 0 <= firstAt(h, v, k, n) && firstAt(h, v, k, n) <= n
  pat firstAt(h, v, k, n)

func container.(*linkedList).Insert(l, pivot, data, after) (n, err)
  props C06
  inv container.StringContainer, container.linkedList, container.linkedList+size, container.listNode
  use firstStays, firstRange
  requires 0 < pivot && 0 < data && (data.own == 0 || data.own == -1)
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos
  modifies l.n, l.node, l.val, l.size, data.own
  let q := firstAt(H, l.val, pivot.data, l.n)
  let n0 := l.n
  let v0 := l.val
  let k := pivot.data
  ghostpre data.own := -1
  hint [scan] 0 < mv_p && mv_p.lst == l && 1 <= mv_p.pos && mv_p.pos <= n0 + 1 && is(mv_p, "*container.listNode") && mv_p == l.node[mv_p.pos] && firstAt(H, l.val, k, mv_p.pos - 1) == 0
  hint [same] l.n == n0 && l.val == v0
  ensures [found] iff(err == nil, q > 0)
  ensures [missing] imp(err != nil, err == container.ErrNoSuchPivot && n == -1 && l.n == n0)
  ensures [length] imp(err == nil, l.n == n0 + 1 && n == l.n)
  ensures [values] forall(i, 1, l.n + 1, l.val[i] == ite(q == 0, v0[i], ite(after, ite(i <= q, v0[i], ite(i == q+1, data, v0[i-1])), ite(i < q, v0[i], ite(i == q, data, v0[i-1])))), trig(l.val[i]))

define segleft(a, b, n) = norm(a, n)
define segright(a, b, n) = ite(norm(b, n) >= n, n - 1, norm(b, n))
define valid(a, b, n) = validrange(norm(a, n), norm(b, n), n)

func container.(*linkedList).extractSegment(l, left, right) (x, y)
  props C01, C05, C06
  inv container.linkedList, container.linkedList+size, container.listNode
  let a := segleft(left, right, l.n)
  let b := segright(left, right, l.n)
  hint [walk] 0 < mv_p && mv_p == l.node[mv_j+1] && is(mv_p, "*container.listNode")
  hint [left] mv_p == ite(mv_j > a, l.node[a+1], nil)
  hint [right] mv_p == ite(mv_j > b, l.node[b+1], nil)
  ensures [none] imp(!valid(left, right, l.n), x == nil && y == nil)
  ensures [nodes] imp(valid(left, right, l.n), x == l.node[a+1] && y == l.node[b+1])

func container.(*linkedList).Range(l, left, right) (r, err)
  props C01, C05
  inv container.linkedList, container.linkedList+size, container.listNode
  let a := segleft(left, right, l.n)
  let b := segright(left, right, l.n)
  hint [walk] 0 < mv_p && mv_p == l.node[a+1+len(mv_l)] && a + len(mv_l) <= b && is(mv_p, "*container.listNode")
  hint [own] mv_l == nil || (own(mv_l) == 0 && !isold(mv_l))
  hint [items] forall(i, 0, len(mv_l), mv_l[i] == l.val[a+1+i], trig(mv_l[i]))
  ensures [ok] iff(err == nil, valid(left, right, l.n))
  ensures [none] imp(err != nil, err == container.ErrOutOfRange && len(r) == 0)
  ensures [length] imp(err == nil, len(r) == b - a + 1)
  ensures [items] imp(err == nil, forall(i, 0, len(r), r[i] == l.val[a+1+i] && 0 < r[i], trig(r[i])))
  ensures [fresh] r == nil || own(r) == 0

field container.listNode stop int

define released(x) = x.lst != nil && allocated(x.lst) && is(x.lst, "*container.linkedList") && 1 <= x.pos && x.pos <= x.stop && x.stop <= x.lst.n && x.lst.node[x.pos] == x
   && forall(i, x.pos, x.stop, x.lst.node[i].next == x.lst.node[i+1] && x.lst.node[i].stop == x.stop, trig(x.lst.node[i]))
   && x.lst.node[x.stop].next == nil && x.lst.node[x.stop].stop == x.stop

func container.releaseList(n) (r)
  props C06
  inv container.linkedList
  requires n == nil || (0 < n && released(n))
  modifies all container.listNode.next, all container.listNode.prev
  decreases ite(n == nil, 0, n.stop - n.pos + 1)
  ensures [count] r == ite(n == nil, 0, n.stop - n.pos + 1)
  ensures [kept] all(o, "*container.listNode", imp(n == nil || o.lst != n.lst || o.pos < n.pos || o.pos > n.stop, o.next == old(o.next) && o.prev == old(o.prev)), trig(o.next), trig(o.prev))

func container.(*linkedList).Trim(l, left, right) (err)
  props C01, C06
  inv container.linkedList, container.linkedList+size, container.listNode
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos, all container.listNode.$lst, all container.listNode.$stop
  modifies l.n, l.node, l.val, l.size
  let a := segleft(left, right, l.n)
  let b := segright(left, right, l.n)
  ghostpre each(o, "container.listNode").stop := ite(o.lst == l, ite(o.pos <= a, a, l.n), o.stop)
  ghost l.node[i] := ite(err != nil, old(l.node[i]), ite(i == 0, old(l.node[0]), ite(i <= b - a + 1, old(l.node[i+a]), old(l.node[l.n+1]))))
  ghost l.val[i] := ite(err != nil, old(l.val[i]), old(l.val[i+a]))
  ghost l.n := ite(err != nil, old(l.n), b - a + 1)
  ghost each(o, "container.listNode").lst := ite(err != nil || old(o.lst) != l || o.pos == 0 || o.pos == old(l.n) + 1 || (a < o.pos && o.pos <= b + 1), old(o.lst), nil)
  ghost each(o, "container.listNode").pos := ite(err != nil || old(o.lst) != l || old(o.pos) == 0, old(o.pos), ite(old(o.pos) == old(l.n) + 1, b - a + 2, old(o.pos) - a))
  ensures [ok] iff(err == nil, old(valid(left, right, l.n)))
  ensures [error] imp(err != nil, err == container.ErrOutOfRange && l.n == old(l.n) && l.val == old(l.val))
  ensures [length] imp(err == nil, l.n == b - a + 1)
  ensures [values] imp(err == nil, forall(i, 1, l.n + 1, l.val[i] == old(l.val[i+a]), trig(l.val[i])))

// matchN: how many of positions 1..n hold the value k.
fold matchN(h [ref]string, v [int]*container.StringContainer, k string, n int) int
  base 0
  step prev + ite(h[v[n]] == k, 1, 0)

lemma matchUp(h [ref]string, v [int]*container.StringContainer, k string, m int, n int)
  props C06
  induct n
  requires 0 <= m && m <= n
  ensures [up] matchN(h, v, k, m) <= matchN(h, v, k, n) && m - matchN(h, v, k, m) <= n - matchN(h, v, k, n)
  pat matchN(h, v, k, m), matchN(h, v, k, n)

lemma matchPos(h [ref]string, v [int]*container.StringContainer, k string, n int)
  props C06
  induct n
  requires 0 <= n
  ensures [range] 0 <= matchN(h, v, k, n) && matchN(h, v, k, n) <= n && imp(n > 0 && h[v[n]] != k, matchN(h, v, k, n) < n)
  pat matchN(h, v, k, n)

define min(a, b) = ite(a <= b, a, b)
// what removing the first c matches from the head (tail) leaves
define headleft(v, v0, n0, k, c) = forall(i, 1, n0 + 1, imp(!(H[v0[i]] == k && matchN(H, v0, k, i) <= c), ite(matchN(H, v0, k, i) <= c, v[i - matchN(H, v0, k, i)] == v0[i], v[i - c] == v0[i])), trig(v0[i]), trig(matchN(H, v0, k, i)))
define tailleft(v, v0, n0, k, c) = forall(i, 1, n0 + 1, imp(!(H[v0[i]] == k && matchN(H, v0, k, n0) - matchN(H, v0, k, i-1) <= c), ite(matchN(H, v0, k, n0) <= c, v[i - matchN(H, v0, k, i)] == v0[i], ite(matchN(H, v0, k, n0) - matchN(H, v0, k, i) >= c, v[i] == v0[i], v[i - matchN(H, v0, k, i) + matchN(H, v0, k, n0) - c] == v0[i]))), trig(v0[i]), trig(matchN(H, v0, k, i)))

func container.(*linkedList).deleteFromHead(l, count, key) (r)
  props C06
  inv container.StringContainer, container.linkedList, container.listNode
  use matchUp, matchPos
  solver z3-4.8.12
  budget 300
  requires 0 < key && count >= 0 && l.size == l.n
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos, all container.listNode.$lst
  modifies l.n, l.node, l.val
  let n0 := l.n
  let v0 := l.val
  let k := key.data
  let c := ite(count == 0, l.n, count)
  hint [at] 0 < mv_p && mv_p.lst == l && 1 <= mv_p.pos && mv_p.pos <= l.n + 1 && is(mv_p, "*container.listNode") && mv_p == l.node[mv_p.pos] && l.n == n0 - mv_j && mv_j <= c && mv_j == matchN(H, v0, k, mv_p.pos + mv_j - 1)
  hint [rest] forall(i, mv_p.pos, l.n + 1, l.val[i] == v0[i + mv_j], trig(l.val[i]))
  hint [done] {C06} forall(i, 1, mv_p.pos + mv_j, forall(j, 1, mv_p.pos, imp(H[v0[i]] != k && j == i - matchN(H, v0, k, i), l.val[j] == v0[i]), trig(l.val[j])), trig(v0[i]), trig(matchN(H, v0, k, i)))
  hint [doneat] {C06} forall(i, 1, mv_p.pos + mv_j, imp(H[v0[i]] != k, i - matchN(H, v0, k, i) < mv_p.pos), trig(v0[i]), trig(matchN(H, v0, k, i)))
  ensures [count] r == min(c, matchN(H, v0, k, n0))
  ensures [length] l.n == n0 - r
  ensures [values] {C06} headleft(l.val, v0, n0, k, c)

func container.(*linkedList).deleteFromTail(l, count, key) (r)
  props C06
  inv container.StringContainer, container.linkedList, container.listNode
  use matchUp, matchPos
  solver z3-4.8.12
  budget 300
  requires 0 < key && count >= 0
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos, all container.listNode.$lst
  modifies l.n, l.node, l.val
  let n0 := l.n
  let v0 := l.val
  let k := key.data
  let c := count
  hint [at] 0 < mv_p && mv_p.lst == l && 0 <= mv_p.pos && mv_p.pos <= l.n && is(mv_p, "*container.listNode") && mv_p == l.node[mv_p.pos] && l.n == n0 - mv_j && mv_j <= c && mv_j == matchN(H, v0, k, n0) - matchN(H, v0, k, mv_p.pos)
  hint [rest] forall(i, 1, mv_p.pos + 1, l.val[i] == v0[i], trig(l.val[i]))
  hint [done] {C06} forall(i, mv_p.pos + 1, n0 + 1, forall(j, 1, l.n + 1, imp(H[v0[i]] != k && j == i - matchN(H, v0, k, i) + matchN(H, v0, k, mv_p.pos), l.val[j] == v0[i]), trig(l.val[j])), trig(v0[i]), trig(matchN(H, v0, k, i)))
  ensures [count] r == min(c, matchN(H, v0, k, n0))
  ensures [length] l.n == n0 - r
  ensures [values] {C06} tailleft(l.val, v0, n0, k, c)

func container.(*linkedList).Remove(l, count, key) (r)
  props C06
  inv container.StringContainer, container.linkedList, container.linkedList+size, container.listNode
  use matchUp, matchPos
  solver z3-4.8.12
  budget 150
  requires 0 < key
  modifies all container.listNode.next, all container.listNode.prev, all container.listNode.$pos, all container.listNode.$lst
  modifies l.n, l.node, l.val, l.size
  let n0 := l.n
  let v0 := l.val
  let k := key.data
  let c := ite(count == 0, l.n, ite(count < 0, 0 - count, count))
  ensures [count] r == min(c, matchN(H, v0, k, n0))
  ensures [length] l.n == n0 - r
  ensures [head] imp(count >= 0, headleft(l.val, v0, n0, k, c))
  ensures [tail] imp(count < 0, tailleft(l.val, v0, n0, k, c))
