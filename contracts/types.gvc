// Data maps (C17) and their locking (C18).

guard types.lockedDataMap.container types.lockedDataMap.mutex

class types.simpleDataMap m
  body [container] m.container != nil && m.container.downer == m

field map downer ref

class types.lockedDataMap m
  body [container] m.container != nil && m.container.downer == m

class types.syncDataMap m
  body [size] m.size == card(dom(m.container))

func types.NewSimpleDataMap() (r)
  props C17
  inv types.simpleDataMap
  ghost r.container.downer := r
  ensures [empty] r != nil && fresh(r) && fresh(r.container) && dom(r.container) == emptyset()

func types.(*simpleDataMap).Set(m, key, value)
  props C17
  inv types.simpleDataMap
  modifies content(m.container)
  ensures [present] dom(m.container) == store(old(dom(m.container)), key, true)
  ensures [value] vals(m.container) == store(old(vals(m.container)), key, value)

func types.(*simpleDataMap).Get(m, key) (v, ok)
  props C17
  inv types.simpleDataMap
  ensures [ok] ok == has(m.container, key)
  ensures [value] v == ite(has(m.container, key), m.container[key], nil)

func types.(*simpleDataMap).Has(m, key) (ok)
  props C17
  inv types.simpleDataMap
  ensures [ok] ok == has(m.container, key)

func types.(*simpleDataMap).Remove(m, key)
  props C17
  inv types.simpleDataMap
  modifies content(m.container)
  ensures [absent] dom(m.container) == store(old(dom(m.container)), key, false)
  ensures [others] all(k, string, imp(k != key, m.container[k] == old(m.container[k])))

func types.(*simpleDataMap).Len(m) (n)
  props C17
  inv types.simpleDataMap
  ensures [len] n == card(dom(m.container))

func types.NewLockedDataMap() (r)
  props C17, C18
  inv types.lockedDataMap
  ghost r.container.downer := r
  ensures [empty] r != nil && fresh(r) && dom(r.container) == emptyset()
  ensures [unlocked] {C18} held(r.mutex) == 0

func types.(*lockedDataMap).Set(m, key, value)
  props C17, C18
  inv types.lockedDataMap
  requires held(m.mutex) == 0
  modifies content(m.container)
  ensures [present] {C17} dom(m.container) == store(old(dom(m.container)), key, true)
  ensures [value] {C17} vals(m.container) == store(old(vals(m.container)), key, value)
  ensures [released] {C18} held(m.mutex) == 0

func types.(*lockedDataMap).Get(m, key) (v, ok)
  props C17, C18
  inv types.lockedDataMap
  requires held(m.mutex) == 0
  ensures [ok] {C17} ok == has(m.container, key)
  ensures [value] {C17} v == ite(has(m.container, key), m.container[key], nil)
  ensures [released] {C18} held(m.mutex) == 0

func types.(*lockedDataMap).Has(m, key) (ok)
  props C17, C18
  inv types.lockedDataMap
  requires held(m.mutex) == 0
  ensures [ok] {C17} ok == has(m.container, key)
  ensures [released] {C18} held(m.mutex) == 0

func types.(*lockedDataMap).Remove(m, key)
  props C17, C18
  inv types.lockedDataMap
  requires held(m.mutex) == 0
  modifies content(m.container)
  ensures [absent] {C17} dom(m.container) == store(old(dom(m.container)), key, false)
  ensures [others] {C17} all(k, string, imp(k != key, m.container[k] == old(m.container[k])))
  ensures [released] {C18} held(m.mutex) == 0

func types.(*lockedDataMap).Len(m) (n)
  props C17, C18
  inv types.lockedDataMap
  requires held(m.mutex) == 0
  ensures [len] {C17} n == card(dom(m.container))
  ensures [released] {C18} held(m.mutex) == 0

// The concurrent variant counts names in an int32: fewer than 2^31 names.
func types.NewSyncDataMap() (r)
  props C17
  inv types.syncDataMap
  ensures [empty] r != nil && fresh(r) && all(k, string, !has(r.container, box(k)))

func types.(*syncDataMap).Set(m, key, value)
  props C17
  inv types.syncDataMap
  requires m.size < 2147483647
  modifies content(m.container), m.size
  ensures [present] dom(m.container) == store(old(dom(m.container)), box(key), true)
  ensures [value] vals(m.container) == store(old(vals(m.container)), box(key), value)

func types.(*syncDataMap).Get(m, key) (v, ok)
  props C17
  inv types.syncDataMap
  ensures [ok] ok == has(m.container, box(key))
  ensures [value] v == ite(has(m.container, box(key)), vals(m.container)[box(key)], nil)

func types.(*syncDataMap).Has(m, key) (ok)
  props C17
  inv types.syncDataMap
  ensures [ok] ok == has(m.container, box(key))

func types.(*syncDataMap).Remove(m, key)
  props C17
  inv types.syncDataMap
  modifies content(m.container), m.size
  ensures [absent] dom(m.container) == store(old(dom(m.container)), box(key), false)
  ensures [others] all(k, string, imp(k != key, vals(m.container)[box(k)] == old(vals(m.container)[box(k)])))

func types.(*syncDataMap).Len(m) (n)
  props C17
  inv types.syncDataMap
  ensures [len] n == card(dom(m.container))
