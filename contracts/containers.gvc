// The collections of one database, by name (C19).

// downer: the object a Go map belongs to (also used for sets, hashes and string maps)
// cown, cname: the database and name a collection was created for
field container.linkedList cown ref
field container.linkedList cname string
field container.hashContainer cown ref
field container.hashContainer cname string
field container.setContainer cown ref
field container.setContainer cname string


class container.containers c
  trig c.global
  trig c.lists
  trig c.hashes
  trig c.sets
  body [global] 0 < c.global && is(c.global, "*container.simpleStringMap")
  body [maps] c.lists != nil && c.lists.downer == c && c.hashes != nil && c.hashes.downer == c && c.sets != nil && c.sets.downer == c
  body [lists] all(k, "string", imp(has(c.lists, k), 0 < c.lists[k] && is(c.lists[k], "*container.linkedList") && as(c.lists[k], "container.linkedList").cown == c && as(c.lists[k], "container.linkedList").cname == k), trig(c.lists[k]))
  body [hashes] all(k, "string", imp(has(c.hashes, k), 0 < c.hashes[k] && is(c.hashes[k], "*container.hashContainer") && as(c.hashes[k], "container.hashContainer").cown == c && as(c.hashes[k], "container.hashContainer").cname == k), trig(c.hashes[k]))
  body [sets] all(k, "string", imp(has(c.sets, k), 0 < c.sets[k] && is(c.sets[k], "*container.setContainer") && as(c.sets[k], "container.setContainer").cown == c && as(c.sets[k], "container.setContainer").cname == k), trig(c.sets[k]))

define theContainers(r) = as(r, "container.containers")

func container.NewContainers() (r)
  props C19
  inv container.containers, container.simpleStringMap
  ghost theContainers(r).lists.downer := theContainers(r)
  ghost theContainers(r).hashes.downer := theContainers(r)
  ghost theContainers(r).sets.downer := theContainers(r)
  ensures [object] r != nil && fresh(r) && is(r, "*container.containers")
  ensures [empty] dom(theContainers(r).lists) == emptyset() && dom(theContainers(r).hashes) == emptyset() && dom(theContainers(r).sets) == emptyset()
  ensures [nostrings] dom(as(theContainers(r).global, "container.simpleStringMap").container) == emptyset()

func container.(*containers).Global(c) (r)
  props C19
  inv container.containers
  ensures [value] r == c.global

func container.(*containers).GetList(c, key) (r)
  props C19
  inv container.containers
  ensures [value] r == ite(has(c.lists, key), c.lists[key], nil)

func container.(*containers).GetHash(c, key) (r)
  props C19
  inv container.containers
  ensures [value] r == ite(has(c.hashes, key), c.hashes[key], nil)

func container.(*containers).GetSet(c, key) (r)
  props C19
  inv container.containers
  ensures [value] r == ite(has(c.sets, key), c.sets[key], nil)

func container.(*containers).GetOrCreateList(c, key) (r)
  props C19
  inv container.containers, container.linkedList, container.linkedList+size, container.listNode
  modifies content(c.lists)
  ghost each(o, "container.linkedList").cname := ite(isold(o), o.cname, key)
  ghost each(o, "container.linkedList").cown := ite(isold(o), o.cown, c)
  ensures [none] imp(key == "", r == nil && dom(c.lists) == old(dom(c.lists)) && vals(c.lists) == old(vals(c.lists)))
  ensures [some] imp(key != "", 0 < r && is(r, "*container.linkedList") && dom(c.lists) == store(old(dom(c.lists)), key, true) && vals(c.lists) == store(old(vals(c.lists)), key, r))
  ensures [kept] imp(key != "" && old(has(c.lists, key)), r == old(c.lists[key]))
  ensures [created] imp(key != "" && !old(has(c.lists, key)), fresh(r) && as(r, "container.linkedList").n == 0)

func container.(*containers).GetOrCreateHash(c, key) (r)
  props C19
  inv container.containers, container.hashContainer, container.StringContainer
  modifies content(c.hashes)
  ghost each(o, "container.hashContainer").cname := ite(isold(o), o.cname, key)
  ghost each(o, "container.hashContainer").cown := ite(isold(o), o.cown, c)
  ensures [none] imp(key == "", r == nil && dom(c.hashes) == old(dom(c.hashes)) && vals(c.hashes) == old(vals(c.hashes)))
  ensures [some] imp(key != "", 0 < r && is(r, "*container.hashContainer") && dom(c.hashes) == store(old(dom(c.hashes)), key, true) && vals(c.hashes) == store(old(vals(c.hashes)), key, r))
  ensures [kept] imp(key != "" && old(has(c.hashes, key)), r == old(c.hashes[key]))
  ensures [created] imp(key != "" && !old(has(c.hashes, key)), fresh(r) && fresh(as(r, "container.hashContainer").container) && dom(as(r, "container.hashContainer").container) == emptyset())

func container.(*containers).GetOrCreateSet(c, key) (r)
  props C19
  inv container.containers, container.setContainer, container.StringContainer
  modifies content(c.sets)
  ghost each(o, "container.setContainer").cname := ite(isold(o), o.cname, key)
  ghost each(o, "container.setContainer").cown := ite(isold(o), o.cown, c)
  ensures [none] imp(key == "", r == nil && dom(c.sets) == old(dom(c.sets)) && vals(c.sets) == old(vals(c.sets)))
  ensures [some] imp(key != "", 0 < r && is(r, "*container.setContainer") && dom(c.sets) == store(old(dom(c.sets)), key, true) && vals(c.sets) == store(old(vals(c.sets)), key, r))
  ensures [kept] imp(key != "" && old(has(c.sets, key)), r == old(c.sets[key]))
  ensures [created] imp(key != "" && !old(has(c.sets, key)), fresh(r) && fresh(as(r, "container.setContainer").container) && dom(as(r, "container.setContainer").container) == emptyset())
