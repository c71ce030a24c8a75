// Index and range resolution (C01).
define norm(i, n) = ite(i < 0, i + n, i)

func util.NewIndex(index) (r)
  props C01
  ensures [content] r != nil && fresh(r) && r.index == index

func util.(*Index).ResolveRaw(i, size) (r)
  props C01
  pure
  requires 0 <= size
  ensures [norm] r == norm(i.index, size)

func util.(*Index).Resolve(i, size) (r)
  props C01
  pure
  requires 0 <= size
  ensures [in] imp(0 <= norm(i.index, size) && norm(i.index, size) < size, r == norm(i.index, size))
  ensures [out] imp(!(0 <= norm(i.index, size) && norm(i.index, size) < size), r == -1)

func util.NewSlice(left, right) (r)
  props C01
  ensures [content] r != nil && fresh(r) && r.left != nil && r.right != nil && fresh(r.left) && fresh(r.right)
     && r.left.index == left && r.right.index == right

func util.(*Slice).ResolveRaw(s, size) (l, r)
  props C01
  pure
  requires 0 <= size && s.left != nil && s.right != nil
  ensures [raw] l == norm(s.left.index, size) && r == norm(s.right.index, size)

define validrange(l, r, n) = 0 <= l && 0 <= r && l < n && l <= r
func util.(*Slice).Resolve(s, size) (l, r)
  props C01
  pure
  requires 0 <= size && s.left != nil && s.right != nil
  ensures [invalid] imp(!validrange(norm(s.left.index, size), norm(s.right.index, size), size), l == -1 && r == -1)
  ensures [valid] imp(validrange(norm(s.left.index, size), norm(s.right.index, size), size),
      l == norm(s.left.index, size) && r == ite(norm(s.right.index, size) >= size, size - 1, norm(s.right.index, size)))
