// Lexical comparison (C02).
define minlen(a, b) = ite(len(a) < len(b), len(a), len(b))
define cmpmag(a, b) = ite(sdiff(a, b) < minlen(a, b), sdiff(a, b) + 1, ite(minlen(a, b) == 0, 1, minlen(a, b)))

func util.LexicalCompare(lhs, rhs) (r)
  props C02
  pure
  hint [common prefix] forall(j, 0, mv_i, lhs[j] == rhs[j])
  ensures [equal] (r == 0) == (lhs == rhs)
  ensures [less] imp(lhs != rhs && strlt(lhs, rhs), r == -cmpmag(lhs, rhs))
  ensures [greater] imp(lhs != rhs && !strlt(lhs, rhs), r == cmpmag(lhs, rhs))
  ensures [total] imp(lhs != rhs, strlt(lhs, rhs) == !strlt(rhs, lhs))

func container.(*StringContainer).CompareTo(s, another) (r)
  props C02
  pure
  requires another != nil
  ensures [equal] (r == 0) == (s.data == another.data)
  ensures [less] imp(s.data != another.data && strlt(s.data, another.data), r == -cmpmag(s.data, another.data))
  ensures [greater] imp(s.data != another.data && !strlt(s.data, another.data), r == cmpmag(s.data, another.data))
