// P22: which solutions are accepted.  A solution grows panel by panel; every mixture of areas and
// flows through the panel for two panels, one defect anywhere for more.
module m_refuse {
  const MOST: int
  type Panel = { area: str, flow: str }
  var panels: List[Panel]
  var causes: Set[str]

  pure val AREAS = Set("fine", "at the limit", "just below", "zero", "negative", "not a number", "infinite")
  pure val FLOWS = Set("none", "at the limit", "at minus the limit", "just over", "just under minus", "big", "infinite", "minus infinite", "not a number")
  pure def badArea(a: str): bool = Set("just below", "zero", "negative", "not a number").contains(a)
  pure def badFlow(f: str): bool = Set("just over", "just under minus", "big", "infinite", "minus infinite", "not a number").contains(f)
  pure def causesOf(p: Panel): Set[str] = (if (badArea(p.area)) Set("area") else Set()).union(if (badFlow(p.flow)) Set("flow") else Set())
  pure def plain(p: Panel): bool = p.area == "fine" and p.flow == "none"
  def odd(l: List[Panel]): int = l.indices().filter(k => not(plain(l[k]))).size()

  action init = all { panels' = [], causes' = Set() }
  action step = {
    nondet a = AREAS.oneOf()
    nondet f = FLOWS.oneOf()
    val p = { area: a, flow: f }
    val l = panels.append(p)
    all { length(l) <= MOST, length(l) <= 2 or odd(l) <= 1, panels' = l, causes' = causes.union(causesOf(p)) } }
  // once refused, always refused: no other panel can make up for one
  val monotone = panels.indices().forall(k => causesOf(panels[k]).subseteq(causes))
  val justified = causes.forall(c => panels.indices().exists(k => causesOf(panels[k]).contains(c)))
  val inv = monotone and justified
}
module refuse5 { import m_refuse(MOST=5).* }
