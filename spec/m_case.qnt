// One case, one state: the generator behind the checks that validate recorded runs.
module m_case {
  import num.* from "./num"
  import vec.* from "./vec"
  import shape.* from "./shape"
  import rig.* from "./rig"
  import wind.* from "./wind"
  import draws.* from "./draws"
  import cases.* from "./cases"
  const GRIDS: List[(int, int)]
  var phase: str
  var cas: Case
  var ok: bool
  action init = {
    nondet raw = CASE_SLOTS.setOfMaps(1.to(DRAWS)).oneOf()
    nondet g = GRIDS.indices().oneOf()
    pure val c = caseOf(raw, GRIDS[g])
    all { phase' = "chosen", cas' = c, ok' = true }
  }
  action step = all { phase == "chosen", phase' = "checked", cas' = cas, ok' = sound(cas.boat) }
}
module small { import m_case(GRIDS=[(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (1, 4), (4, 1)]).* }
// finer grids, for what does not need the whole influence matrix
module medium { import m_case(GRIDS=[(4, 6), (6, 4), (5, 5), (2, 8), (8, 2), (3, 10), (1, 12), (10, 1)]).* }
// as fine as yachts are computed with: some rows of the influence matrix are judged
module large { import m_case(GRIDS=[(10, 15), (15, 10), (12, 12), (6, 25), (20, 6), (3, 45), (2, 60), (40, 2)]).* }
