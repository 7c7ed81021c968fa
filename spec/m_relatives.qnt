// One behaviour: all families one after the other, of each a base and its relatives, all of them sound.
module m_relatives {
  import num.* from "./num"
  import rig.* from "./rig"
  import draws.* from "./draws"
  import cases.* from "./cases"
  import relatives.* from "./relatives"
  const GRIDS: List[(int, int)]
  // part of itself by which a setting differs: a rounding would hide the first
  pure val PARTS: List[int] = [S / 10^9, S / 10^9, S / 10^6, S * 3 / 100]
  type Relative = { what: str, cas: Case }
  var at: int                   // the family
  var tries: int
  var family: List[Relative]    // empty: the base was not sound
  def familyOf(raw: Raw, g: (int, int), k: int): List[Relative] = {
    pure val f = FAMILIES[k]
    pure val base = prepared(caseOf(raw, g), f)
    pure val d = PARTS[choose(raw, 147, 4)]
    pure val all_ = f.settings.foldl([{ what: "", cas: base }], (l, w) => l.append({ what: w, cas: related(base, w, d) }))
    if (all_.foldl(true, (q, x) => q and sound(x.cas.boat))) all_ else List() }
  action begin(k: int, t: int): bool = {
    nondet raw = CASE_SLOTS.setOfMaps(1.to(DRAWS)).oneOf()
    nondet g = GRIDS.indices().oneOf()
    all { at' = k, tries' = t, family' = familyOf(raw, GRIDS[g], k) } }
  action init = begin(0, 0)
  action step = any {
    all { length(family) == 0, begin(at, tries + 1) },
    all { length(family) > 0, at < length(FAMILIES) - 1, begin(at + 1, tries) } }
  // a relative is another case
  val inv = range(0, length(family)).foldl(true, (q, i) => q and (i == 0 or family[i].what == "interpolation" or family[i].what == "jib girths" or family[i].what == "main girths" or family[i].cas != family[0].cas))
}
module relatives_small { import m_relatives(GRIDS=[(1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (5, 6)]).* }
