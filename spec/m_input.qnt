// P15: which input is accepted.  Starting from complete input, up to MOST things are left out or
// given another length, in any combination; whatever the declared sails.
module m_input {
  const MOST: int
  pure val DIMS = { jib: Set("foretriangle_base", "foretriangle_height", "jib_luff"), mainsail: Set("main_sail_luff") }
  pure val COMMON = Set("rake_deg", "sheer_above_waterline", "boom_above_sheer", "mast_LOA")
  pure val ARRAYS = Set("girths", "chords", "centerline_twist_deg", "camber", "camber_distance_from_luff")
  pure val DECLARED = Set("jib", "main", "jib_and_main", "", "Jib", "main_and_jib", "none")

  // longer: the arrays that have one station more than the others had at first
  type SailIn = { absent: bool, missing: Set[str], longer: Set[str] }
  var sails: str
  var jib: SailIn
  var mainsail: SailIn
  var common: Set[str]        // common dimensions left out
  var spoilt: int
  var verdict: str            // accepted, refused (at once), fails (no sail set is built)
  var names: List[str]

  pure def declared(d: str): List[str] =
    if (d == "jib") ["jib"] else if (d == "main") ["main_sail"] else if (d == "jib_and_main") ["jib", "main_sail"] else []
  pure def uses(d: str, s: str): bool = length(declared(d).select(x => x == s)) > 0
  pure def complete(s: SailIn): bool = not(s.absent) and s.missing == Set() and (s.longer == Set() or s.longer == ARRAYS)
  pure def needed(d: str): Set[str] =
    Set("rake_deg", "sheer_above_waterline").union(if (uses(d, "jib")) Set("mast_LOA") else Set()).union(if (uses(d, "main_sail")) Set("boom_above_sheer") else Set())
  pure def judge(d: str, j: SailIn, m: SailIn, c: Set[str]): str =
    if (declared(d) == [] or (uses(d, "jib") and not(complete(j))) or (uses(d, "main_sail") and not(complete(m)))) "refused"
    else if (c.intersect(needed(d)) != Set()) "fails"
    else "accepted"

  pure val whole: SailIn = { absent: false, missing: Set(), longer: Set() }
  action settle(d: str, j: SailIn, m: SailIn, c: Set[str], n: int): bool = all {
    sails' = d, jib' = j, mainsail' = m, common' = c, spoilt' = n,
    verdict' = judge(d, j, m, c), names' = if (judge(d, j, m, c) == "accepted") declared(d) else [] }
  action init = {
    nondet d = DECLARED.oneOf()
    nondet lj = Set(Set(), ARRAYS).oneOf()
    nondet lm = Set(Set(), ARRAYS).oneOf()
    val j = { ...whole, longer: lj }
    val m = { ...whole, longer: lm }
    all { sails' = d, jib' = j, mainsail' = m, common' = Set(), spoilt' = 0,
          verdict' = judge(d, j, m, Set()), names' = if (judge(d, j, m, Set()) == "accepted") declared(d) else [] } }
  // one thing more is wrong
  pure def without(s: SailIn, what: str): SailIn = { ...s, missing: s.missing.union(Set(what)) }
  pure def stretched(s: SailIn, what: str): SailIn =
    { ...s, longer: if (s.longer.contains(what)) s.longer.exclude(Set(what)) else s.longer.union(Set(what)) }
  action step = all { spoilt < MOST, any {
    settle(sails, { ...jib, absent: true }, mainsail, common, spoilt + 1),
    settle(sails, jib, { ...mainsail, absent: true }, common, spoilt + 1),
    { nondet k = DIMS.jib.union(ARRAYS).oneOf() settle(sails, without(jib, k), mainsail, common, spoilt + 1) },
    { nondet k = DIMS.mainsail.union(ARRAYS).oneOf() settle(sails, jib, without(mainsail, k), common, spoilt + 1) },
    { nondet k = ARRAYS.oneOf() settle(sails, stretched(jib, k), mainsail, common, spoilt + 1) },
    { nondet k = ARRAYS.oneOf() settle(sails, jib, stretched(mainsail, k), common, spoilt + 1) },
    { nondet k = COMMON.oneOf() settle(sails, jib, mainsail, common.union(Set(k)), spoilt + 1) } } }

  // sails that are not declared do not matter; accepted sets hold exactly the declared sails
  val unusedIgnored = (uses(sails, "jib") or judge(sails, whole, mainsail, common) == verdict)
                  and (uses(sails, "main_sail") or judge(sails, jib, whole, common) == verdict)
  val exact = if (verdict == "accepted") names == declared(sails) and names != [] else names == []
  val inv = unusedIgnored and exact
}
module input2 { import m_input(MOST=2).* }
module input3 { import m_input(MOST=3).* }
// the same for the wind
module m_windin {
  pure val PROFILES = Set("exponential", "flat", "logarithmic", "exp", "Flat", "log", "none", "")
  pure val PARAMS = Set("wind_exp_coeff", "wind_reference_measurment_height", "roughness")
  var profile: str
  var missing: Set[str]
  var zero: bool              // an exponent of zero is an exponent
  var accepted: bool
  pure def needs(p: str): Set[str] =
    if (p == "exponential") Set("wind_exp_coeff", "wind_reference_measurment_height")
    else if (p == "logarithmic") Set("roughness", "wind_reference_measurment_height") else Set()
  pure def good(p: str, m: Set[str]): bool = Set("exponential", "flat", "logarithmic").contains(p) and m.intersect(needs(p)) == Set()
  action init = {
    nondet p = PROFILES.oneOf()
    nondet z = Set(true, false).oneOf()
    all { profile' = p, missing' = Set(), zero' = z, accepted' = good(p, Set()) } }
  action step = {
    nondet k = PARAMS.oneOf()
    val m = missing.union(Set(k))
    all { profile' = profile, missing' = m, zero' = zero, accepted' = good(profile, m) } }
  val inv = accepted implies (missing.intersect(needs(profile)) == Set())
}
