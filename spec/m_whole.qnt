// The whole computation on a declared case: sails to panels, wind to panels, circulations, loads,
// totals; then the crew changes something and it starts again.  Nothing here is observed: every
// state is what the declared case must give.
module m_whole {
  import num.* from "./num"
  import vec.* from "./vec"
  import shape.* from "./shape"
  import rig.* from "./rig"
  import wind.* from "./wind"
  import panel.* from "./panel"
  import vortex.* from "./vortex"
  import flow.* from "./flow"
  import results.* from "./results"
  import draws.* from "./draws"
  import cases.* from "./cases"
  const GRIDS: List[(int, int)]

  type Totals = { force: V, moment: V, sailForce: List[V], sailMoment: List[V], effort: V, effortKnown: bool, keel: V, overall: V,
    // per panel: load along the normal, areas it may have (two splittings, and finding K2), angles of the wind without and with the sails, in degrees from the course
    press: List[int], areas: List[List[int]], angles: List[int], flowAngles: List[int] }
  pure val NO_TOTALS: Totals = { force: ZERO, moment: ZERO, sailForce: [], sailMoment: [], effort: ZERO, effortKnown: false, keel: ZERO, overall: ZERO, press: [], areas: [], angles: [], flowAngles: [] }

  var cas: Case
  var stage: str
  var change: str         // what the crew last did
  var ps: List[Panel]
  var winds: List[V]
  var flowing: Flow
  var sums: Totals

  pure def cpOf(q: Panel): V = pressurePoint(q)
  pure def windsOf(a: Air, l: List[Panel]): List[V] =
    range(0, length(l)).foldl([], (r, k) => r.append(apparentAt(a, iabs(cpOf(l[k]).z))))
  pure def totalsOf(c: Case, l: List[Panel], f: Flow): Totals = {
    pure val h = length(l) / 2
    pure val m = c.boat.nc * c.boat.ns
    pure val ms = range(0, h).foldl([], (r, k) => r.append(vcross(arm(cpOf(l[k]), c.ref), f.force[k])))
    pure def part(v: List[V], lo: int, hi: int): V = range(lo, hi).foldl(ZERO, (a, k) => vadd(a, v[k]))
    pure val total = part(f.force, 0, h)
    pure val moment = part(ms, 0, h)
    pure val ff = vdot(total, total)
    pure val work = range(0, h).foldl(0, (a, k) => a + vdot(arm(cpOf(l[k]), c.ref), f.force[k]))
    // the point whose moment is the part of the moment across the force, and whose place along the force is the panels'
    pure val x = vcross(total, moment)
    pure val along = vscale(work, total)
    pure val clr = apply(sailing(c.boat.heel, c.boat.leeway), c.clr)
    pure val keelMoment = vcross(vsub(clr, c.ref), vneg(total))
    { force: total, moment: moment,
      sailForce: range(0, h / m).foldl([], (r, s) => r.append(part(f.force, s * m, (s + 1) * m))),
      sailMoment: range(0, h / m).foldl([], (r, s) => r.append(part(ms, s * m, (s + 1) * m))),
      effort: if (ff < 10^20) ZERO else v3(div(x.x + along.x, ff), div(x.y + along.y, ff), div(x.z + along.z, ff)), effortKnown: ff >= 10^20,
      keel: keelMoment, overall: vadd(moment, keelMoment),
      press: range(0, length(l)).foldl([], (r, k) => r.append(vdot(f.force[k], normalOf(l[k])))),
      areas: l.foldl([], (r, q) => r.append([area1(q), area2(q), areaK2(q)])),
      angles: f.wind.foldl([], (r, w) => r.append(angleDeg(w))),
      flowAngles: range(0, length(l)).foldl([], (r, k) => r.append(angleDeg(vadd(f.wind[k], f.vind[k])))) }
  }

  action fresh(c: Case, what: str): bool = all {
    cas' = c, change' = what, stage' = "declared", ps' = [], winds' = [], flowing' = NO_FLOW, sums' = NO_TOTALS }
  action declare = {
    nondet raw = CASE_SLOTS.setOfMaps(1.to(DRAWS)).oneOf()
    nondet g = GRIDS.indices().oneOf()
    fresh({ ...caseOf(raw, GRIDS[g]), keelOn: true }, "declared")
  }
  action init = declare
  action build = all { stage == "declared",
    if (sound(cas.boat)) all { stage' = "built", ps' = setPanels(buildSails(cas.boat)) } else all { stage' = "unsound", ps' = [] },
    cas' = cas, change' = change, winds' = [], flowing' = NO_FLOW, sums' = NO_TOTALS }
  action blow = all { stage == "built", stage' = "winds", winds' = windsOf(cas.air, ps), cas' = cas, change' = change, ps' = ps, flowing' = NO_FLOW, sums' = NO_TOTALS }
  action fly = all { stage == "winds", cas' = cas, change' = change, ps' = ps, winds' = winds, sums' = NO_TOTALS,
    { val f = solved(ps, cas.boat.nc, cas.boat.ns, winds, cas.air.rho, ps.foldl([], (l, q) => l.append(areaOf(q))))
      all { flowing' = f, stage' = if (f.ok) "flown" else "unsure" } } }
  action total = all { stage == "flown", stage' = "done", sums' = totalsOf(cas, ps, flowing), cas' = cas, change' = change, ps' = ps, winds' = winds, flowing' = flowing }
  // one setting after the other, taken from another draw
  action adjust = all { stage == "done" or stage == "unsound" or stage == "unsure",
    nondet raw = CASE_SLOTS.setOfMaps(1.to(DRAWS)).oneOf()
    nondet g = GRIDS.indices().oneOf()
    nondet what = Set("heel", "leeway", "wind", "profile", "speed", "astern", "density", "jib twist", "main twist", "twist mode", "shape", "rake", "luffs", "sails", "grid",
                      "reference", "keel", "interpolation", "water level", "a hair", "chords", "camber", "camber position", "wind angle", "wind strength", "coefficient",
                      "roughness", "reference height", "sheer", "boom", "base", "forestay", "mast offset", "one luff", "orientation").oneOf()
    pure val n = caseOf(raw, GRIDS[g])
    fresh(adjusted(cas, n, what), what) }
  def adjusted(c: Case, n: Case, what: str): Case = {
    pure val b = c.boat
    pure val a = c.air
    if (what == "heel") { ...c, boat: { ...b, heel: n.boat.heel } }
    else if (what == "leeway") { ...c, boat: { ...b, leeway: n.boat.leeway } }
    else if (what == "wind") { ...c, air: { ...a, tws: n.air.tws, alpha: n.air.alpha } }
    else if (what == "profile") { ...c, air: { ...a, kind: n.air.kind, coeff: n.air.coeff, rough: n.air.rough, href: n.air.href } }
    else if (what == "speed") { ...c, air: { ...a, sog: n.air.sog } }
    else if (what == "astern") { ...c, air: { ...a, sog: -n.air.sog / 3 } }
    else if (what == "density") { ...c, air: { ...a, rho: n.air.rho } }
    else if (what == "jib twist") { ...c, boat: { ...b, jib: { ...b.jib, twist: turned(b.jib.twist, n.boat.heel / 3) } } }
    else if (what == "main twist") { ...c, boat: { ...b, mainsail: { ...b.mainsail, twist: turned(b.mainsail.twist, n.boat.heel / 3) } } }
    else if (what == "twist mode") { ...c, boat: { ...b, twistMode: n.boat.twistMode } }
    else if (what == "shape") { ...c, boat: { ...b, interp: n.boat.interp, jib: n.boat.jib, mainsail: n.boat.mainsail } }
    else if (what == "rake") { ...c, boat: { ...b, rig: { ...b.rig, rake: n.boat.rig.rake } } }
    else if (what == "luffs") { ...c, boat: { ...b, rig: { ...b.rig, mainLuff: mul(b.rig.mainLuff, 9 * S / 10), jibLuff: mul(b.rig.jibLuff, 8 * S / 10) } } }
    else if (what == "sails") { ...c, boat: { ...b, sails: n.boat.sails } }
    else if (what == "grid") { ...c, boat: { ...b, nc: n.boat.nc, ns: n.boat.ns } }
    else if (what == "reference") { ...c, ref: n.ref }
    else if (what == "keel") { ...c, clr: n.clr }
    else if (what == "interpolation" and length(b.jib.girths) >= 4 and length(b.mainsail.girths) >= 4) { ...c, boat: { ...b, interp: 1 - b.interp } }
    else if (what == "a hair") hair(c)
    else if (what == "chords") { ...c, boat: { ...b, jib: { ...b.jib, chords: reverse(b.jib.chords) }, mainsail: { ...b.mainsail, chords: reverse(b.mainsail.chords) } } }
    else if (what == "camber") { ...c, boat: { ...b, jib: { ...b.jib, camber: reverse(b.jib.camber) }, mainsail: { ...b.mainsail, camber: reverse(b.mainsail.camber) } } }
    else if (what == "camber position") { ...c, boat: { ...b, jib: { ...b.jib, pos: nearerMiddle(b.jib.pos) }, mainsail: { ...b.mainsail, pos: nearerMiddle(b.mainsail.pos) } } }
    else if (what == "wind angle") { ...c, air: { ...a, alpha: n.air.alpha } }
    else if (what == "wind strength") { ...c, air: { ...a, tws: n.air.tws } }
    else if (what == "coefficient") { ...c, air: { ...a, kind: 1, coeff: n.air.coeff } }
    else if (what == "roughness") { ...c, air: { ...a, kind: 2, rough: n.air.rough } }
    else if (what == "reference height") { ...c, air: { ...a, href: n.air.href } }
    else if (what == "sheer") { ...c, boat: { ...b, rig: { ...b.rig, sheer: if (b.rig.sheer == 0) 0 else n.boat.rig.sheer } } }
    else if (what == "boom") { ...c, boat: { ...b, rig: { ...b.rig, boom: if (b.rig.sheer == 0) 0 else n.boat.rig.boom } } }
    else if (what == "base") { ...c, boat: { ...b, rig: { ...b.rig, base: n.boat.rig.base } } }
    else if (what == "forestay") { ...c, boat: { ...b, rig: { ...b.rig, height: n.boat.rig.height } } }
    else if (what == "mast offset") { ...c, boat: { ...b, rig: { ...b.rig, loa: n.boat.rig.loa } } }
    else if (what == "one luff") { ...c, boat: { ...b, rig: { ...b.rig, mainLuff: if (b.sails == 0) b.rig.mainLuff else mul(b.rig.mainLuff, 11 * S / 10), jibLuff: if (b.sails == 0) mul(b.rig.jibLuff, 11 * S / 10) else b.rig.jibLuff } } }
    else if (what == "orientation") { ...c, turn: -c.turn }
    else if (what == "water level") { ...c, air: { ...a, level: a.level - n.air.href / 9 } }
    else c
  }
  pure def nearerMiddle(l: List[int]): List[int] = l.foldl([], (r, x) => r.append(x + (S / 2 - x) / 5))
  // everything a little different
  pure def hair(c: Case): Case = {
    pure def more(x: int): int = x + x / 20000
    pure def mores(l: List[int]): List[int] = l.foldl([], (r, x) => r.append(more(x)))
    pure def data(d: Data): Data = { ...d, chords: mores(d.chords), twist: mores(d.twist), camber: mores(d.camber), pos: mores(d.pos) }
    pure val b = c.boat
    pure val g = b.rig
    { ...c, ref: vscale(S + S / 20000, c.ref), clr: vscale(S + S / 20000, c.clr),
      boat: { ...b, heel: more(b.heel), leeway: more(b.leeway), jib: data(b.jib), mainsail: data(b.mainsail),
              rig: { mainLuff: more(g.mainLuff), jibLuff: more(g.jibLuff), height: more(g.height), base: more(g.base), sheer: more(g.sheer), boom: more(g.boom), rake: more(g.rake), loa: more(g.loa) } },
      air: { ...c.air, alpha: more(c.air.alpha), tws: more(c.air.tws), sog: more(c.air.sog), coeff: more(c.air.coeff), href: more(c.air.href), rough: more(c.air.rough), rho: more(c.air.rho) } } }
  pure def turned(l: List[int], d: int): List[int] = l.foldl([], (r, x) => r.append(x + d))
  action step = any { build, blow, fly, total, adjust }

  // ---------------------------------------------------------------- what the specification itself must satisfy
  pure def near(a: int, b: int, big: int): bool = iabs(a - b) <= big / 10^12 + 10^12
  pure def nearV(a: V, b: V, big: int): bool = near(a.x, b.x, big) and near(a.y, b.y, big) and near(a.z, b.z, big)
  pure def other(n: int, ns: int, k: int): int = { pure val h = n / 2 pure val q = k % h (if (k < h) h else 0) + (q / ns) * ns + (ns - 1 - q % ns) }
  // P02 on the specification: images have the same circulation, mirrored loads
  val mirrored = (stage == "done") implies {
    val big = flowing.force.foldl(0, (a, v) => imax(a, vmaxabs(v)))
    val bg = flowing.gamma.foldl(0, (a, v) => imax(a, iabs(v)))
    range(0, length(ps)).foldl(true, (a, k) => {
      val m = other(length(ps), cas.boat.ns, k)
      a and near(flowing.gamma[k], flowing.gamma[m], bg) and nearV(flowing.force[m], mirrorZ(flowing.force[k]), big) }) }
  // P13: a vortex system at rest in a stream of one direction and speed; the keel's moment makes the sum independent of the reference point
  val balanced = (stage == "done") implies {
    val moved = totalsOf({ ...cas, ref: ZERO }, ps, flowing)
    val big = vmaxabs(sums.moment) + vmaxabs(moved.moment) + vmaxabs(sums.keel) + vmaxabs(moved.keel)
    and { nearV(sums.overall, moved.overall, big), nearV(vsub(moved.moment, sums.moment), vcross(cas.ref, sums.force), big) } }
  // P13: the centre of effort reproduces the moment but for the part along the force
  val effort = (stage == "done" and sums.effortKnown) implies {
    val ff = vdot(sums.force, sums.force)
    val m = vsub(sums.moment, vscale(div(vdot(sums.moment, sums.force), ff), sums.force))
    nearV(vcross(sums.effort, sums.force), m, vmaxabs(sums.moment) + mul(vmaxabs(sums.effort), vmaxabs(sums.force))) }
  val inv = mirrored and balanced and effort
}
module whole { import m_whole(GRIDS=[(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)]).* }
module whole_big { import m_whole(GRIDS=[(2, 3), (3, 2), (4, 2), (2, 4), (1, 6), (6, 1)]).* }
