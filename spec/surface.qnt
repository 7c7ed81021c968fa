// Lifting surfaces in any position: four corners each, an even grid between them, a stream of its own
// at every panel.  No water, no rig.
module surface {
  import num.* from "./num"
  import vec.* from "./vec"
  import rig.* from "./rig"
  import panel.* from "./panel"
  import flow.* from "./flow"
  import draws.* from "./draws"

  // leading and trailing corner at the first end, then at the other end
  type Corners = { l0: V, t0: V, l1: V, t1: V }
  // turn: sense in which circulations are counted; plane: every chord line in one plane with the others
  type Surfaces = { corners: List[Corners], nc: int, ns: int, streams: List[V], rho: int, turn: int, plane: bool, area: int }

  pure def spot(c: Corners, nc: int, ns: int, i: int, j: int): V = vlerp(vlerp(c.l0, c.t0, i, nc), vlerp(c.l1, c.t1, i, nc), j, ns)
  // row by row from the leading edge, in each row from the first end
  pure def panelsIn(c: Corners, nc: int, ns: int): List[Panel] = range(0, nc * ns).foldl([], (l, k) => l.append( {
    pure val i = k / ns
    pure val j = k % ns
    { se: spot(c, nc, ns, i + 1, j), sw: spot(c, nc, ns, i, j), nw: spot(c, nc, ns, i, j + 1), ne: spot(c, nc, ns, i + 1, j + 1) } }))
  pure def panelsOfAll(s: Surfaces): List[Panel] = s.corners.foldl([], (l, c) => l.concat(panelsIn(c, s.nc, s.ns)))
  pure def count(s: Surfaces): int = length(s.corners) * s.nc * s.ns
  pure def move(m: M, shift: V, c: Corners): Corners = {
    l0: vadd(apply(m, c.l0), shift), t0: vadd(apply(m, c.t0), shift), l1: vadd(apply(m, c.l1), shift), t1: vadd(apply(m, c.t1), shift) }
  pure def moved(m: M, shift: V, s: Surfaces): Surfaces = { ...s,
    corners: s.corners.foldl([], (l, c) => l.append(move(m, shift, c))),
    streams: s.streams.foldl([], (l, v) => l.append(apply(m, v))) }
  pure def solution(s: Surfaces, areas: List[int]): Flow = solved(panelsOfAll(s), s.nc, s.ns, s.streams, s.rho, areas)

  // uses 16 slots: chords along x, span along y, before everything is turned
  pure def cornersOf(r: Raw, k: int, plane: bool): Corners = {
    pure val c0 = uni(r, k, 300, 3500)
    pure val c1 = if (oneIn(r, k + 1, 3)) c0 else uni(r, k + 1, 200, 3000)
    pure val span = uni(r, k + 2, 800, 9000)
    pure val sweep = if (oneIn(r, k + 3, 3)) 0 else uni(r, k + 3, -3000, 5000)
    pure val rise = if (oneIn(r, k + 4, 2)) 0 else uni(r, k + 4, -1500, 2500)
    pure val a = if (oneIn(r, k + 5, 3)) 0 else uni(r, k + 5, -12000, 12000)
    pure val b = if (plane) a else uni(r, k + 6, -12000, 12000)
    pure def along(c: int, t: int): V = { pure val sc = sincos(rad(t)) v3(mul(c, sc.c), 0, 0 - mul(c, sc.s)) }
    pure val tip = v3(sweep, span, rise)
    { l0: ZERO, t0: along(c0, a), l1: tip, t1: vadd(tip, along(c1, b)) } }
  pure def entire(x: int): int = (x + 100 * S) / S * S - 100 * S
  pure def cornersAtWhole(r: Raw, k: int): Corners = {
    pure val tip = v3(entire(uni(r, k + 3, -3000, 5000)), entire(uni(r, k + 2, 1000, 9000)), if (oneIn(r, k + 4, 2)) 0 else entire(uni(r, k + 4, -1500, 2500)))
    { l0: ZERO, t0: v3(entire(uni(r, k, 1000, 4500)), 0, 0), l1: tip, t1: vadd(tip, v3(entire(uni(r, k + 1, 1000, 3999)), 0, 0)) } }
  pure val SURFACE_SLOTS: Set[int] = 0.to(100)
  pure def surfacesOf(r: Raw, g: (int, int, int)): Surfaces = {
    pure val plane = not(oneIn(r, 0, 3))
    pure val n = g._1
    pure val m = g._2 * g._3
    // the others beside, above or behind the first one
    // corners at whole metres
    pure val whole = oneIn(r, 100, 5)
    pure val cs = range(0, n).foldl([], (l, q) => l.append( {
      pure val c = if (whole) cornersAtWhole(r, 1 + 16 * q) else cornersOf(r, 1 + 16 * q, plane)
      pure val d = if (q == 0) ZERO else v3(uni(r, 14 + 16 * q, -3000, 6000), uni(r, 15 + 16 * q, -3000, 3000), q * uni(r, 16 + 16 * q, 900, 3000))
      move({ r1: EX, r2: EY, r3: EZ }, if (whole) v3(entire(d.x), entire(d.y), entire(d.z) + q * S) else d, c) }))
    pure val speed = uni(r, 50, 300, 15000)
    pure val sa = sincos(rad(uni(r, 51, -15000, 15000)))
    pure val sb = sincos(rad(if (oneIn(r, 52, 2)) 0 else uni(r, 52, -25000, 25000)))
    pure val v = vscale(speed, v3(mul(sa.c, sb.c), sb.s, mul(sa.s, sb.c)))
    pure val even = oneIn(r, 53, 2)
    pure val vs = range(0, n * m).foldl([], (l, k) => l.append(if (even) v else vadd(v, vscale(speed, v3(
      milli(r.get(60 + k % 40) % 161 - 80), milli(r.get(60 + (7 * k + 3) % 40) % 161 - 80), milli(r.get(60 + (3 * k + 11) % 40) % 161 - 80))))))
    pure val s = { corners: cs, nc: g._2, ns: g._3, streams: vs, rho: uni(r, 54, 300, 2500), turn: if (oneIn(r, 55, 2)) 1 else -1, plane: plane,
                   area: uni(r, 59, 500, 20000) }
    // as it is, with the span upwards, or anyhow
    pure val how = choose(r, 56, 4)
    if (how == 0 or (whole and how < 3)) s
      else if (how == 1) moved(rotX(rad(milli(90000))), ZERO, s)
      else moved(turnOf(r, 57), point(r, 57, 4000), s) }
  pure def turnOf(r: Raw, k: int): M = rodrigues(v3(uni(r, k, -1000, 1000), uni(r, k + 1, -1000, 1000), uni(r, k + 1, 300, 1000)), rad(uni(r, k + 2, -180000, 180000)))
}
// sets of surfaces, and a motion of all of them
module m_surfaces {
  import num.* from "./num"
  import vec.* from "./vec"
  import rig.* from "./rig"
  import panel.* from "./panel"
  import draws.* from "./draws"
  import surface.*
  const GRIDS: List[(int, int, int)]
  var s: Surfaces
  var r: M
  var shift: V
  var s2: Surfaces
  var stage: str
  action init = {
    nondet raw = SURFACE_SLOTS.setOfMaps(1.to(DRAWS)).oneOf()
    nondet g = GRIDS.indices().oneOf()
    pure val x = surfacesOf(raw, GRIDS[g])
    all { s' = x, r' = turnOf(raw, 93), shift' = point(raw, 96, 6000), s2' = x, stage' = "placed" } }
  action step = all { stage == "placed", s' = s, r' = r, shift' = shift, s2' = moved(r, shift, s), stage' = "moved" }

  pure def near(a: V, b: V): bool = vmaxabs(vsub(a, b)) <= S / 10^15
  // neighbours share their corners; areas and the loads' arms move rigidly
  val inv = (stage == "moved") implies {
    val p = panelsOfAll(s)
    val q = panelsOfAll(s2)
    and { length(p) == count(s), length(s.streams) == count(s),
      range(0, length(p)).foldl(true, (a, k) => {
        val i = (k % (s.nc * s.ns)) / s.ns
        val j = k % s.ns
        a and near(q[k].se, vadd(apply(r, p[k].se), shift)) and near(normalOf(q[k]), apply(r, normalOf(p[k])))
          and (j + 1 == s.ns or (near(p[k].nw, p[k + 1].sw) and near(p[k].ne, p[k + 1].se)))
          and (i + 1 == s.nc or (near(p[k].se, p[k + s.ns].sw) and near(p[k].ne, p[k + s.ns].nw))) }) } }
}
module surfaces_small { import m_surfaces(GRIDS=[(1, 1, 1), (1, 1, 2), (1, 2, 1), (1, 2, 2), (1, 1, 4), (1, 3, 1), (2, 1, 1), (2, 1, 2), (2, 2, 1), (3, 1, 1), (1, 2, 3), (1, 3, 2), (2, 3, 1)]).* }
module surfaces_large { import m_surfaces(GRIDS=[(1, 3, 6), (1, 5, 4), (1, 1, 16), (1, 8, 2), (2, 3, 4), (2, 2, 6), (3, 2, 2), (3, 1, 6), (2, 4, 2), (1, 4, 10), (1, 10, 15), (3, 6, 8)]).* }
