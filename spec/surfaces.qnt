// Trace specification: surfaces solved with the building blocks, moved, listed from the other end, cut in two.
module surfaces {
  import num.* from "./num"
  import vec.* from "./vec"
  import trace.* from "./trace"
  import rig.* from "./rig"
  import panel.* from "./panel"
  import flow.* from "./flow"
  import surface.* from "./surface"
  const RUNS: List[List[Event]]
  var which: int
  var pos: int
  var obs: Obs
  var verdicts: List[Res]

  pure def setIn(o: Obs): Surfaces = {
    pure val g = o.get("grid")
    pure val c = vectors(o.get("corners"))
    { corners: range(0, g[0]).foldl([], (l, q) => l.append({ l0: c[4 * q], t0: c[4 * q + 1], l1: c[4 * q + 2], t1: c[4 * q + 3] })),
      nc: g[1], ns: g[2], streams: vectors(o.get("streams")), rho: g[3], turn: g[4], plane: g[5] == 1, area: g[6] } }
  pure def extent(s: Surfaces): int = s.corners.foldl(S, (a, c) => imax(a, imax(imax(vmaxabs(c.l0), vmaxabs(c.t0)), imax(vmaxabs(c.l1), vmaxabs(c.t1)))))
  pure def laidOut(o: Obs): Res = {
    pure val s = setIn(o)
    pure val ps = panelsOfAll(s)
    pure val n = count(s)
    pure val tol = extent(s) / 10^13
    pure val r0 = require(CLEAN, "number of panels", 0, length(o.get("panels")) == 12 * n and length(o.get("flags")) == 2 * n)
    if (length(r0.bad) > 0) r0 else range(0, n).foldl(r0, (r, k) => {
      pure val c = range(0, 4).foldl(r, (a, q) => judgeV(a, "corner of a panel", k, at(o.get("panels"), 4 * k + q), [ps[k].se, ps[k].sw, ps[k].nw, ps[k].ne][q], tol))
      require(require(c, "trailing edge", k, (o.get("flags")[2 * k] == 1) == trailing(s.nc, s.ns, k)), "leading edge", k, (o.get("flags")[2 * k + 1] == 1) == leading(s.nc, s.ns, k)) }) }
  pure def elements(o: Obs): Res = {
    pure val s = setIn(o)
    pure val ps = panelsOfAll(s)
    pure val tol = extent(s) / 10^12
    range(0, length(ps)).foldl(CLEAN, (r, k) => {
      pure val g = ringOf(ps, s.nc, s.ns, k)
      pure val a = judgeV(r, "normal", k, at(o.get("normals"), k), normalOf(ps[k]), S / 10^9)
      pure val b = judgeV(judgeV(a, "control point", k, at(o.get("ctr"), k), control(ps[k]), tol), "centre of pressure", k, at(o.get("cp"), k), pressurePoint(ps[k]), tol)
      pure val c = range(0, 4).foldl(b, (x, q) => judgeV(x, "vortex ring", k, at(o.get("rings"), 4 * k + q), [g.a, g.b, g.c, g.d][q], tol))
      if (s.plane) judge(c, "area", k, o.get("areas")[k], area1(ps[k]), area1(ps[k]) / 10^9) else c }) }
  pure def solvedBy(o: Obs): Res = {
    pure val s = setIn(o)
    pure val f = solution(s, o.get("areas"))
    pure val n = count(s)
    pure val big = f.force.foldl(S / 10^9, (a, v) => imax(a, vmaxabs(v)))
    pure val gig = f.gamma.foldl(S / 10^9, (a, v) => imax(a, iabs(v)))
    if (not(f.ok)) leave(CLEAN) else range(0, n).foldl(CLEAN, (r, k) => {
      pure val q = mul(s.rho, vdot(s.streams[k], s.streams[k])) / 2
      pure val a = judge(r, "circulation", k, s.turn * o.get("gamma")[k], f.gamma[k], gig / 10^8)
      pure val b = judgeV(judgeV(judgeV(a, "force", k, at(o.get("force"), k), f.force[k], big / 10^8), "lift", k, at(o.get("lift"), k), f.lift[k], big / 10^8),
                          "drag", k, at(o.get("drag"), k), f.drag[k], big / 10^8)
      judge(judge(b, "pressure", k, o.get("pressure")[k], f.pressure[k], div(big, o.get("areas")[k]) / 10^8),
            "pressure coefficient", k, o.get("pcoef")[k], div(f.pressure[k], q), div(div(big, o.get("areas")[k]), q) / 10^8) }) }
  // of the whole, in the first panel's stream, for a given reference area
  pure def weighed(o: Obs): Res = {
    pure val s = setIn(o)
    pure val t = vsum(vectors(o.get("force")))
    pure val q = mul(mul(s.rho, vdot(s.streams[0], s.streams[0])) / 2, s.area)
    pure val tol = div(largest(o.get("force")) * count(s), q) / 10^10 + 10^18
    judge(judge(judgeV(CLEAN, "force coefficients", 0, at(o.get("cxyz"), 0), v3(div(t.x, q), div(t.y, q), div(t.z, q)), tol),
      "lift coefficient of a free wing", 0, o.get("clcd")[0], div(t.z, q), tol), "drag coefficient of a free wing", 0, o.get("clcd")[1], div(t.x, q), tol) }
  // the k-th panel is now the to(k)-th; forces are turned, pressures and circulations keep or change their sign
  pure def again(o: Obs, name: str, m: M, dest: int => int, sign: int, circ: int): Res = {
    pure val big = largest(o.get("force")) + S / 10^9
    pure val gig = largest(o.get("gamma")) + S / 10^9
    range(0, length(o.get("gamma"))).foldl(CLEAN, (r, k) => {
      pure val a = judgeV(r, name, k, at(o.get("force2"), dest(k)), apply(m, at(o.get("force"), k)), big / 10^8)
      pure val b = judge(a, name, k, circ * o.get("gamma2")[dest(k)], o.get("gamma")[k], gig / 10^8)
      judge(b, name, k, sign * o.get("pressure2")[dest(k)], o.get("pressure")[k], div(big, o.get("areas")[k]) / 10^8) }) }
  pure def check(act: str, o: Obs): Res = {
    pure val g = o.get("grid")
    pure val m = g[1] * g[2]
    pure val same: M = { r1: EX, r2: EY, r3: EZ }
    if (act == "laid out") laidOut(o)
    else if (act == "elements") elements(o)
    else if (act == "solved") solvedBy(o)
    else if (act == "weighed") weighed(o)
    else if (act == "moved") { pure val x = vectors(o.get("turning")) again(o, "moved", { r1: x[0], r2: x[1], r3: x[2] }, k => k, 1, 1) }
    // the other sense of circulation
    else if (act == "counted") again(o, "counted the other way", same, k => k, 1, -1)
    // listed from the other end: the other side is up
    else if (act == "from the other end") again(o, "listed from the other end", same, k => (k / g[2]) * g[2] + g[2] - 1 - k % g[2], -1, -1)
    // surfaces listed in another order
    else if (act == "reordered") again(o, "surfaces in another order", same, k => (g[0] - 1 - k / m) * m + k % m, 1, 1)
    // one surface handed in as two halves side by side
    else if (act == "cut") again(o, "cut in two", same, k => { pure val h = g[2] / 2 pure val j = k % g[2] (j / h) * g[1] * h + (k / g[2]) * h + j % h }, 1, 1)
    else require(CLEAN, "unknown action", 0, false) }

  action init = all { which' = 0, pos' = 0, obs' = Map(), verdicts' = [CLEAN] }
  action step = any {
    all {
      pos < length(RUNS[which]),
      { val e = RUNS[which][pos]
        val o = merge(obs, e.f)
        all { which' = which, pos' = pos + 1, obs' = o, verdicts' = verdicts.replaceAt(which, both(verdicts[which], check(e.act, o))) } } },
    all { pos == length(RUNS[which]), which + 1 < length(RUNS), which' = which + 1, pos' = 0, obs' = Map(), verdicts' = verdicts.append(CLEAN) } }
}
