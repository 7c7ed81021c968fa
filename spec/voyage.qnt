// The whole computation as a sequence of actions over what has been observed so far: sails to panels,
// panels to vortex elements, wind, influence, circulation, loads, totals.  Each action's clauses relate
// the quantities it observed to the earlier ones; a recorded run of the implementation must satisfy them.
module voyage {
  import num.* from "./num"
  import vec.* from "./vec"
  import shape.* from "./shape"
  import rig.* from "./rig"
  import wind.* from "./wind"
  import panel.* from "./panel"
  import vortex.* from "./vortex"
  import trace.* from "./trace"
  import results.* from "./results"
  import build.* from "./build"
  import sections.* from "./sections"
  const RUNS: List[List[Event]]

  var which: int          // the run being followed and the event reached in it
  var pos: int
  var obs: Obs            // what has been observed so far in this run
  var verdicts: List[Res] // one per run

  pure def panelAt(l: List[int], k: int): Panel = { se: at(l, 4 * k), sw: at(l, 4 * k + 1), nw: at(l, 4 * k + 2), ne: at(l, 4 * k + 3) }
  pure def panelsIn(l: List[int]): List[Panel] = range(0, length(l) / 12).foldl([], (a, k) => a.append(panelAt(l, k)))
  pure def ringAt(l: List[int], k: int): Ring = { a: at(l, 4 * k), b: at(l, 4 * k + 1), c: at(l, 4 * k + 2), d: at(l, 4 * k + 3) }
  // the image of a panel: same sail and row, the span counted from the other end
  pure def imageOf(n: int, nc: int, ns: int, k: int): int = {
    pure val h = n / 2
    pure val q = k % h
    (if (k < h) h else 0) + (q / ns) * ns + (ns - 1 - q % ns)
  }

  // ---------------------------------------------------------------- P11
  pure def elements(o: Obs): Res = {
    pure val ps = panelsIn(o.get("panels"))
    pure val nc = o.get("grid")[0]
    pure val ns = o.get("grid")[1]
    pure val turn1 = o.get("grid")[2]
    pure val tol = largest(o.get("panels")) / 10^11
    range(0, length(ps)).foldl(CLEAN, (r0, k) => {
      pure val q = ps[k]
      pure val g = ringAt(o.get("rings"), k)
      pure val want = if (o.get("grid")[3] == 1) closedBehind(q) else ringOf(ps, nc, ns, k)
      pure val r1 = judgeV(judgeV(r0, "middle of the fore edge", k, at(o.get("fore"), k), fore(q), tol),
                           "middle of the aft edge", k, at(o.get("aft"), k), aft(q), tol)
      pure val r2 = judgeV(judgeV(r1, "control point", k, at(o.get("control"), k), control(q), tol),
                           "centre of pressure", k, at(o.get("cp"), k), pressurePoint(q), tol)
      pure val r3 = judgeV(r2, "normal", k, at(o.get("normals"), k), normalOf(q), S / 10^9)
      pure val r4 = judgeV(judgeV(r3, "ring A", k, g.a, want.a, tol), "ring B", k, g.b, want.b, tol)
      pure val r5 = judgeV(judgeV(r4, "ring C", k, g.c, want.c, tol), "ring D", k, g.d, want.d, tol)
      pure val bound = vsub(quarterHigh(q), quarterLow(q))
      judgeV(r5, "span vector", k, at(o.get("spans"), k), v3(turn1 * bound.x, turn1 * bound.y, turn1 * bound.z), tol)
    })
  }
  pure def areas(o: Obs): Res = {
    pure val ps = panelsIn(o.get("panels"))
    pure val l = largest(o.get("panels"))
    pure val tol = mul(l, l) / 10^11
    range(0, length(ps)).foldl(CLEAN, (r, k) => {
      pure val a1 = area1(ps[k])
      pure val a2 = area2(ps[k])
      pure val got = o.get("areas")[k]
      pure val lo = imin(a1, a2)
      pure val hi = imax(a1, a2)
      // a warped panel has no single area: any between the two splittings
      if (got > hi + tol and iabs(got - areaK2(ps[k])) <= tol) judge(r, "area (K2)", k, got, hi, tol)
      else if (got < lo - tol and iabs(got - areaK2(ps[k])) <= tol) judge(r, "area (K2)", k, got, lo, tol)
      else judge(r, "area", k, got, imin(hi, imax(lo, got)), tol)
    })
  }
  // ---------------------------------------------------------------- P08
  pure def inlet(o: Obs): Res = {
    pure val a = o.get("air")
    pure val air = { kind: a[0], alpha: a[1], tws: a[2], sog: a[3], coeff: a[4], href: a[5], level: a[6], rough: a[7], rho: a[8] }
    range(0, length(o.get("cp")) / 3).foldl(CLEAN, (r, k) => {
      pure val h = iabs(at(o.get("cp"), k).z)
      pure val t = trueWind(air, h)
      pure val tol = (vnorm(t) + iabs(air.sog) + S) / 10^10
      judgeV(judgeV(r, "true wind at the panel", k, at(o.get("tws"), k), t, tol), "apparent wind at the panel", k, at(o.get("wind"), k), apparent(air, t), tol)
    })
  }
  // ---------------------------------------------------------------- P10
  // what panel j's unit vortex does at p
  pure def unitVortex(o: Obs, p: V, j: int): Vel = {
    pure val g = ringAt(o.get("rings"), j)
    pure val v = if (o.get("trailing")[j] == 1) horseshoe2(p, g.a, g.b, g.c, g.d, at(o.get("wind"), j)) else ring(p, g.a, g.b, g.c, g.d)
    if (o.get("grid")[2] == 1) v else flip(v)
  }
  // the panels looked at: all of them, or some when there are many
  pure def rowsOf(o: Obs): List[int] = if (o.keys().contains("rows")) o.get("rows") else range(0, length(o.get("cp")) / 3)
  pure def influence(o: Obs): Res = {
    pure val n = length(o.get("cp")) / 3
    pure val rows = rowsOf(o)
    range(0, length(rows)).foldl(CLEAN, (r0, q) => {
      pure val i = rows[q]
      pure val p = at(o.get("control"), i)
      pure val nv = at(o.get("normals"), i)
      pure val w = at(o.get("wind"), i)
      pure val r1 = judge(r0, "right-hand side", i, o.get("rhs")[i], -vdot(w, nv), vnorm(w) / 10^12)
      range(0, n).foldl(r1, (r, j) => {
        pure val u = unitVortex(o, p, j)
        if (u.unsure) leave(r) else {
          pure val tol = u.slack + vmaxabs(u.v) / 10^10 + 10^14
          judge(judgeV(r, "unit velocity", i * n + j, at(o.get("vunit"), q * n + j), u.v, tol),
                "matrix", i * n + j, o.get("matrix")[q * n + j], vdot(u.v, nv), 2 * tol)
        }
      })
    })
  }
  pure def circulation(o: Obs): Res = {
    pure val n = length(o.get("cp")) / 3
    pure val gs = o.get("gamma")
    pure val rows = rowsOf(o)
    // what is reported of every panel: no flow through it
    pure val most = (largest(o.get("wind")) + largest(o.get("vindctrl"))) / 10^9
    pure val every = range(0, n).foldl(CLEAN, (r, i) => {
      pure val w = at(o.get("wind"), i)
      pure val v = at(o.get("vctrl"), i)
      judge(judgeV(r, "velocity at the control point", i, v, vadd(w, at(o.get("vindctrl"), i)), most), "flow through the panel", i, vdot(v, at(o.get("normals"), i)), 0, most) })
    range(0, length(rows)).foldl(every, (r0, q) => {
      pure val i = rows[q]
      pure val p = at(o.get("control"), i)
      pure val nv = at(o.get("normals"), i)
      pure val w = at(o.get("wind"), i)
      pure val s = range(0, n).foldl({ v: ZERO, size: 0 }, (a, j) => {
        pure val t = vscale(gs[j], at(o.get("vunit"), q * n + j))
        { v: vadd(a.v, t), size: a.size + vmaxabs(t) } })
      pure val tol = (s.size + vnorm(w)) / 10^10
      pure val total = vadd(w, s.v)
      pure val r1 = judge(r0, "flow through the panel", i, vdot(total, nv), 0, tol)
      pure val r2 = judgeV(r1, "induced velocity at the control point", i, at(o.get("vindctrl"), i), s.v, tol)
      judgeV(r2, "velocity at the control point", i, at(o.get("vctrl"), i), total, tol)
    })
  }
  pure def atPressurePoints(o: Obs): Res = {
    pure val n = length(o.get("cp")) / 3
    pure val gs = o.get("gamma")
    rowsOf(o).foldl(CLEAN, (r0, i) => {
      pure val p = at(o.get("cp"), i)
      pure val s = range(0, n).foldl({ v: ZERO, size: 0, unsure: false }, (a, j) => {
        pure val u = unitVortex(o, p, j)
        pure val t = vscale(gs[j], u.v)
        { v: vadd(a.v, t), size: a.size + mul(iabs(gs[j]), u.slack) + vmaxabs(t) / 10^10, unsure: a.unsure or u.unsure } })
      if (s.unsure) leave(r0) else {
        pure val w = at(o.get("wind"), i)
        judgeV(judgeV(r0, "induced velocity at the centre of pressure", i, at(o.get("vindcp"), i), s.v, s.size + 10^14),
               "velocity at the centre of pressure", i, at(o.get("vcp"), i), vadd(w, s.v), s.size + vnorm(w) / 10^12 + 10^14)
      }
    })
  }
  // ---------------------------------------------------------------- P12
  pure def loads(o: Obs): Res = {
    pure val n = length(o.get("cp")) / 3
    pure val nc = o.get("grid")[0]
    pure val ns = o.get("grid")[1]
    pure val rho = o.get("rho")[0]
    pure val gs = o.get("gamma")
    range(0, n).foldl(CLEAN, (r0, i) => {
      pure val own = i % (nc * ns) < ns
      pure val strength = if (own) gs[i] else gs[i] - gs[i - ns]
      pure val bound = at(o.get("spans"), i)
      pure val w = at(o.get("wind"), i)
      pure val vi = at(o.get("vindcp"), i)
      pure val v = at(o.get("vcp"), i)
      pure val amount = mul(rho, mul(vnorm(bound), iabs(gs[i]) + (if (own) 0 else iabs(gs[i - ns]))))
      pure val tol = mul(amount, vnorm(w) + vnorm(vi)) / 10^11 + 10^14
      pure val f = vscale(rho, vcross(v, vscale(strength, bound)))
      pure val l = vscale(rho, vcross(w, vscale(strength, bound)))
      pure val d = vscale(rho, vcross(vi, vscale(strength, bound)))
      pure val fo = at(o.get("force"), i)
      pure val lo = at(o.get("lift"), i)
      pure val do = at(o.get("drag"), i)
      pure val r1 = judgeV(r0, "force", i, fo, f, tol)
      pure val r2 = judgeV(r1, "lift", i, lo, l, tol)
      pure val r3 = judgeV(r2, "drag", i, do, d, tol)
      pure val r4 = judgeV(r3, "lift plus drag", i, vadd(lo, do), fo, tol)
      pure val r5 = judge(r4, "lift across the wind", i, vdot(lo, w), 0, mul(tol, vnorm(w)) + 10^14)
      pure val ar = o.get("areas")[i]
      pure val pr = div(vdot(fo, at(o.get("normals"), i)), ar)
      pure val r6 = judge(r5, "pressure", i, o.get("pressure")[i], pr, div(vnorm(fo), ar) / 10^11 + 10^14)
      pure val q = mul(rho, vdot(w, w)) / 2
      judge(r6, "pressure coefficient", i, o.get("pcoef")[i], div(o.get("pressure")[i], q), div(iabs(o.get("pressure")[i]), q) / 10^11 + 10^14)
    })
  }
  // ---------------------------------------------------------------- P02
  pure def mirroredPanels(o: Obs): Res = {
    pure val ps = panelsIn(o.get("panels"))
    pure val n = length(ps)
    pure val tol = largest(o.get("panels")) / 10^11
    range(0, n / 2).foldl(CLEAN, (r, k) => {
      pure val q = ps[k]
      pure val m = ps[imageOf(n, o.get("grid")[0], o.get("grid")[1], k)]
      // the lower corners of the image are the images of the upper ones
      pure val r1 = judgeV(judgeV(r, "image SE", k, m.se, mirrorZ(q.ne), tol), "image SW", k, m.sw, mirrorZ(q.nw), tol)
      judgeV(judgeV(r1, "image NW", k, m.nw, mirrorZ(q.sw), tol), "image NE", k, m.ne, mirrorZ(q.se), tol)
    })
  }
  pure def mirroredFlow(o: Obs): Res = {
    pure val n = length(o.get("cp")) / 3
    pure val tg = largest(o.get("gamma")) / 10^8
    pure val tv = (largest(o.get("wind")) + largest(o.get("vindcp"))) / 10^8
    pure val tf = largest(o.get("force")) / 10^8
    pure val tp = largest(o.get("pressure")) / 10^8
    pure val tc = largest(o.get("pcoef")) / 10^8
    range(0, n / 2).foldl(CLEAN, (r, k) => {
      pure val m = imageOf(n, o.get("grid")[0], o.get("grid")[1], k)
      pure val r1 = judge(r, "circulation of the image", k, o.get("gamma")[m], o.get("gamma")[k], tg)
      pure val r2 = judge(r1, "pressure of the image", k, o.get("pressure")[m], o.get("pressure")[k], tp)
      pure val r3 = judge(r2, "pressure coefficient of the image", k, o.get("pcoef")[m], o.get("pcoef")[k], tc)
      pure val r4 = judgeV(r3, "wind of the image", k, at(o.get("wind"), m), mirrorZ(at(o.get("wind"), k)), tv)
      pure val r5 = judgeV(r4, "induced velocity of the image", k, at(o.get("vindcp"), m), mirrorZ(at(o.get("vindcp"), k)), tv)
      pure val r6 = judgeV(r5, "velocity of the image", k, at(o.get("vcp"), m), mirrorZ(at(o.get("vcp"), k)), tv)
      pure val r7 = judgeV(r6, "force of the image", k, at(o.get("force"), m), mirrorZ(at(o.get("force"), k)), tf)
      pure val r8 = judgeV(r7, "lift of the image", k, at(o.get("lift"), m), mirrorZ(at(o.get("lift"), k)), tf)
      judgeV(r8, "drag of the image", k, at(o.get("drag"), m), mirrorZ(at(o.get("drag"), k)), tf)
    })
  }
  // induced air on the water plane: "size" is the sum of the magnitudes of the panels' contributions
  pure def waterplane(o: Obs): Res =
    range(0, length(o.get("plane")) / 3).foldl(CLEAN, (r, k) =>
      judge(r, "vertical velocity on the water", k, at(o.get("planevel"), k).z, 0, o.get("planesize")[k] / 10^8 + 10^14))

  pure def check(act: str, o: Obs): Res =
    if (act == "lattice") latticeOf(o)
    else if (act == "built") built(o)
    else if (act == "elements") elements(o)
    else if (act == "areas") areas(o)
    else if (act == "inlet") inlet(o)
    else if (act == "influence") influence(o)
    else if (act == "circulation") circulation(o)
    else if (act == "pressure points") atPressurePoints(o)
    else if (act == "loads") loads(o)
    else if (act == "mirrored panels") mirroredPanels(o)
    else if (act == "mirrored flow") mirroredFlow(o)
    else if (act == "water plane") waterplane(o)
    else if (act == "totals") totals(o)
    else if (act == "keel") keel(o)
    else if (act == "centreline") centreline(o)
    else if (act == "moved") moved(o)
    else if (act == "components") components(o)
    else if (act == "column sums") columnSums(o)
    else if (act == "inlet sheet") inletSheet(o)
    else if (act == "stored") stored(o)
    else if (act == "sections") sections(o)
    else if (act == "series") series(o)
    else if (act == "plotted") plotted(o)
    else require(CLEAN, "unknown action", 0, act == "given")

  action init = all { which' = 0, pos' = 0, obs' = Map(), verdicts' = [CLEAN] }
  action step = any {
    all {
      pos < length(RUNS[which]),
      { val e = RUNS[which][pos]
        val o = merge(obs, e.f)
        all { which' = which, pos' = pos + 1, obs' = o, verdicts' = verdicts.replaceAt(which, both(verdicts[which], check(e.act, o))) } } },
    all { pos == length(RUNS[which]), which + 1 < length(RUNS), which' = which + 1, pos' = 0, obs' = Map(), verdicts' = verdicts.append(CLEAN) } }
}
