// The whole vortex lattice solution for given panels and winds: circulations, velocities, loads.
// Signs are those of a unit vortex along the span of each panel, so that nothing depends on an
// orientation chosen for the circulation.
module flow {
  import num.* from "./num"
  import vec.* from "./vec"
  import rig.* from "./rig"
  import panel.* from "./panel"
  import vortex.* from "./vortex"

  type Flow = { ok: bool, gamma: List[int], wind: List[V], vind: List[V], force: List[V], lift: List[V], drag: List[V], pressure: List[int] }
  pure val NO_FLOW: Flow = { ok: false, gamma: [], wind: [], vind: [], force: [], lift: [], drag: [], pressure: [] }

  pure def areaOf(q: Panel): int = area1(q)
  // what panel j does at p
  pure def unitAt(p: V, g: Ring, wake: bool, w: V): Vel =
    if (wake) horseshoe2(p, g.a, g.b, g.c, g.d, w) else ring(p, g.a, g.b, g.c, g.d)

  // panels in sails (and images) of nc rows of ns each; areas as given
  pure def solved(ps: List[Panel], nc: int, ns: int, winds: List[V], rho: int, areas: List[int]): Flow = {
    pure val n = length(ps)
    pure val rs = range(0, n).foldl([], (l, k) => l.append(ringOf(ps, nc, ns, k)))
    pure val nvs = range(0, n).foldl([], (l, k) => l.append(normalOf(ps[k])))
    pure def row(p: V): List[Vel] = range(0, n).foldl([], (l, j) => l.append(unitAt(p, rs[j], trailing(nc, ns, j), winds[j])))
    pure val atControl = range(0, n).foldl([], (l, i) => l.append(row(control(ps[i]))))
    pure val atPressure = range(0, n).foldl([], (l, i) => l.append(row(pressurePoint(ps[i]))))
    pure val unsure = atControl.concat(atPressure).foldl(false, (a, r) => a or r.foldl(false, (b, u) => b or u.unsure))
    pure val mat = range(0, n).foldl([], (l, i) => l.append(range(0, n).foldl([], (m, j) => m.append(vdot(atControl[i][j].v, nvs[i])))))
    pure val rhs = range(0, n).foldl([], (l, i) => l.append(-vdot(winds[i], nvs[i])))
    pure val sol = solve(mat, rhs)
    if (unsure or not(sol.ok)) NO_FLOW else {
      pure val gs = sol.x
      pure val vind = range(0, n).foldl([], (l, i) => l.append(
        range(0, n).foldl(ZERO, (a, j) => vadd(a, vscale(gs[j], atPressure[i][j].v)))))
      // strength of the bound vortex: own circulation less that of the panel in front
      pure val bound = range(0, n).foldl([], (l, i) => l.append(
        vscale(if (i % (nc * ns) < ns) gs[i] else gs[i] - gs[i - ns], vsub(quarterHigh(ps[i]), quarterLow(ps[i])))))
      pure def kutta(v: List[V]): List[V] = range(0, n).foldl([], (l, i) => l.append(vscale(rho, vcross(v[i], bound[i]))))
      pure val v = range(0, n).foldl([], (l, i) => l.append(vadd(winds[i], vind[i])))
      pure val f = kutta(v)
      { ok: true, gamma: gs, wind: winds, vind: vind, force: f, lift: kutta(winds), drag: kutta(vind),
        pressure: range(0, n).foldl([], (l, i) => l.append(div(vdot(f[i], nvs[i]), areas[i]))) }
    }
  }
}
