// The free-flying rectangular wing.
module wing {
  import num.* from "./num"
  import vec.* from "./vec"
  import rig.* from "./rig"
  import panel.* from "./panel"
  import flow.* from "./flow"
  import draws.* from "./draws"

  // the span is along z; ns panels over the whole span
  type Wing = { chord: int, half: int, aoa: int, nc: int, ns: int, stream: V, rho: int }
  pure def spot(w: Wing, i: int, j: int): V =
    apply(rotZ(-rad(w.aoa)), v3(w.chord * i / w.nc, 0, -w.half + 2 * w.half * j / w.ns))
  pure def wingPanels(w: Wing): List[Panel] = range(0, w.nc * w.ns).foldl([], (l, k) => l.append( {
    pure val i = k / w.ns
    pure val j = k % w.ns
    { se: spot(w, i + 1, j), sw: spot(w, i, j), nw: spot(w, i, j + 1), ne: spot(w, i + 1, j + 1) }
  }))
  pure def planform(w: Wing): int = 2 * mul(w.half, w.chord)
  pure def panelArea(w: Wing): int = planform(w) / (w.nc * w.ns)
  pure def aspect(w: Wing): int = div(2 * w.half, w.chord)
  // dynamic pressure times planform
  pure def scale(w: Wing): int = mul(mul(w.rho, vdot(w.stream, w.stream)) / 2, planform(w))
  pure def coefficients(w: Wing, f: List[V]): V = {
    pure val t = vsum(f)
    pure val q = scale(w)
    v3(div(t.x, q), div(t.y, q), div(t.z, q))
  }
  // linear theory with span efficiency 0.8
  pure def theory(w: Wing): { cl: int, cd: int } = {
    pure val are = 8 * aspect(w) / 10
    pure val slope = div(TWOPI, S + div(2 * S, are))
    pure val cl = mul(slope, rad(w.aoa))
    { cl: cl, cd: div(sq(cl), mul(PI, are)) }
  }
  pure def solution(w: Wing): Flow =
    solved(wingPanels(w), w.nc, w.ns, range(0, w.nc * w.ns).foldl([], (l, k) => l.append(w.stream)), w.rho,
           range(0, w.nc * w.ns).foldl([], (l, k) => l.append(panelArea(w))))

  pure def wingOf(r: Raw, nc: int, ns: int): Wing = {
    chord: uni(r, 0, 200, 4000), half: uni(r, 1, 400, 9000),
    aoa: if (oneIn(r, 2, 10)) 0 else if (oneIn(r, 3, 6)) uni(r, 3, -60000, 60000) else uni(r, 3, -14000, 14000), nc: nc, ns: ns,
    stream: if (oneIn(r, 4, 3)) v3(uni(r, 5, 800, 20000), uni(r, 6, -400, 400), uni(r, 7, -300, 300)) else v3(uni(r, 5, 800, 20000), 0, 0),
    rho: if (oneIn(r, 8, 4)) 1225 * S / 1000 else uni(r, 9, 500, 3000) }
}
// small wings with their complete solution
module m_wing {
  import num.* from "./num"
  import vec.* from "./vec"
  import rig.* from "./rig"
  import flow.* from "./flow"
  import draws.* from "./draws"
  import wing.*
  pure val GRIDS: List[(int, int)] = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1), (3, 2), (2, 3), (1, 5)]
  var w: Wing
  var sol: Flow
  var coefs: V
  var cp: int
  var stage: str
  action init = {
    nondet r = SLOTS.setOfMaps(1.to(DRAWS)).oneOf()
    nondet g = GRIDS.indices().oneOf()
    all { w' = wingOf(r, GRIDS[g]._1, GRIDS[g]._2), sol' = NO_FLOW, coefs' = ZERO, cp' = 0, stage' = "drawn" }
  }
  action fly = all { stage == "drawn", w' = w, sol' = solution(w), coefs' = ZERO, cp' = 0, stage' = "flown" }
  action weigh = all { stage == "flown", w' = w, sol' = sol, stage' = "weighed",
    coefs' = if (sol.ok) coefficients(w, sol.force) else ZERO, cp' = if (sol.ok) div(sumList(sol.pressure), scale(w)) else 0 }
  action step = any { fly, weigh }
  // the spanwise halves are images of each other when the stream has no component along the span; lift follows the incidence
  pure def near(a: int, b: int): bool = iabs(a - b) <= (iabs(a) + S) / 10^12
  val symmetric = (sol.ok and w.stream.z == 0) implies range(0, w.nc * w.ns).foldl(true, (a, k) =>
    a and near(sol.gamma[k], sol.gamma[(k / w.ns) * w.ns + w.ns - 1 - k % w.ns]))
  val lifting = (stage == "weighed" and sol.ok and w.stream.y == 0 and w.stream.z == 0) implies and {
    sgn(coefs.y) == sgn(w.aoa), coefs.x >= 0 - S / 10^9, iabs(coefs.z) < S / 10^12 }
  val inv = symmetric and lifting
}
// larger wings, for relations between runs
module m_wings {
  import num.* from "./num"
  import vec.* from "./vec"
  import draws.* from "./draws"
  import wing.*
  var w: Wing             // ns even
  var rho2: int
  var k: int              // factor of the speed
  action init = {
    nondet r = SLOTS.setOfMaps(1.to(DRAWS)).oneOf()
    pure val big = oneIn(r, 19, 6)
    pure val w0 = wingOf(r, 1 + choose(r, 20, if (big) 12 else 5), 2 * (1 + choose(r, 21, if (big) 16 else 6)))
    all { w' = { ...w0, stream: if (oneIn(r, 22, 4)) w0.stream else v3(w0.stream.x, 0, 0) }, rho2' = uni(r, 23, 100, 5000), k' = uni(r, 24, 100, 4000) }
  }
  action step = all { w' = w, rho2' = rho2, k' = k }
}
