// Trace specification: a wing, the same wing in another stream, at the opposite incidence, with the
// other orientation of circulation, and as a mainsail standing on its image.
module wings {
  import num.* from "./num"
  import vec.* from "./vec"
  import trace.* from "./trace"
  import flow.* from "./flow"
  import wing.* from "./wing"
  const RUNS: List[List[Event]]
  var which: int
  var pos: int
  var obs: Obs
  var verdicts: List[Res]

  pure def wingIn(o: Obs): Wing = {
    pure val g = o.get("wing")
    { chord: g[0], half: g[1], aoa: g[2], nc: g[3], ns: g[4], stream: at(o.get("stream"), 0), rho: g[5] }
  }
  // the reported numbers of a wing belong together
  pure def reported(o: Obs): Res = {
    pure val w = wingIn(o)
    pure val f = o.get("force")
    pure val n = w.nc * w.ns
    pure val big = largest(f) + S / 10^12
    pure val c = coefficients(w, vectors(f))
    pure val tol = div(big * n, scale(w)) / 10^10 + 10^18
    pure val t = theory(w)
    pure val nv = apply(rotZ(-rad(w.aoa)), v3(0, S, 0))
    pure val r0 = require(CLEAN, "one force per panel", 0, length(f) == 3 * n and length(o.get("pressure")) == n)
    pure val r1 = judgeV(r0, "coefficients", 0, at(o.get("cxyz"), 0), c, tol)
    pure val r2 = judge(judge(r1, "lift coefficient", 0, o.get("cl")[0], c.y, tol), "drag coefficient", 0, o.get("cd")[0], c.x, tol)
    pure val r3 = judge(r2, "aspect ratio", 0, o.get("ar")[0], aspect(w), aspect(w) / 10^12)
    pure val r4 = judge(judge(r3, "lift of theory", 0, o.get("clth")[0], t.cl, iabs(t.cl) / 10^11 + 10^15), "drag of theory", 0, o.get("cdth")[0], t.cd, t.cd / 10^11 + 10^15)
    pure val r5 = judge(r4, "pressure coefficient", 0, o.get("cp")[0], div(sumList(o.get("pressure")), scale(w)),
                        div(largest(o.get("pressure")) * n, scale(w)) / 10^10 + 10^18)
    range(0, n).foldl(r5, (r, k) => judge(r, "pressure", k, o.get("pressure")[k], div(vdot(at(f, k), nv), panelArea(w)), div(big, panelArea(w)) / 10^10))
  }
  pure def sameForces(o: Obs, name: str, clause: str, f: V => V): Res = {
    pure val big = largest(o.get("force")) + S / 10^9
    range(0, length(o.get("force")) / 3).foldl(CLEAN, (r, k) => {
      pure val want = f(at(o.get("force"), k))
      judgeV(r, clause, k, at(o.get(name), k), want, (big + vmaxabs(want)) / 10^8)
    })
  }
  pure def sameCoefs(o: Obs, name: str, clause: str, f: V => V): Res = {
    pure val want = f(at(o.get("cxyz"), 0))
    judgeV(CLEAN, clause, 0, at(o.get(name), 0), want, vmaxabs(want) / 10^8 + S / 10^11)
  }
  pure def turned(o: Obs): Res = both(sameForces(o, "turnforce", "force, other orientation", v => v), sameCoefs(o, "turncxyz", "coefficients, other orientation", v => v))
  // density and speed changed: forces in proportion, coefficients unchanged
  pure def stream(o: Obs): Res = {
    pure val k = o.get("k")[0]
    pure val m = mul(div(o.get("rho2")[0], o.get("wing")[5]), sq(k))
    pure val pr = range(0, length(o.get("pressure"))).foldl(CLEAN, (r, i) => judge(r, "pressure in another stream", i, o.get("strpressure")[i], mul(m, o.get("pressure")[i]),
      mul(m + S, largest(o.get("pressure")) + S / 10^9) / 10^8))
    both(both(sameForces(o, "strforce", "force in another stream", v => vscale(m, v)), sameCoefs(o, "strcxyz", "coefficients in another stream", v => v)), pr)
  }
  // opposite incidence in a stream along x: mirrored in y
  pure def opposite(o: Obs): Res = {
    pure val r1 = both(sameForces(o, "oppforce", "force at the opposite incidence", v => mirrorY(v)), sameCoefs(o, "oppcxyz", "coefficients at the opposite incidence", v => mirrorY(v)))
    judge(judge(r1, "theory's lift is odd", 0, o.get("oppclth")[0], -o.get("clth")[0], S / 10^13), "theory's drag is even", 0, o.get("oppcdth")[0], o.get("cdth")[0], S / 10^13)
  }
  // panels of the sail: row by row, each from the water up; then the images, in increasing height too
  pure def asSail(o: Obs): Res = {
    pure val w = wingIn(o)
    pure val h = w.ns / 2
    pure val big = largest(o.get("force")) + S / 10^9
    pure val n = w.nc * w.ns
    pure val r1 = range(0, n).foldl(CLEAN, (r, k) => {
      pure val i = k / w.ns
      pure val j = k % w.ns
      pure val s = if (j >= h) i * h + (j - h) else n / 2 + i * h + j
      pure val r2 = judgeV(r, "force as a sail", k, at(o.get("sailforce"), s), at(o.get("force"), k), big / 10^8)
      judge(r2, "pressure as a sail", k, o.get("sailpressure")[s], o.get("pressure")[k], div(big, panelArea(w)) / 10^8)
    })
    pure val q = scale(w)
    // twice the sail above the water
    pure val t = range(0, n / 2).foldl(ZERO, (a, s) => vadd(a, at(o.get("sailforce"), s)))
    pure val tol = div(big * n, q) / 10^8
    judge(judge(r1, "lift coefficient as a sail", 0, o.get("cl")[0], div(2 * t.y, q), tol), "drag coefficient as a sail", 0, o.get("cd")[0], div(2 * t.x, q), tol)
  }
  pure def check(act: str, o: Obs): Res =
    if (act == "wing") reported(o)
    else if (act == "turned") turned(o)
    else if (act == "stream") stream(o)
    else if (act == "opposite") opposite(o)
    else if (act == "as sail") asSail(o)
    else require(CLEAN, "unknown action", 0, false)

  action init = all { which' = 0, pos' = 0, obs' = Map(), verdicts' = [CLEAN] }
  action step = any {
    all {
      pos < length(RUNS[which]),
      { val e = RUNS[which][pos]
        val o = merge(obs, e.f)
        all { which' = which, pos' = pos + 1, obs' = o, verdicts' = verdicts.replaceAt(which, both(verdicts[which], check(e.act, o))) } } },
    all { pos == length(RUNS[which]), which + 1 < length(RUNS), which' = which + 1, pos' = 0, obs' = Map(), verdicts' = verdicts.append(CLEAN) } }
}
