// Trace specification: a run and a run of the varied case, related by the similarity laws.
module scaled {
  import num.* from "./num"
  import vec.* from "./vec"
  import trace.* from "./trace"
  const RUNS: List[List[Event]]
  var which: int
  var pos: int
  var obs: Obs
  var verdicts: List[Res]

  // powers of the density, the speed and the length; how it is reflected:
  // 0 not at all, 1 changes sign, 2 vector (y changes sign), 3 moment (x and z change sign)
  type Law = { name: str, density: int, speed: int, len: int, kind: int }
  pure val LAWS: List[Law] = [
    { name: "gamma", density: 0, speed: 1, len: 1, kind: 1 },
    { name: "wind", density: 0, speed: 1, len: 0, kind: 2 },
    { name: "vind", density: 0, speed: 1, len: 0, kind: 2 },
    { name: "vcp", density: 0, speed: 1, len: 0, kind: 2 },
    { name: "force", density: 1, speed: 2, len: 2, kind: 2 },
    { name: "lift", density: 1, speed: 2, len: 2, kind: 2 },
    { name: "drag", density: 1, speed: 2, len: 2, kind: 2 },
    { name: "pressure", density: 1, speed: 2, len: 0, kind: 1 },
    { name: "pcoef", density: 0, speed: 0, len: 0, kind: 1 },
    { name: "areas", density: 0, speed: 0, len: 2, kind: 0 },
    { name: "moment", density: 1, speed: 2, len: 3, kind: 3 },
    { name: "totf", density: 1, speed: 2, len: 2, kind: 2 },
    { name: "totm", density: 1, speed: 2, len: 3, kind: 3 },
    { name: "sailf", density: 1, speed: 2, len: 2, kind: 2 },
    { name: "sailm", density: 1, speed: 2, len: 3, kind: 3 },
    { name: "totfcow", density: 1, speed: 2, len: 2, kind: 2 },
    { name: "totmcow", density: 1, speed: 2, len: 3, kind: 3 },
    { name: "keelm", density: 1, speed: 2, len: 3, kind: 3 },
    { name: "allm", density: 1, speed: 2, len: 3, kind: 3 },
    { name: "ce", density: 0, speed: 0, len: 1, kind: 2 },
    { name: "seclift", density: 0, speed: 0, len: 0, kind: 0 },
    { name: "secdrag", density: 0, speed: 0, len: 0, kind: 0 } ]
  pure def power(k: int, n: int): int = range(0, n).foldl(S, (a, i) => mul(a, k))
  pure def flips(kind: int, i: int): bool =
    if (kind == 0) false else if (kind == 1) true else if (kind == 2) i % 3 == 1 else i % 3 != 1

  // vortex segments may be switched off within a fixed distance of a point, which does not scale: runs in which
  // a point passes in or out of it, or is on the verge, are not compared
  pure val CORE: int = 10^22
  pure def near(p: V, a: V, b: V, k: int): int = {
    pure val r1 = vsub(p, a)
    pure val r2 = vsub(p, b)
    pure val c = vcross(r1, r2)
    pure val x = mul(vdot(c, c), power(k, 4))
    // (lengths against the core as well)
    pure val l = mul(imin(vmaxabs(r1), vmaxabs(r2)), k)
    if (10 * x > 6 * CORE and 10 * x < 14 * CORE) 2 else if (x < CORE or l < CORE) 1 else 0
  }
  pure def corners(l: List[int], j: int): List[V] = [at(l, 4 * j), at(l, 4 * j + 1), at(l, 4 * j + 2), at(l, 4 * j + 3)]
  pure def crosses(o: Obs, k: int): bool = {
    pure val n = length(o.get("cp")) / 3
    pure val ps = vectors(o.get("control")).concat(vectors(o.get("cp")))
    pure val gs = range(0, n).foldl([], (l, j) => l.append(corners(o.get("rings"), j)))
    ps.foldl(false, (a, p) => a or gs.foldl(false, (b, g) => b or range(0, 4).foldl(false, (c, e) => c or {
      pure val s1 = near(p, g[e], g[(e + 1) % 4], S)
      pure val s2 = near(p, g[e], g[(e + 1) % 4], k)
      s1 != s2 or s1 == 2
    })))
  }

  pure def similar(o: Obs): Res = {
    pure val c = o.get("change")
    pure val reflect = c[3] == 1
    if (c[2] != S and crosses(o, c[2])) leave(CLEAN) else
    LAWS.foldl(CLEAN, (r, law) =>
      if (not(o.keys().contains(law.name))) r else {
        pure val a = o.get(law.name)
        pure val b = o.get(concatName(law.name))
        pure val m = mul(mul(power(c[0], law.density), power(c[1], law.speed)), power(c[2], law.len))
        // how exactly it is known: relative to the largest, for a centre of effort to the forces that make it up
        pure val base = if (law.name == "ce") div(mul(o.get("leverage")[0], S), o.get("netforce")[0]) + largest(a)
          else if (law.name == "totf" or law.name == "sailf" or law.name == "totfcow") o.get("forces")[0]
          else if (law.name == "moment" or law.name == "totm" or law.name == "sailm" or law.name == "totmcow" or law.name == "keelm" or law.name == "allm") o.get("leverage")[0]
          else if (law.name == "drag" or law.name == "vind") largest(o.get(if (law.name == "drag") "force" else "wind")) + largest(a)
          else if (law.name == "secdrag") largest(o.get("seclift")) + largest(a)
          else largest(a)
        pure val tol = mul(m, base) / 10^8 + 10^17
        // what is reported along the centreline of a turned boat is left to the totals' own specification (K1)
        if (c[4] != 0 and (law.name == "totfcow" or law.name == "totmcow")) r else {
          pure val sc = sincos(rad(c[4]))
          pure def flipped(i: int): int = if (reflect and flips(law.kind, i)) -mul(m, a[i]) else mul(m, a[i])
          pure def want(i: int): int = if (law.kind < 2 or i % 3 == 2 or c[4] == 0) flipped(i)
            else if (i % 3 == 0) mul(sc.c, flipped(i)) - mul(sc.s, flipped(i + 1))
            else mul(sc.s, flipped(i - 1)) + mul(sc.c, flipped(i))
          range(0, length(a)).foldl(require(r, law.name, -1, length(a) == length(b)), (s, i) => judge(s, law.name, i, b[i], want(i), tol))
        }
      })
  }
  // names of the second run's quantities
  pure val SECOND: str -> str = Map("gamma" -> "gamma2", "wind" -> "wind2", "vind" -> "vind2", "vcp" -> "vcp2", "force" -> "force2", "lift" -> "lift2", "drag" -> "drag2",
    "pressure" -> "pressure2", "pcoef" -> "pcoef2", "areas" -> "areas2", "moment" -> "moment2", "totf" -> "totf2", "totm" -> "totm2", "sailf" -> "sailf2", "sailm" -> "sailm2",
    "totfcow" -> "totfcow2", "totmcow" -> "totmcow2", "keelm" -> "keelm2", "allm" -> "allm2", "ce" -> "ce2", "seclift" -> "seclift2", "secdrag" -> "secdrag2")
  pure def concatName(n: str): str = SECOND.get(n)

  pure def check(act: str, o: Obs): Res =
    if (act == "base") CLEAN else if (act == "varied") similar(o) else require(CLEAN, "unknown action", 0, false)
  action init = all { which' = 0, pos' = 0, obs' = Map(), verdicts' = [CLEAN] }
  action step = any {
    all {
      pos < length(RUNS[which]),
      { val e = RUNS[which][pos]
        val o = merge(obs, e.f)
        all { which' = which, pos' = pos + 1, obs' = o, verdicts' = verdicts.replaceAt(which, both(verdicts[which], check(e.act, o))) } } },
    all { pos == length(RUNS[which]), which + 1 < length(RUNS), which' = which + 1, pos' = 0, obs' = Map(), verdicts' = verdicts.append(CLEAN) } }
}
