// P18: a case and the same case in denser air, in a faster stream, of another size, reflected in y, at rest and
// turned about the vertical together with the wind, or carried along so that the wind it meets is the same.
module m_scales {
  import num.* from "./num"
  import vec.* from "./vec"
  import shape.* from "./shape"
  import rig.* from "./rig"
  import wind.* from "./wind"
  import draws.* from "./draws"
  import cases.* from "./cases"
  const GRIDS: List[(int, int)]
  // factors of density, speed and length; reflected in y; degrees turned; carried, with its speed over ground
  type Change = { density: int, speed: int, len: int, mirrored: bool, turned: int, carried: bool, drift: int }
  var cas: Case
  var varied: Case
  var change: Change
  var ok: bool
  var stage: str

  pure def negated(l: List[int]): List[int] = l.foldl([], (a, x) => a.append(-x))
  pure def zeros(l: List[int]): List[int] = l.foldl([], (a, x) => a.append(0))
  pure def denser(c: Case, k: int): Case = { ...c, air: { ...c.air, rho: mul(k, c.air.rho) } }
  pure def faster(c: Case, k: int): Case = { ...c, air: { ...c.air, tws: mul(k, c.air.tws), sog: mul(k, c.air.sog) } }
  pure def uncambered(c: Case): Case = { ...c, boat: { ...c.boat,
    jib: { ...c.boat.jib, camber: zeros(c.boat.jib.camber) }, mainsail: { ...c.boat.mainsail, camber: zeros(c.boat.mainsail.camber) },
    // the smallest twist of reversed twists is the reversed largest
    twistMode: if (c.boat.twistMode == 1) 2 else c.boat.twistMode } }
  pure def reflected(c: Case): Case = { ...c,
    boat: { ...c.boat, heel: -c.boat.heel, leeway: -c.boat.leeway, jib: { ...c.boat.jib, twist: negated(c.boat.jib.twist) },
                       mainsail: { ...c.boat.mainsail, twist: negated(c.boat.mainsail.twist) } },
    air: { ...c.air, alpha: -c.air.alpha }, ref: mirrorY(c.ref), clr: mirrorY(c.clr) }
  pure def about(d: int, v: V): V = apply(rotZ(rad(d)), v)
  pure def turnedBy(c: Case, d: int): Case = { ...c, boat: { ...c.boat, leeway: c.boat.leeway + d }, air: { ...c.air, alpha: c.air.alpha + d }, ref: about(d, c.ref) }
  pure def atRest(c: Case): Case = { ...c, air: { ...c.air, sog: 0 } }
  pure def uniform(c: Case): Case = { ...c, air: { ...c.air, kind: 0 } }
  // another speed over ground in another true wind: the same apparent wind
  pure def carriedAt(c: Case, sog: int): Case = {
    pure val w = apparentAt(c.air, S)
    pure val t = v3(w.x - sog, w.y, 0)
    { ...c, air: { ...c.air, sog: sog, tws: vnorm(t), alpha: angleDeg(t) } }
  }
  pure def factor(r: Raw, k: int, lo: int, hi: int): int = if (oneIn(r, k, 2)) S else uni(r, k, lo, hi)

  // as often smaller as larger
  pure def sized(r: Raw, k: int, small: int, big: int): int = if (oneIn(r, k, 3)) S else if (oneIn(r, k, 2)) uni(r, k + 4, small, 1000) else uni(r, k + 4, 1000, big)

  action init = {
    nondet raw = CASE_SLOTS.setOfMaps(1.to(DRAWS)).oneOf()
    nondet raw2 = 0.to(19).setOfMaps(1.to(DRAWS)).oneOf()
    nondet g = GRIDS.indices().oneOf()
    pure val c0 = caseOf(raw, GRIDS[g])
    pure val m = oneIn(raw2, 0, 3)
    pure val rest = oneIn(raw2, 10, 2)
    pure val even = oneIn(raw2, 11, 3)
    pure val c1 = if (m) uncambered(c0) else c0
    pure val c2 = if (rest) atRest(c1) else c1
    pure val c = if (even) uniform(c2) else c2
    all { cas' = c, varied' = c, ok' = true, stage' = "drawn",
      change' = { density: factor(raw2, 1, 100, 6000), speed: sized(raw2, 2, 20, 5000), len: sized(raw2, 3, 20, 20000), mirrored: m,
                 turned: if (rest) uni(raw2, 12, -180000, 180000) else 0, carried: even, drift: uni(raw2, 13, -4000, 8000) } }
  }
  action vary = {
    def apart(c: Case): Case = if (change.mirrored) reflected(c) else c
    def elsewhere(c: Case): Case = if (change.turned != 0) turnedBy(c, change.turned) else c
    def along(c: Case): Case = if (change.carried) carriedAt(c, change.drift) else c
    all { stage == "drawn", stage' = "varied", cas' = cas, change' = change,
      varied' = larger(faster(denser(along(elsewhere(apart(cas))), change.density), change.speed), change.len), ok' = sound(cas.boat) }
  }
  action step = vary
  pure def near(a: V, b: V): bool = vmaxabs(vsub(a, b)) <= (vmaxabs(a) + S) / 10^12
  // the geometry and the wind of the varied case scale as they should
  val inv = (stage == "varied" and ok) implies {
    val k = change.len
    val s1 = buildSails(cas.boat)
    val s2 = buildSails(varied.boat)
    s1.indices().forall(i => s1[i].above.indices().forall(j => s1[i].above[j].indices().forall(n => {
      def turned(v: V): V = about(change.turned, if (change.mirrored) mirrorY(v) else v)
      val w1 = apparentAt(cas.air, imax(s1[i].above[j][n].z, milli(100)))
      val w2 = apparentAt(varied.air, mul(k, imax(s1[i].above[j][n].z, milli(100))))
      and { near(s2[i].above[j][n], turned(vscale(k, s1[i].above[j][n]))), near(w2, turned(vscale(change.speed, w1))) }
    })))
  }
}
module scales { import m_scales(GRIDS=[(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (4, 4), (3, 6), (6, 3), (1, 10), (8, 12), (2, 30)]).* }
