// P08: winds at heights.
module m_wind {
  import num.* from "./num"
  import vec.* from "./vec"
  import wind.* from "./wind"
  import draws.* from "./draws"
  var air: Air
  var leeway: int
  var pts: List[V]      // points above the water and their images
  type Met = { tw: V, aw: V, tws: int, aws: int, awa: int, cow: int }
  var met: List[Met]
  var atRef: Met
  var stage: str

  pure def airOf(r: Raw): Air = {
    kind: choose(r, 0, 3),
    alpha: { pure val c = choose(r, 1, 12) if (c == 0) milli(90000) else if (c == 1) 0 else if (c == 2) milli(-90000) else if (c == 3) milli(180000)
      else if (c == 4) milli(90000 * (choose(r, 2, 5) - 2)) + micro((r.get(2) / 5) % 30001 - 15000) else uni(r, 2, -180000, 180000) },
    tws: if (oneIn(r, 3, 12)) 0 else uni(r, 4, 10, 25000), sog: if (oneIn(r, 5, 8)) 0 else if (oneIn(r, 16, 9)) uni(r, 6, -4000, -10) else uni(r, 6, 10, 9000),
    coeff: if (oneIn(r, 7, 8)) 0 else if (oneIn(r, 7, 7)) S else uni(r, 8, 20, 900), href: uni(r, 9, 1000, 20000),
    level: if (oneIn(r, 10, 3)) 0 else uni(r, 11, -3000, 100), rough: uni(r, 12, 1, 400), rho: uni(r, 13, 900, 1400) }
  pure def low(a: Air): bool = a.kind == 0 or (a.kind == 1 and a.level <= 0)   // profiles that reach down to the water
  action init = {
    nondet raw = SLOTS.setOfMaps(1.to(DRAWS)).oneOf()
    pure val above = range(0, 1 + choose(raw, 20, 5)).foldl([], (l, i) => l.append(
      v3(uni(raw, 21 + 4 * i, -5000, 5000), uni(raw, 22 + 4 * i, -5000, 5000), if (oneIn(raw, 24 + 4 * i, 5)) airOf(raw).href
         else if (low(airOf(raw)) and oneIn(raw, 17 + i, 4)) uni(raw, 23 + 4 * i, 1, 450) else uni(raw, 23 + 4 * i, 450, 19000))))
    all { air' = airOf(raw), leeway' = if (oneIn(raw, 14, 5)) 0 else uni(raw, 15, -15000, 15000),
          pts' = above.concat(above.foldl([], (l, p) => l.append(mirrorZ(p)))), met' = [], atRef' = { tw: ZERO, aw: ZERO, tws: 0, aws: 0, awa: 0, cow: 0 }, stage' = "given" }
  }
  pure def meet(a: Air, lw: int, h: int): Met = {
    pure val t = trueWind(a, h)
    pure val w = apparent(a, t)
    { tw: t, aw: w, tws: vnorm(t), aws: vnorm(w), awa: angleDeg(w), cow: angleDeg(w) - lw }
  }
  action step = all {
    stage == "given", stage' = "met", air' = air, leeway' = leeway, pts' = pts,
    met' = pts.foldl([], (l, p) => l.append(meet(air, leeway, iabs(p.z)))),
    atRef' = meet(air, leeway, air.href) }

  pure def near(a: int, b: int): bool = iabs(a - b) <= micro(1) / 1000000000000
  val images = stage == "met" implies { val h = length(met) / 2 range(0, h).foldl(true, (ok, i) => ok and met[i] == met[i + h]) }
  // at the reference height the wind is the reference wind
  val reference = (stage == "met" and (air.kind != 1 or air.level == 0)) implies near(vnorm(atRef.tw), iabs(air.tws))
  val horizontal = met.foldl(true, (ok, m) => ok and m.tw.z == 0 and m.aw.z == 0)
  val inv = images and reference and horizontal
}
