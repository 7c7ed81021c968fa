// Turns arbitrary draws into cases: a boat, a wind, reference points.  All the choice is in the
// draws (a map slot -> 1..10^6), so that one nondeterministic pick yields one whole case.
module cases {
  import num.* from "./num"
  import vec.* from "./vec"
  import shape.* from "./shape"
  import rig.* from "./rig"
  import wind.* from "./wind"
  import draws.* from "./draws"

  // turn: the sense in which the solver counts circulations; nothing else may depend on it
  type Case = { boat: Boat, air: Air, ref: V, clr: V, keelOn: bool, turn: int }
  // girth positions: 0 and 1 and n - 2 ordered ones in between
  pure def girthsOf(r: Raw, k: int, n: int): List[int] = range(0, n).foldl([], (l_i, i) => l_i.append(
    if (i == 0) 0 else if (i == n - 1) S
    else milli(1000 * i / (n - 1) + (if (oneIn(r, k, 2)) 0 else (r.get(k + i) % 200 - 100) / n))))
  // a distribution from a at the foot to b at the head with a wiggle of at most w
  pure def dist(r: Raw, k: int, gs: List[int], a: int, b: int, w: int): List[int] =
    range(0, length(gs)).foldl([], (l_i, i) => l_i.append( a + mul(b - a, gs[i]) + w * (r.get(k + i) % 201 - 100) / 100))

  pure def same(n: int, v: int): List[int] = range(0, n).foldl([], (l, i) => l.append(v))
  // a distribution that is the same at foot and head but not in between
  pure def bulge(r: Raw, k: int, gs: List[int], ends: int, more: int): List[int] =
    range(0, length(gs)).foldl([], (l, i) => l.append(if (i == 0 or i == length(gs) - 1) ends else ends + mul(more, mul(4 * gs[i], S - gs[i])) + more * (r.get(k + i) % 21 - 10) / 100))
  // the same everywhere but at one place
  pure def single(r: Raw, k: int, n: int, all_: int, one: int): List[int] =
    range(0, n).foldl([], (l, i) => l.append(if (i == choose(r, k, n)) one else all_))

  // uses 60 slots
  pure def dataOf(r: Raw, k: int, interp: int): Data = {
    pure val n = if (interp == 0) [2, 3, 4, 5, 7][choose(r, k, 5)] else [4, 5, 6, 7][choose(r, k, 4)]
    pure val gs = girthsOf(r, k + 1, n)
    pure val foot = uni(r, k + 9, 1500, 4500)
    pure val top = uni(r, k + 10, 400, 2500)
    pure val chords = if (oneIn(r, k + 11, 6)) same(n, foot) else if (oneIn(r, k + 11, 7)) bulge(r, k + 12, gs, top, foot - top) else dist(r, k + 12, gs, foot, top, milli(80))
    // ... to a point
    pure val pointed = if (oneIn(r, k + 59, 9)) dist(r, k + 12, gs, foot, 0, 0) else chords
    pure val tw0 = uni(r, k + 20, -8000, 22000)
    pure val tw1 = uni(r, k + 21, -8000, 30000)
    pure val tk = choose(r, k + 22, 11)
    pure val twist = if (tk == 0) same(n, tw0) else if (tk == 1) same(n, 0) else if (tk == 2) bulge(r, k + 23, gs, tw0, tw1 - tw0)
      else if (tk == 3) single(r, k + 23, n, tw0, tw1) else if (tk == 4) single(r, k + 23, n, 0, tw1)
      // hundredths of a degree make a twisted sail, too
      else if (tk == 10) dist(r, k + 23, gs, tw0, tw0 + tw1 / 800, 0) else dist(r, k + 23, gs, tw0, tw1, milli(800))
    pure val c0 = uni(r, k + 31, 30, 140)
    pure val c1 = uni(r, k + 32, 30, 140)
    pure val ck = choose(r, k + 33, 10)
    pure val camber = if (ck <= 1) same(n, 0) else if (ck == 2) same(n, c0) else if (ck == 3) bulge(r, k + 34, gs, c0, c1 - c0) else if (ck == 4) bulge(r, k + 34, gs, 0, c1)
      else if (ck == 5) single(r, k + 34, n, c0, c1) else dist(r, k + 34, gs, c0, c1, milli(8))
    pure val p0 = uni(r, k + 42, 250, 700)
    pure val p1 = uni(r, k + 43, 250, 700)
    pure val pk = choose(r, k + 44, 10)
    pure val pos = if (pk <= 1) same(n, S / 2) else if (pk == 2) same(n, p0) else if (pk == 3) bulge(r, k + 45, gs, p0, p1 - p0) else if (pk == 4) single(r, k + 45, n, p0, p1)
      else if (pk == 5) dist(r, k + 45, gs, uni(r, k + 42, 60, 880), uni(r, k + 43, 60, 880), 0) else dist(r, k + 45, gs, p0, p1, milli(25))
    { girths: gs, chords: pointed, twist: twist, camber: camber, pos: pos }
  }
  // uses 8 slots
  pure def rigOf(r: Raw, k: int): Rig = {
    mainLuff: uni(r, k, 4000, 13000), jibLuff: uni(r, k + 1, 3500, 12000), height: uni(r, k + 2, 4000, 13000),
    base: uni(r, k + 3, 1500, 4500), sheer: uni(r, k + 4, 500, 1800), boom: if (oneIn(r, k + 5, 9)) 0 else uni(r, k + 5, 600, 2000),
    rake: if (oneIn(r, k + 6, 5)) milli(90000) else if (oneIn(r, k + 6, 7)) uni(r, k + 6, 60000, 125000) else uni(r, k + 6, 83000, 98000),
    loa: if (oneIn(r, k + 7, 4)) 0 else uni(r, k + 7, 50, 400) }

  pure def angleOf(r: Raw, k: int, most: int): int =
    if (oneIn(r, k, 6)) 0 else if (oneIn(r, k, 7)) uni(r, k + 1, -most * 8 / 5, most * 8 / 5) else uni(r, k + 1, -most, most)

  // slots 0..19 boat, 20..79 jib, 80..139 main
  pure def boatOf(r: Raw, grid: (int, int)): Boat = {
    pure val interp = choose(r, 0, 2)
    pure val jib = dataOf(r, 20, interp)
    pure val rig = rigOf(r, 1)
    pure val heel = angleOf(r, 10, 32000)
    pure val leeway = angleOf(r, 12, 14000)
    { rig: if (oneIn(r, 2, 9)) { ...rig, mainLuff: rig.jibLuff } else rig, jib: jib, mainsail: if (oneIn(r, 139, 9)) jib else dataOf(r, 80, interp), sails: choose(r, 9, 3),
      heel: heel, leeway: if (oneIn(r, 12, 11)) -heel / 2 else if (oneIn(r, 12, 13)) 4 * leeway else leeway, twistMode: choose(r, 14, 3), interp: interp, nc: grid._1, ns: grid._2 }
  }
  pure def airOf(r: Raw): Air = {
    kind: choose(r, 15, 3),
    alpha: if (oneIn(r, 16, 8)) milli([0, 90000, 180000, -90000, -180000, 270000, 200000, 35000][choose(r, 140, 8)])
      // ... or all but from there
      else if (oneIn(r, 16, 9)) milli([0, 90000, 180000, -90000, -180000, 270000, 45000, -45000][choose(r, 140, 8)]) + micro((r.get(16) / 9) % 30001 - 15000) else uni(r, 16, -180000, 180000),
    tws: uni(r, 17, if (oneIn(r, 141, 6)) 200 else 1000, 11000), sog: if (oneIn(r, 18, 8)) 0 else uni(r, 18, 500, 6000),
    coeff: if (oneIn(r, 19, 12)) 0 else uni(r, 19, 50, 400), href: uni(r, 142, 2000, 14000),
    level: if (oneIn(r, 143, 2)) 0 else if (oneIn(r, 143, 7)) uni(r, 143, 0, 50) else uni(r, 143, -1500, 0), rough: uni(r, 144, 1, 40),
    rho: if (oneIn(r, 145, 10)) milli(1000000) else uni(r, 145, 900, 1400) }
  pure def refOf(r: Raw): V = if (oneIn(r, 146, 5)) ZERO else {
    pure def coord(k: int, lo: int, hi: int): int = if (oneIn(r, 150, k)) 0 else if (oneIn(r, 145 + k, 9)) uni(r, 145 + k, lo, hi) / 5000 else uni(r, 145 + k, lo, hi)
    // a fifth of them deep under the water or high above the boat
    v3(coord(2, -4000, 4000), coord(3, -2000, 2000), if (oneIn(r, 148, 5)) uni(r, 150, -14000, 14000) else coord(5, -1500, 3000)) }
  pure def clrOf(r: Raw): V = v3(if (oneIn(r, 151, 3)) 0 else uni(r, 151, -1500, 3000), if (oneIn(r, 152, 3)) 0 else if (oneIn(r, 152, 8)) uni(r, 152, -900, 900) / 2000 else uni(r, 152, -900, 900),
    if (oneIn(r, 153, 6)) 0 else uni(r, 153, -3000, 800))
  // a swept wing standing on the water: the mainsail without heel, its foot on the water line
  pure def standing(r: Raw, b: Boat): Boat = {
    pure val upright = oneIn(r, 6, 5)
    pure val n = length(b.mainsail.girths)
    { ...b, sails: 1, heel: 0,
      rig: { ...b.rig, sheer: 0, boom: 0, rake: if (upright) milli(90000) else uni(r, 6, 55000, 140000) },
      // twist would lower a raked wing's foot into the water
      mainsail: { ...b.mainsail, twist: if (upright) b.mainsail.twist else same(n, 0) } } }
  // a mainsail let out on a mast that leans far forward of the deck: its clew comes below its tack
  pure def leaning(r: Raw, b: Boat): Boat = {
    pure val n = length(b.mainsail.girths)
    pure val a = uni(r, 20, 75000, 110000) * (if (oneIn(r, 21, 2)) -1 else 1)
    { ...b, sails: 1, rig: { ...b.rig, rake: uni(r, 6, 35000, 62000), mainLuff: uni(r, 25, 3500, 7000), sheer: uni(r, 26, 2500, 4500), boom: b.rig.boom / 2 },
      mainsail: { ...b.mainsail, chords: if (oneIn(r, 22, 2)) same(n, uni(r, 23, 3000, 5000)) else b.mainsail.chords,
        twist: if (oneIn(r, 24, 2)) same(n, a) else dist(r, 27, b.mainsail.girths, a, mul(a, milli(900)), milli(800)) } } }
  pure val CASE_SLOTS: Set[int] = 0.to(161)
  pure def caseOf(r: Raw, grid: (int, int)): Case = {
    pure val b = boatOf(r, grid)
    pure val air = airOf(r)
    // next to no wind
    pure def faint(a: Air, k: int): Air = { ...a, tws: a.tws / k, sog: a.sog / k }
    // sails sheeted to where they run before the wind
    pure def eased(d: Data, a: int): Data = { ...d, twist: d.twist.foldl([], (l, t) => l.append(t + a)) }
    pure val b2 = if (oneIn(r, 158, 8)) { pure val a = uni(r, 159, 50000, 110000) * (if (oneIn(r, 158, 3)) -1 else 1) { ...b, jib: eased(b.jib, a), mainsail: eased(b.mainsail, a) } } else b
    pure val c = { boat: if (oneIn(r, 156, 9)) standing(r, b) else if (oneIn(r, 161, 9)) leaning(r, b) else b2, air: if (oneIn(r, 160, 10)) faint(air, [30, 1000, 30000][choose(r, 159, 3)]) else air, ref: refOf(r), clr: clrOf(r), keelOn: not(oneIn(r, 154, 3)), turn: if (oneIn(r, 149, 4)) 1 else -1 }
    // whole metres, degrees, metres per second
    if (oneIn(r, 157, 7)) whole(c)
    // a dinghy, a model, a ship
    else if (oneIn(r, 155, 6)) larger(c, milli([300, 50, 5000][choose(r, 154, 3)])) else c
  }

  pure def nearest(least: int, x: int): int = imax(least, (x + 1000 * S + S / 2) / S * S - 1000 * S)
  pure def nearestOf(least: int, l: List[int]): List[int] = l.foldl([], (a, x) => a.append(nearest(least, x)))
  pure def nearestV(v: V): V = v3(nearest(-1000 * S, v.x), nearest(-1000 * S, v.y), nearest(-1000 * S, v.z))
  pure def whole(c: Case): Case = {
    pure val g = -1000 * S
    pure val r = c.boat.rig
    pure def data(d: Data): Data = { ...d, chords: nearestOf(S, d.chords), twist: nearestOf(g, d.twist) }
    { ...c, ref: nearestV(c.ref), clr: nearestV(c.clr),
      boat: { ...c.boat, heel: nearest(g, c.boat.heel), leeway: nearest(g, c.boat.leeway), jib: data(c.boat.jib), mainsail: data(c.boat.mainsail),
        rig: { mainLuff: nearest(S, r.mainLuff), jibLuff: nearest(S, r.jibLuff), height: nearest(S, r.height), base: nearest(S, r.base), sheer: if (r.sheer == 0) 0 else nearest(S, r.sheer),
               boom: nearest(0, r.boom), rake: nearest(S, r.rake), loa: r.loa } },
      air: { ...c.air, alpha: nearest(g, c.air.alpha), tws: nearest(S, c.air.tws), sog: nearest(0, c.air.sog), href: nearest(S, c.air.href), level: nearest(g, c.air.level), rho: nearest(S, c.air.rho) } } }

  pure def scaledList(k: int, l: List[int]): List[int] = l.foldl([], (a, x) => a.append(mul(k, x)))
  // the same case in another size
  pure def larger(c: Case, k: int): Case = {
    pure val r = c.boat.rig
    pure val r2 = { mainLuff: mul(k, r.mainLuff), jibLuff: mul(k, r.jibLuff), height: mul(k, r.height), base: mul(k, r.base), sheer: mul(k, r.sheer),
                    boom: mul(k, r.boom), rake: r.rake, loa: mul(k, r.loa) }
    pure val a = { ...c.air, href: mul(k, c.air.href), level: mul(k, c.air.level), rough: mul(k, c.air.rough) }
    { ...c, boat: { ...c.boat, rig: r2, jib: { ...c.boat.jib, chords: scaledList(k, c.boat.jib.chords) },
                                        mainsail: { ...c.boat.mainsail, chords: scaledList(k, c.boat.mainsail.chords) } },
            air: a, ref: vscale(k, c.ref), clr: vscale(k, c.clr) }
  }

  // preconditions of the model: sails above the water, every section an accepted one
  pure def sound(b: Boat): bool = {
    pure val sails = buildSails(b)
    and {
      if (b.rig.sheer > 0) 5 * lowest(sails) > b.rig.sheer
        else (b.heel == 0 and lowest(sails) >= 0 - S / 10^12),
      sails.foldl(true, (a, s) => a and range(0, length(s.st.chords)).foldl(true, (q, i) =>
        q and (10 * s.st.chords[i] > b.rig.sheer or (s.st.chords[i] == 0 and i == length(s.st.chords) - 1)) and (s.st.camber[i] == 0 or s.st.camber[i] > milli(2)) and s.st.camber[i] < milli(290)
          and s.st.pos[i] > milli(20) and s.st.pos[i] < milli(890)))
    }
  }
}
