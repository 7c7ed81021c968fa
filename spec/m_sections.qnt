// P07: four-digit sections, accepted or refused.
module m_sections {
  import num.* from "./num"
  import vec.* from "./vec"
  import shape.* from "./shape"
  import draws.* from "./draws"
  // a parameter that may be not-a-number
  type Param = { v: int, nan: bool }
  var mm: Param
  var pp: Param
  var tt: Param
  var n: int
  var verdict: str
  var pts: List[Pt]
  // the points that are looked at
  var picked: List[int]

  // inside, at the limits, just outside, far outside, not a number
  pure def param(r: Raw, k: int, top: int): Param = {
    pure val c = choose(r, k, 20)
    if (c == 0) { v: 0, nan: false } else if (c == 1) { v: top, nan: false }
    else if (c == 2) { v: top + micro(1 + choose(r, k + 1, 9)), nan: false } else if (c == 3) { v: -micro(1 + choose(r, k + 1, 9)), nan: false }
    else if (c == 4 and oneIn(r, k + 1, 2)) { v: 0, nan: true }
    else if (c == 5) { v: milli((r.get(k + 1) % 400 - 200) * 10), nan: false }
    else { v: mul(top, fine(r, k + 1, 0, 1000)), nan: false }
  }
  pure def count(r: Raw): int = [1, 2, 3, 4, 5, 6, 11, 21, 51, 101, 400 + choose(r, 7, 600), 1000 + choose(r, 7, 8000)][choose(r, 6, 12)]
  action init = {
    nondet raw = SLOTS.setOfMaps(1.to(DRAWS)).oneOf()
    all { mm' = param(raw, 0, milli(300)), pp' = param(raw, 2, milli(900)), tt' = param(raw, 4, milli(400)),
          verdict' = "asked", pts' = [],
          n' = count(raw), picked' = if (count(raw) <= 51) range(0, count(raw)) else [0, 1, 2, choose(raw, 8, count(raw)), choose(raw, 9, count(raw)),
            choose(raw, 10, count(raw)), count(raw) - 20, count(raw) - 7, count(raw) - 3, count(raw) - 2, count(raw) - 1] }
  }
  val good = not(mm.nan) and not(pp.nan) and not(tt.nan) and accepted(mm.v, pp.v, tt.v)
  action accept = all { verdict == "asked", good, verdict' = "accepted", pts' = sectionAt(mm.v, pp.v, tt.v, n, picked), picked' = picked, mm' = mm, pp' = pp, tt' = tt, n' = n }
  action refuse = all { verdict == "asked", not(good), verdict' = "refused", pts' = [], picked' = picked, mm' = mm, pp' = pp, tt' = tt, n' = n }
  action step = any { accept, refuse }

  pure def near(a: int, b: int): bool = iabs(a - b) <= micro(1) / 1000000000000
  // the camber line ends on the chord, its highest point is m, the upper and lower surface enclose it symmetrically
  val inv = verdict == "accepted" implies and {
    pp.v == 0 implies (n < 2 or near(pts[0].yc, mm.v)),
    pp.v != 0 implies near(pts[0].yc, 0),
    n > 1 implies near(pts[length(pts) - 1].yc, 0),
    n > 1 implies near(pts[length(pts) - 1].yt, 0),
    pts.foldl(true, (ok, q) => ok and q.yc <= mm.v + micro(1) / 1000000000000 and near(q.xu + q.xl, 2 * q.x) and near(q.yu + q.yl, 2 * q.yc)
      and near(sq(q.xu - q.xl) + sq(q.yu - q.yl), 4 * sq(q.yt)))
  }
}
