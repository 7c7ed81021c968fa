// P04: upright -> sailing -> upright, and the centreline frame.
module m_frames {
  import num.* from "./num"
  import vec.* from "./vec"
  import rig.* from "./rig"
  import draws.* from "./draws"

  var heel: int
  var leeway: int
  var start: V           // upright
  var p: V               // current position of the mirrored transformation
  var plain: V           // sailing position without mirroring
  var stays: bool        // heel leaves the point on its side of the water
  var vs: List[V]        // vectors in the course frame, and along the centreline
  var cow: List[V]
  var total: V           // sum over the first half
  var stage: str

  pure def heelOf(r: Raw): int = {
    pure val c = choose(r, 0, 8)
    if (c == 0) 0 else if (c == 1) fine(r, 1, -89000, 89000) else if (c == 2) fine(r, 1, -10, 10) / [1, 1, 10000, 1000000][choose(r, 1, 4)] else fine(r, 1, -40000, 40000)
  }
  pure def leewayOf(r: Raw): int = {
    pure val c = choose(r, 2, 8)
    if (c == 0) 0 else if (c == 1) fine(r, 3, -180000, 180000) else if (c == 2) fine(r, 3, -10, 10) / [1, 1, 10000, 1000000][choose(r, 3, 4)] else fine(r, 3, -15000, 15000)
  }
  pure def pointOf(r: Raw): V = {
    pure val c = choose(r, 4, 8)
    pure val q = point(r, 5, 14000)
    if (c == 0) v3(q.x, q.y, 0) else if (c == 1) v3(q.x, 0, q.z) else if (c == 2) ZERO
    else if (c == 3) v3(q.x, q.y, micro(sgn(q.z) * (1 + choose(r, 8, 50))) / [1, 100, 10000, 1000000][choose(r, 9, 4)]) else if (c == 4) v3(q.x, q.y / 20, q.z) else q
  }
  pure def vectorsOf(r: Raw): List[V] = range(0, 2 * (1 + choose(r, 10, 3))).foldl([], (acc, i) => acc.append(
    if (oneIn(r, 11 + 4 * i, 8)) vscale(uni(r, 12 + 4 * i, -9000, 9000), v3(cos(rad(leewayOf(r))), sin(rad(leewayOf(r))), 0))
    else point(r, 12 + 4 * i, 20000)))
  pure def toSailing(q: V, h: int, l: int): V = apply(if (q.z > 0) sailing(h, l) else sailingBelow(h, l), q)
  pure def toUpright(q: V, h: int, l: int): V = apply(transpose(if (q.z > 0) sailing(h, l) else sailingBelow(h, l)), q)

  action init = {
    nondet raw = SLOTS.setOfMaps(1.to(DRAWS)).oneOf()
    pure val q = pointOf(raw)
    all { heel' = heelOf(raw), leeway' = leewayOf(raw), start' = q, p' = q, plain' = q, stays' = true, vs' = vectorsOf(raw), cow' = [], total' = ZERO, stage' = "upright" }
  }
  // heel and leeway applied
  action sail = all {
    stage == "upright",
    p' = toSailing(p, heel, leeway), plain' = apply(sailing(heel, leeway), p),
    stays' = { val s = toSailing(start, heel, leeway) if (start.z > 0) s.z > micro(1) / 1000000 else if (start.z < 0) s.z < -micro(1) / 1000000 else start.y == 0 or s.z < -micro(1) / 1000000 },
    stage' = "sailing", heel' = heel, leeway' = leeway, start' = start, vs' = vs, cow' = cow, total' = total }
  action right = all {
    stage == "sailing", p' = toUpright(p, heel, leeway), stage' = "righted",
    plain' = plain, stays' = stays, heel' = heel, leeway' = leeway, start' = start, vs' = vs, cow' = cow, total' = total }
  // a vector along the boat's own centreline is reported along x
  action report = {
    val r = rotZ(-rad(leeway))
    val c = vs.foldl([], (acc, v) => acc.append(apply(r, v)))
    all { stage == "righted", cow' = c, total' = vsum(c.slice(0, length(c) / 2)), stage' = "reported",
          p' = p, plain' = plain, stays' = stays, heel' = heel, leeway' = leeway, start' = start, vs' = vs }
  }
  action step = any { sail, right, report }

  pure def near(a: int, b: int): bool = iabs(a - b) <= micro(1) / 1000000000000
  val keepsLength = near(vnorm(p), vnorm(start)) and near(vnorm(plain), vnorm(start))
  val comesBack = (stage == "righted" and stays) implies (near(p.x, start.x) and near(p.y, start.y) and near(p.z, start.z))
  // positive heel takes a point above the boat to leeward
  val leeward = (stage == "sailing" and leeway == 0 and start.y == 0 and start.z > 0) implies sgn(p.y) == sgn(heel)
  // the transformation commutes with the mirror
  val mirrors = (stage == "sailing" and start.z != 0) implies toSailing(mirrorZ(start), heel, leeway) == mirrorZ(p)
  val inv = keepsLength and comesBack and leeward and mirrors
}
