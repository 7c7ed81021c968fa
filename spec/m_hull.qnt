// P21: the deck outline and the centre of lateral resistance, from upright to the sailing position.
module m_hull {
  import num.* from "./num"
  import vec.* from "./vec"
  import shape.* from "./shape"
  import rig.* from "./rig"
  import draws.* from "./draws"

  // half breadths: the NACA section of 1 % camber and 28 % thickness run backwards, pointed at the stern's end of x
  pure val N: int = 51
  pure val FOIL: List[Pt] = section(S / 100, 0, 28 * S / 100, N)

  type Lines = { centre: List[V], port: List[V], starboard: List[V], portBelow: List[V], starboardBelow: List[V] }
  pure val NOTHING: Lines = { centre: [], port: [], starboard: [], portBelow: [], starboardBelow: [] }
  pure def along(base: int, x: int): int = -11 * base / 10 + 3 * mul(base, x)
  pure def upright(base: int, sheer: int): Lines = {
    pure val c = range(0, N).foldl([], (acc, i) => acc.append(v3(along(base, ratio(i, N - 1)), 0, sheer)))
    pure val p = range(0, N).foldl([], (acc, i) => acc.append(v3(along(base, FOIL[i].xu), 3 * mul(base, FOIL[N - 1 - i].yu), sheer)))
    pure val s = range(0, N).foldl([], (acc, i) => acc.append(v3(along(base, FOIL[i].xl), 3 * mul(base, FOIL[N - 1 - i].yl), sheer)))
    { centre: c, port: p, starboard: s, portBelow: mirrored(p), starboardBelow: mirrored(s) }
  }
  pure def mirrored(l: List[V]): List[V] = l.foldl([], (acc, q) => acc.append(mirrorZ(q)))
  pure def turned(m: M, l: List[V]): List[V] = l.foldl([], (acc, q) => acc.append(apply(m, q)))
  pure def sailed(u: Lines, heel: int, leeway: int): Lines = {
    pure val m = sailing(heel, leeway)
    pure val b = sailingBelow(heel, leeway)
    { centre: turned(m, u.centre), port: turned(m, u.port), starboard: turned(m, u.starboard),
      portBelow: turned(b, u.portBelow), starboardBelow: turned(b, u.starboardBelow) }
  }

  var heel: int
  var leeway: int
  var base: int
  var sheer: int
  var clr0: V
  var clr: V
  var lines: Lines
  var stage: str

  action init = {
    nondet r = SLOTS.setOfMaps(1.to(DRAWS)).oneOf()
    pure val b = uni(r, 4, 300, 9000)
    pure val d = uni(r, 5, 1, 4000)
    pure val c = v3(uni(r, 6, -5000, 5000), if (oneIn(r, 7, 3)) 0 else uni(r, 7, -2000, 2000),
                    if (oneIn(r, 8, 5)) 0 else uni(r, 8, -4000, 4000))
    all {
      heel' = if (oneIn(r, 0, 8)) 0 else if (oneIn(r, 1, 4)) fine(r, 1, -89000, 89000) else fine(r, 1, -40000, 40000),
      leeway' = if (oneIn(r, 2, 8)) 0 else if (oneIn(r, 3, 6)) fine(r, 3, -180000, 180000) else fine(r, 3, -15000, 15000),
      base' = b, sheer' = d, clr0' = if (oneIn(r, 9, 8)) ZERO else c, clr' = c, lines' = NOTHING, stage' = "drawn" }
  }
  action lay = all {
    stage == "drawn", lines' = upright(base, sheer), clr' = clr0, stage' = "upright",
    heel' = heel, leeway' = leeway, base' = base, sheer' = sheer, clr0' = clr0 }
  action sail = all {
    stage == "upright", lines' = sailed(lines, heel, leeway), clr' = apply(sailing(heel, leeway), clr0), stage' = "sailing",
    heel' = heel, leeway' = leeway, base' = base, sheer' = sheer, clr0' = clr0 }
  action step = any { lay, sail }

  pure val TINY: int = S / 10^15
  pure def near(a: int, b: int): bool = iabs(a - b) <= TINY * 20
  // deck plane and extent while upright
  val onDeck = stage == "upright" implies and {
    lines.centre.foldl(true, (a, q) => a and q.z == sheer and q.y == 0),
    lines.port.foldl(true, (a, q) => a and q.z == sheer),
    lines.starboard.foldl(true, (a, q) => a and q.z == sheer),
    near(lines.centre[0].x, -11 * base / 10), near(lines.centre[N - 1].x - lines.centre[0].x, 3 * base) }
  // the underwater lines are the images of the deck lines, sailing too; the water plane is the mirror
  val imaged = lines != NOTHING implies range(0, N).foldl(true, (a, i) => and { a,
    near(lines.portBelow[i].x, lines.port[i].x), near(lines.portBelow[i].y, lines.port[i].y), near(lines.portBelow[i].z, -lines.port[i].z),
    near(lines.starboardBelow[i].z, -lines.starboard[i].z) })
  // moving with the boat keeps distances: from the centre of lateral resistance to every point of the deck
  val rigid = stage == "sailing" implies {
    val u = upright(base, sheer)
    range(0, N).foldl(true, (a, i) => a and near(vnorm(vsub(lines.port[i], clr)), vnorm(vsub(u.port[i], clr0))))
  }
  val inv = onDeck and imaged and rigid
}
