// P05: sequences of rotations of a set of points about one line.
module m_rotations {
  import num.* from "./num"
  import vec.* from "./vec"
  import draws.* from "./draws"

  // a line through two points, or through the origin (then only its direction counts)
  type Line = { a: V, b: V }
  var line: Line
  var pts: List[V]        // where the points are now
  var start: List[V]      // where they were
  var total: int          // the angle turned so far
  var angle: int          // the angle of the last turn
  var how: int            // 0 about the line, 1 about the parallel through the origin
  var m: M                // the rotation of the last turn
  var turns: int

  pure def direction(r: Raw, k: int): V = {
    pure val big = [1000, 1, 1000000, 12345][choose(r, k, 4)]
    pure val s = if (oneIn(r, k + 1, 2)) milli(big) else -milli(big)
    pure val c = choose(r, k + 2, 8)
    if (c == 0) v3(s, 0, 0) else if (c == 1) v3(0, s, 0) else if (c == 2) v3(0, 0, s)
    else if (c == 3) v3(s, uni(r, k + 3, -3000, 3000), 0) else if (c == 4) v3(0, s, uni(r, k + 3, -3000, 3000))
    else if (c == 5) v3(uni(r, k + 3, -3000, 3000), 0, s)
    else v3(s, uni(r, k + 3, -5000, 5000), uni(r, k + 4, -5000, 5000))
  }
  pure def lineOf(r: Raw): Line = {
    pure val a = if (oneIn(r, 0, 4)) ZERO else point(r, 1, 8000)
    { a: a, b: vadd(a, direction(r, 4)) }
  }
  pure def pointsOf(r: Raw, l: Line): List[V] =
    range(0, 1 + choose(r, 10, 6)).foldl([], (acc, i) => acc.append(
      if (oneIn(r, 11 + 4 * i, 5)) vlerp(l.a, l.b, r.get(12 + 4 * i) % 3000 - 1000, 1000)   // on the line
      else if (oneIn(r, 11 + 4 * i, 7)) ZERO
      else point(r, 12 + 4 * i, 12000)))
  pure def angleOf(r: Raw, k: int): int = {
    pure val c = choose(r, k, 12)
    if (c == 0) 0 else if (c >= 10) fine(r, k + 1, -1000, 1000) / [1000000, 100000000, 10000000000][choose(r, k + 2, 3)] else if (c == 1) PI else if (c == 2) PI / 2 else if (c == 3) -PI / 2 else if (c == 4) -TWOPI
    else if (c == 5) fine(r, k + 1, -1, 1) else if (c == 6) fine(r, k + 1, -12000, 12000) else fine(r, k + 1, -3200, 3200)
  }

  action init = {
    nondet raw = SLOTS.setOfMaps(1.to(DRAWS)).oneOf()
    pure val l = lineOf(raw)
    pure val ps = pointsOf(raw, l)
    all { line' = l, pts' = ps, start' = ps, total' = 0, angle' = 0, how' = choose(raw, 50, 2), m' = rodrigues(EZ, 0), turns' = 0 }
  }
  action turnBy(th: int): bool = {
    val r = rodrigues(vsub(line.b, line.a), th)
    val o = if (how == 0) line.a else ZERO
    all { m' = r, pts' = pts.foldl([], (acc, p) => acc.append(turn(r, o, p))), total' = total + th, angle' = th, turns' = turns + 1,
          line' = line, start' = start, how' = how }
  }
  action step = all {
    turns < 4,
    if (turns < 3) { nondet raw = SLOTS.setOfMaps(1.to(DRAWS)).oneOf() turnBy(angleOf(raw, 0)) }
    else turnBy(-total) }

  // ---- properties of the specification itself (P05)
  pure def near(a: int, b: int): bool = iabs(a - b) <= micro(1) / 1000000000
  pure def close(a: V, b: V): bool = near(a.x, b.x) and near(a.y, b.y) and near(a.z, b.z)
  val proper = and { near(det(m), S), close(mmul(m, transpose(m)).r1, EX), close(mmul(m, transpose(m)).r2, EY), close(mmul(m, transpose(m)).r3, EZ) }
  val rigid = range(0, length(pts)).foldl(true, (ok, i) => ok and near(
    vdot(vsub(pts[i], pts[0]), vsub(pts[i], pts[0])), vdot(vsub(start[i], start[0]), vsub(start[i], start[0]))))
  // turning in steps is turning by the sum
  val additive = {
    val r = rodrigues(vsub(line.b, line.a), total)
    val o = if (how == 0) line.a else ZERO
    range(0, length(pts)).foldl(true, (ok, i) => ok and close(pts[i], turn(r, o, start[i])))
  }
  val restored = turns == 4 implies range(0, length(pts)).foldl(true, (ok, i) => ok and close(pts[i], start[i]))
  val inv = proper and rigid and additive and restored
}
