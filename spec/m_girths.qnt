// P06: data given along the girth, evaluated at stations.
module m_girths {
  import num.* from "./num"
  import vec.* from "./vec"
  import shape.* from "./shape"
  import draws.* from "./draws"

  // a sail's table: girths and several quantities given there
  type Table = { xs: List[int], ys: List[List[int]] }
  var kind: int
  var jib: Table
  var mainsail: Table
  var n: int
  var atJib: List[List[int]]
  var atMain: List[List[int]]
  var cubic: int      // 1: the first quantity of the jib is a cubic polynomial
  var stage: str

  pure def tableOf(r: Raw, k: int, kd: int, cb: int): Table = {
    pure val m = if (kd == 0) 2 + choose(r, k, 8) else 4 + choose(r, k, 6)
    pure val even = oneIn(r, k + 1, 3)
    pure val xs = range(0, m).foldl([], (acc, i) => acc.append(
      if (i == 0) 0 else if (i == m - 1) S
      else if (even) ratio(i, m - 1) else micro(1000000 * i / (m - 1) + (r.get(k + 2 + i) % 700000 - 350000) / (m - 1))))
    pure val ys = range(0, 3).foldl([], (acc, q) => acc.append(xs.foldl([], (l, x) => l.append(
      if (q == 0 and cb == 1) uni(r, k + 11, -3000, 3000) + mul(x, uni(r, k + 12, -3000, 3000) + mul(x, uni(r, k + 13, -4000, 4000) + mul(x, uni(r, k + 14, -4000, 4000))))
      else if (q == 1 and oneIn(r, k + 15, 3)) uni(r, k + 16, -5000, 5000)
      else [uni(r, k + 17 + length(l) + 12 * q, -5000, 5000), uni(r, k + 17 + length(l) + 12 * q, 0, 40000)][choose(r, k + 15, 2)]))))
    // whole numbers
    { xs: xs, ys: if (oneIn(r, k + 2, 5)) ys.foldl([], (l, y) => l.append(y.foldl([], (q, v) => q.append(if (cb == 1 and length(l) == 0) v else (v + 9000 * S) / S * S - 9000 * S)))) else ys }
  }
  action init = {
    nondet raw = SLOTS.setOfMaps(1.to(DRAWS)).oneOf()
    pure val kd = choose(raw, 0, 2)
    pure val cb = choose(raw, 3, 2)
    all { kind' = kd, jib' = tableOf(raw, 5, kd, cb), mainsail' = tableOf(raw, 62, kd, 0), n' = [1, 2, 3, 4, 5, 6, 8, 11, 13, 26][choose(raw, 1, 10)], cubic' = cb,
          atJib' = [], atMain' = [], stage' = "given" }
  }
  action step = all {
    stage == "given", stage' = "evaluated",
    atJib' = jib.ys.foldl([], (l, y) => l.append(interpolate(kind, jib.xs, y, n))),
    atMain' = mainsail.ys.foldl([], (l, y) => l.append(interpolate(kind, mainsail.xs, y, n))),
    kind' = kind, jib' = jib, mainsail' = mainsail, n' = n, cubic' = cubic }

  pure def near(a: int, b: int): bool = iabs(a - b) <= micro(1) / 1000000000000
  // the ends are reproduced, linear data are reproduced everywhere, cubics by the spline
  val ends = stage == "evaluated" implies and {
    range(0, 3).foldl(true, (ok, q) => ok and near(atJib[q][0], jib.ys[q][0]) and (n == 1 or near(atJib[q][n - 1], jib.ys[q][length(jib.xs) - 1]))) }
  val polynomial = (stage == "evaluated" and kind == 1 and cubic == 1) implies {
    // fourth differences of a cubic at equal steps vanish
    range(0, imax(0, n - 4)).foldl(true, (ok, i) => ok and near(atJib[0][i] - 4 * atJib[0][i + 1] + 6 * atJib[0][i + 2] - 4 * atJib[0][i + 3] + atJib[0][i + 4], 0))
  }
  val inv = ends and polynomial
}
