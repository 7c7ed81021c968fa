// P22: linear systems.  A matrix is drawn row by row; a singular one has a row or a column of zeros
// (dependent rows may come out as nearly singular in doubles).
module m_system {
  import num.* from "./num"
  import vec.* from "./vec"
  var kind: str
  var a: List[List[int]]
  var b: List[int]
  var x: List[int]

  action init = all { kind' = "none", a' = [], b' = [], x' = [] }
  action step = {
    nondet n = Set(1, 2, 3, 4, 5).oneOf()
    nondet singular = Set(true, false).oneOf()
    nondet e = 0.to(24).setOfMaps((-9).to(9)).oneOf()
    nondet rhs = 0.to(4).setOfMaps((-9).to(9)).oneOf()
    nondet at = 0.to(4).oneOf()
    nondet row = Set(true, false).oneOf()
    val m0 = range(0, n).foldl(List(), (l, i) => l.append(range(0, n).foldl(List(), (r, j) => r.append(e.get(5 * i + j)))))
    val i = at % n
    val m = if (not(singular)) m0 else range(0, n).foldl(List(), (l, u) => l.append(range(0, n).foldl(List(), (r, v) =>
      r.append(if (if (row) u == i else v == i) 0 else m0[u][v]))))
    val bb = range(0, n).foldl(List(), (r, j) => r.append(rhs.get(j)))
    val sol = solve(m.foldl(List(), (l, r) => l.append(r.foldl(List(), (q, v) => q.append(v * S)))), bb.foldl(List(), (q, v) => q.append(v * S)))
    all { kind' = if (sol.ok) "regular" else if (singular) "singular" else "unlucky", a' = m, b' = bb, x' = if (sol.ok) sol.x else List() }
  }
  // a made-up singular matrix is found singular, a solution solves
  val inv = kind != "regular" or a.indices().forall(i =>
    iabs(range(0, length(b)).foldl(0, (t, j) => t + a[i][j] * x[j]) - b[i] * S) < 10^15)
}
