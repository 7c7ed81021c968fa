// Vectors, rotations and small linear algebra over fixed-point numbers.
module vec {
  import num.* from "./num"

  type V = { x: int, y: int, z: int }
  type M = { r1: V, r2: V, r3: V }

  pure val ZERO: V = { x: 0, y: 0, z: 0 }
  pure def v3(x: int, y: int, z: int): V = { x: x, y: y, z: z }
  pure def vadd(a: V, b: V): V = { x: a.x + b.x, y: a.y + b.y, z: a.z + b.z }
  pure def vsub(a: V, b: V): V = { x: a.x - b.x, y: a.y - b.y, z: a.z - b.z }
  pure def vneg(a: V): V = { x: -a.x, y: -a.y, z: -a.z }
  pure def vscale(k: int, a: V): V = { x: mul(k, a.x), y: mul(k, a.y), z: mul(k, a.z) }
  pure def vdot(a: V, b: V): int = (a.x * b.x + a.y * b.y + a.z * b.z) / S
  pure def vcross(a: V, b: V): V = {
    x: (a.y * b.z - a.z * b.y) / S, y: (a.z * b.x - a.x * b.z) / S, z: (a.x * b.y - a.y * b.x) / S }
  pure def vnorm(a: V): int = isqrt(a.x * a.x + a.y * a.y + a.z * a.z)
  pure def vunit(a: V): V = { pure val n = vnorm(a) { x: div(a.x, n), y: div(a.y, n), z: div(a.z, n) } }
  pure def vmid(a: V, b: V): V = { x: (a.x + b.x) / 2, y: (a.y + b.y) / 2, z: (a.z + b.z) / 2 }
  // a + (n/d) (b - a)
  pure def vlerp(a: V, b: V, n: int, d: int): V =
    { x: a.x + (b.x - a.x) * n / d, y: a.y + (b.y - a.y) * n / d, z: a.z + (b.z - a.z) * n / d }
  pure def mirrorZ(a: V): V = { x: a.x, y: a.y, z: -a.z }
  pure def mirrorY(a: V): V = { x: a.x, y: -a.y, z: a.z }
  pure def vsum(l: List[V]): V = l.foldl(ZERO, (a, b) => vadd(a, b))
  pure def vmaxabs(a: V): int = imax(iabs(a.x), imax(iabs(a.y), iabs(a.z)))

  pure def apply(m: M, a: V): V = { x: vdot(m.r1, a), y: vdot(m.r2, a), z: vdot(m.r3, a) }
  pure def transpose(m: M): M = {
    r1: v3(m.r1.x, m.r2.x, m.r3.x), r2: v3(m.r1.y, m.r2.y, m.r3.y), r3: v3(m.r1.z, m.r2.z, m.r3.z) }
  pure def mmul(a: M, b: M): M = {
    pure val t = transpose(b)
    { r1: v3(vdot(a.r1, t.r1), vdot(a.r1, t.r2), vdot(a.r1, t.r3)),
      r2: v3(vdot(a.r2, t.r1), vdot(a.r2, t.r2), vdot(a.r2, t.r3)),
      r3: v3(vdot(a.r3, t.r1), vdot(a.r3, t.r2), vdot(a.r3, t.r3)) }
  }
  pure def det(m: M): int = vdot(m.r1, vcross(m.r2, m.r3))

  // Right-handed rotation by th (radians) about the direction of axis: Rodrigues' formula.
  pure def rodrigues(axis: V, th: int): M = {
    pure val u = vunit(axis)
    pure val sc = sincos(th)
    pure val k = S - sc.c
    { r1: v3(sc.c + mul(mul(u.x, u.x), k), mul(mul(u.x, u.y), k) - mul(u.z, sc.s), mul(mul(u.x, u.z), k) + mul(u.y, sc.s)),
      r2: v3(mul(mul(u.x, u.y), k) + mul(u.z, sc.s), sc.c + mul(mul(u.y, u.y), k), mul(mul(u.y, u.z), k) - mul(u.x, sc.s)),
      r3: v3(mul(mul(u.x, u.z), k) - mul(u.y, sc.s), mul(mul(u.y, u.z), k) + mul(u.x, sc.s), sc.c + mul(mul(u.z, u.z), k)) }
  }
  pure val EX: V = { x: 10^30, y: 0, z: 0 }
  pure val EY: V = { x: 0, y: 10^30, z: 0 }
  pure val EZ: V = { x: 0, y: 0, z: 10^30 }
  pure def rotX(th: int): M = { pure val sc = sincos(th) { r1: EX, r2: v3(0, sc.c, -sc.s), r3: v3(0, sc.s, sc.c) } }
  pure def rotZ(th: int): M = { pure val sc = sincos(th) { r1: v3(sc.c, -sc.s, 0), r2: v3(sc.s, sc.c, 0), r3: EZ } }
  // rotation of p about the directed line from a to b
  pure def turn(m: M, a: V, p: V): V = vadd(a, apply(m, vsub(p, a)))

  // Solution of a x = b by Gaussian elimination with partial pivoting; ok is false when a pivot vanishes.
  pure def solve(a0: List[List[int]], b0: List[int]): { ok: bool, x: List[int] } = {
    pure val n = length(b0)
    pure val rows0 = range(0, n).foldl([], (l_i, i) => l_i.append( a0[i].append(b0[i])))
    pure val fwd = range(0, n).foldl({ ok: true, rows: rows0 }, (s, k) =>
      if (not(s.ok)) s else {
        pure val p = range(k, n).foldl(k, (best, i) => if (iabs(s.rows[i][k]) > iabs(s.rows[best][k])) i else best)
        if (iabs(s.rows[p][k]) * 10^18 < S) { ok: false, rows: s.rows } else {
          pure val sw = s.rows.replaceAt(k, s.rows[p]).replaceAt(p, s.rows[k])
          pure val pivotRow = sw[k]
          pure val piv = pivotRow[k]
          { ok: true, rows: range(0, n).foldl([], (l_i, i) => l_i.append(
              if (i <= k) sw[i] else {
                pure val f = div(sw[i][k], piv)
                if (f == 0) sw[i]
                else range(0, n + 1).foldl([], (l_j, j) => l_j.append( if (j < k) 0 else sw[i][j] - mul(f, pivotRow[j])))
              })) }
        }
      })
    if (not(fwd.ok)) { ok: false, x: [] }
    else {
      pure val xr = range(0, n).foldl(List(), (acc, q) => {
        // acc holds x[n-1], x[n-2], ...
        pure val i = n - 1 - q
        pure val s = range(0, q).foldl(fwd.rows[i][n], (t, m) => t - mul(fwd.rows[i][n - 1 - m], acc[m]))
        acc.append(div(s, fwd.rows[i][i]))
      })
      { ok: true, x: reverse(xr) }
    }
  }
}
