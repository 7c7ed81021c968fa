// Section shapes (NACA four-digit) and interpolation of girth data.
module shape {
  import num.* from "./num"
  import vec.* from "./vec"

  // ---- camber line of camber m, position p, at x in [0, 1]
  pure def camberAt(m: int, p: int, x: int): int =
    if (x < p) div(mul(m, 2 * mul(p, x) - sq(x)), sq(p))
    else div(mul(m, S - 2 * p + 2 * mul(p, x) - sq(x)), sq(S - p))
  pure def camberSlope(m: int, p: int, x: int): int =
    if (x < p) div(2 * mul(m, p - x), sq(p)) else div(2 * mul(m, p - x), sq(S - p))
  // half thickness; the last point of the section is the closed trailing edge
  pure def halfThickness(t: int, x: int): int = {
    pure val last = if (10000 * (S - x) < S) 1036 * S / 10000 else 1015 * S / 10000
    mul(5 * t, mul(2969 * S / 10000, sqrt(x)) - mul(1260 * S / 10000, x) - mul(3516 * S / 10000, sq(x))
             + mul(2843 * S / 10000, mul(x, sq(x))) - mul(last, sq(sq(x))))
  }
  pure def accepted(m: int, p: int, t: int): bool = and {
    0 <= m, 10 * m <= 3 * S, 0 <= p, 10 * p <= 9 * S, 0 <= t, 10 * t <= 4 * S }

  type Pt = { x: int, yc: int, yt: int, xu: int, yu: int, xl: int, yl: int }
  pure def section(m: int, p: int, t: int, n: int): List[Pt] = sectionAt(m, p, t, n, range(0, n))
  // some of the n points
  pure def sectionAt(m: int, p: int, t: int, n: int, picked: List[int]): List[Pt] = picked.foldl([], (l_i, i) => l_i.append( {
    pure val x = if (n == 1) 0 else ratio(i, n - 1)
    pure val yc = camberAt(m, p, x)
    pure val yt = halfThickness(t, x)
    // unit normal of the camber line: (-sin, cos) of its slope angle
    pure val sl = camberSlope(m, p, x)
    pure val h = sqrt(S + sq(sl))
    pure val c = div(S, h)
    pure val s = div(sl, h)
    { x: x, yc: yc, yt: yt, xu: x - mul(yt, s), yu: yc + mul(yt, c), xl: x + mul(yt, s), yl: yc - mul(yt, c) }
  }))

  // ---- interpolation along the girth
  // index of the interval of xs that contains x (the last one for the last point)
  pure def interval(xs: List[int], x: int): int =
    range(0, length(xs) - 1).foldl(0, (k, i) => if (x >= xs[i]) i else k)
  pure def linearAt(xs: List[int], ys: List[int], x: int): int = {
    pure val k = interval(xs, x)
    ys[k] + (ys[k + 1] - ys[k]) * (x - xs[k]) / (xs[k + 1] - xs[k])
  }
  // second derivatives of the not-a-knot cubic spline
  pure def splineMoments(xs: List[int], ys: List[int]): List[int] = {
    pure val m = length(xs)
    pure val h = range(0, m - 1).foldl([], (l_i, i) => l_i.append( xs[i + 1] - xs[i]))
    pure val mat = range(0, m).foldl([], (l_r, r) => l_r.append(
      if (r == 0) range(0, m).foldl([], (l_c, c) => l_c.append( if (c == 0) h[1] else if (c == 1) -(h[0] + h[1]) else if (c == 2) h[0] else 0))
      else if (r == m - 1) range(0, m).foldl([], (l_c, c) => l_c.append( if (c == m - 3) h[m - 2] else if (c == m - 2) -(h[m - 3] + h[m - 2]) else if (c == m - 1) h[m - 3] else 0))
      else range(0, m).foldl([], (l_c, c) => l_c.append( if (c == r - 1) h[r - 1] / 6 else if (c == r) (h[r - 1] + h[r]) / 3 else if (c == r + 1) h[r] / 6 else 0))))
    pure val rhs = range(0, m).foldl([], (l_r, r) => l_r.append( if (r == 0 or r == m - 1) 0
      else div(ys[r + 1] - ys[r], h[r]) - div(ys[r] - ys[r - 1], h[r - 1])))
    solve(mat, rhs).x
  }
  pure def splineAt(xs: List[int], ys: List[int], mo: List[int], x: int): int = {
    pure val k = interval(xs, x)
    pure val h = xs[k + 1] - xs[k]
    pure val a = xs[k + 1] - x
    pure val b = x - xs[k]
    div(mul(mo[k], mul(a, sq(a))) + mul(mo[k + 1], mul(b, sq(b))), 6 * h)
      + mul(div(ys[k], h) - mul(mo[k], h) / 6, a) + mul(div(ys[k + 1], h) - mul(mo[k + 1], h) / 6, b)
  }
  pure def stations(n: int): List[int] = range(0, n).foldl([], (l_i, i) => l_i.append( if (n == 1) 0 else ratio(i, n - 1)))
  // kind 0: linear, 1: spline
  pure def interpolate(kind: int, xs: List[int], ys: List[int], n: int): List[int] =
    if (kind == 0) stations(n).foldl(List(), (l, x) => l.append(linearAt(xs, ys, x)))
    else {
      pure val mo = splineMoments(xs, ys)
      stations(n).foldl(List(), (l, x) => l.append(splineAt(xs, ys, mo, x)))
    }
}
