// Fixed-point arithmetic on Quint's unbounded integers.
// A number r is represented by the integer round(r * S).  Everything the specification says about
// real-valued quantities is said with these, so the oracle's own error (about 1e-30 per operation)
// is far below the double precision of the implementation it is compared with.
module num {
  pure val S: int = 10^30
  pure val HALF: int = S / 2
  pure val PI: int = 3141592653589793238462643383280
  pure val TWOPI: int = 6283185307179586476925286766559

  pure def iabs(a: int): int = if (a < 0) -a else a
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b
  pure def sgn(a: int): int = if (a < 0) -1 else if (a > 0) 1 else 0

  // n thousandths, n millionths
  pure def milli(n: int): int = n * S / 1000
  pure def micro(n: int): int = n * S / 1000000
  pure def fromInt(n: int): int = n * S
  pure def ratio(a: int, b: int): int = a * S / b

  pure def mul(a: int, b: int): int = a * b / S
  pure def div(a: int, b: int): int = a * S / b
  pure def sq(a: int): int = a * a / S

  // integer square root: a starting value above the root, then Newton's iteration
  pure def isqrt(n: int): int =
    if (n <= 0) 0
    else {
      pure val start = [32, 16, 8, 4, 2, 1].foldl({ p: 1, q: n }, (s, k) =>
        if (s.q >= 100^k) { p: s.p * 10^k, q: s.q / 100^k } else s)
      range(0, 14).foldl({ x: start.p * 10, go: true }, (s, i) =>
        if (s.go) {
          pure val y = (s.x + n / s.x) / 2
          if (y >= s.x) { x: s.x, go: false } else { x: y, go: true }
        } else s).x
    }
  pure def sqrt(a: int): int = isqrt(a * S)

  // angles: radians; reduction to [-pi, pi]
  pure def wrap(x: int): int = {
    pure val k = (2 * iabs(x) + TWOPI) / (2 * TWOPI)
    x - sgn(x) * k * TWOPI
  }
  pure def rad(deg: int): int = mul(deg, PI) / 180
  pure def deg(r: int): int = div(r * 180, PI)
  // sin and cos of x/8 by their series, then three doublings
  pure def sincos(x0: int): { s: int, c: int } = {
    pure val x = wrap(x0) / 8
    pure val x2 = sq(x)
    pure val r = range(1, 13).foldl({ s: x, c: S, ts: x, tc: S }, (a, k) => {
      pure val tc = -mul(a.tc, x2) / ((2 * k - 1) * (2 * k))
      pure val ts = -mul(a.ts, x2) / ((2 * k) * (2 * k + 1))
      { s: a.s + ts, c: a.c + tc, ts: ts, tc: tc }
    })
    range(0, 3).foldl({ s: r.s, c: r.c }, (a, k) =>
      { s: 2 * mul(a.s, a.c), c: sq(a.c) - sq(a.s) })
  }
  pure def sin(x: int): int = sincos(x).s
  pure def cos(x: int): int = sincos(x).c

  // three halvings of the angle, then the series
  pure def atan(y: int): int = {
    pure val t = range(0, 3).foldl(y, (x, k) => div(x, S + sqrt(S + sq(x))))
    pure val t2 = sq(t)
    8 * range(1, 20).foldl({ acc: t, p: t }, (a, k) => {
      pure val p = -mul(a.p, t2)
      { acc: a.acc + p / (2 * k + 1), p: p }
    }).acc
  }
  pure def atan2(y: int, x: int): int =
    if (x == 0 and y == 0) 0
    else if (iabs(y) <= iabs(x)) {
      if (x > 0) atan(div(y, x)) else if (y >= 0) atan(div(y, x)) + PI else atan(div(y, x)) - PI
    } else if (y > 0) PI / 2 - atan(div(x, y)) else -PI / 2 - atan(div(x, y))

  // ln: five square roots, then the area-tangent series
  pure def ln(x: int): int = {
    pure val r = range(0, 5).foldl(x, (a, k) => sqrt(a))
    pure val t = div(r - S, r + S)
    pure val t2 = sq(t)
    64 * range(1, 30).foldl({ acc: t, p: t }, (a, k) => {
      pure val p = mul(a.p, t2)
      { acc: a.acc + p / (2 * k + 1), p: p }
    }).acc
  }
  pure def exp(x: int): int = {
    pure val t = x / 64
    pure val e = range(1, 22).foldl({ acc: S, p: S }, (a, k) => {
      pure val p = mul(a.p, t) / k
      { acc: a.acc + p, p: p }
    }).acc
    range(0, 6).foldl(e, (a, k) => sq(a))
  }
  pure def pow(x: int, y: int): int =
    if (x == 0) (if (y == 0) S else 0) else exp(mul(y, ln(x)))

  // lists
  pure def sumList(l: List[int]): int = l.foldl(0, (a, x) => a + x)
  pure def reverse(l: List[a]): List[a] = range(0, length(l)).foldl([], (l_i, i) => l_i.append( l[length(l) - 1 - i]))
  pure def minList(l: List[int]): int = l.foldl(l[0], (a, x) => imin(a, x))
  pure def maxList(l: List[int]): int = l.foldl(l[0], (a, x) => imax(a, x))
  pure def joinAll(ll: List[List[a]]): List[a] = ll.foldl(List(), (a, l) => a.concat(l))
}
