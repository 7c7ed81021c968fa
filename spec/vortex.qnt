// Straight vortex elements of unit circulation: the velocity they induce (Biot and Savart), and
// whether the point is so close to where the rule changes that doubles cannot be held to either side.
module vortex {
  import num.* from "./num"
  import vec.* from "./vec"

  // slack: what rounding may make of it in double precision (a generous multiple of the unit roundoff)
  type Vel = { v: V, unsure: bool, slack: int }
  pure val NONE: Vel = { v: ZERO, unsure: false, slack: 0 }
  pure val FOURPI: int = 2 * TWOPI
  pure val CORE: int = 10^22          // 1e-8
  pure def vel(a: Vel, b: Vel): Vel = { v: vadd(a.v, b.v), unsure: a.unsure or b.unsure, slack: a.slack + b.slack }
  pure def flip(a: Vel): Vel = { v: vneg(a.v), unsure: a.unsure, slack: a.slack }
  // within 40 % of a threshold
  pure def close(x: int): bool = 10 * x > 6 * CORE and 10 * x < 14 * CORE

  // from a to b, seen at p.  Nothing from a segment whose line, or one of whose ends, passes through p.
  pure def segment(p: V, a: V, b: V): Vel = {
    pure val r1 = vsub(p, a)
    pure val r2 = vsub(p, b)
    pure val c = vcross(r1, r2)
    pure val c2 = vdot(c, c)
    pure val n1 = vnorm(r1)
    pure val n2 = vnorm(r2)
    pure val unsure = close(n1) or close(n2) or close(c2)
    if (n1 < CORE or n2 < CORE or c2 < CORE) { v: ZERO, unsure: unsure, slack: 0 }
    else {
      pure val k = vdot(vsub(b, a), v3(div(r1.x, n1) - div(r2.x, n2), div(r1.y, n1) - div(r2.y, n2), div(r1.z, n1) - div(r2.z, n2)))
      pure val f = div(div(k, c2), FOURPI)
      pure val v = vscale(f, c)
      pure val n = isqrt(c.x * c.x + c.y * c.y + c.z * c.z)
      { v: v, unsure: unsure, slack: (div(vnorm(vsub(b, a)), n) + mul(vmaxabs(v), div(mul(n1, n2), n))) / 10^12 }
    }
  }
  // from a to infinity along d; nothing is claimed at points right on it
  pure def ray(p: V, a: V, d: V): Vel = {
    pure val u = vunit(d)
    pure val r = vsub(p, a)
    pure val n = vnorm(r)
    pure val gap = n - vdot(u, r)
    if (n < CORE or 1000000000 * gap < n) { v: ZERO, unsure: true, slack: 0 }
    else {
      pure val c = vcross(u, r)
      pure val q = mul(FOURPI, mul(n, gap))
      pure val v = v3(div(c.x, q), div(c.y, q), div(c.z, q))
      { v: v, unsure: false, slack: mul(vmaxabs(v), div(n, gap)) / 10^12 }
    }
  }
  pure def ring(p: V, a: V, b: V, c: V, d: V): Vel =
    vel(vel(segment(p, a, b), segment(p, b, c)), vel(segment(p, c, d), segment(p, d, a)))
  // b - c bound, legs to infinity: in along b's, out along c's
  pure def horseshoe(p: V, b: V, c: V, w: V): Vel =
    vel(segment(p, b, c), vel(ray(p, c, w), flip(ray(p, b, w))))
  // the same with legs that first run to a and d
  pure def horseshoe2(p: V, a: V, b: V, c: V, d: V, w: V): Vel =
    vel(vel(segment(p, a, b), vel(segment(p, b, c), segment(p, c, d))), vel(ray(p, d, w), flip(ray(p, a, w))))
}
