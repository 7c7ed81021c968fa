// The wind at a height, and what a boat under way makes of it.
module wind {
  import num.* from "./num"
  import vec.* from "./vec"
  // kind 0 flat, 1 exponential, 2 logarithmic; alpha in degrees
  type Air = { kind: int, alpha: int, tws: int, sog: int, coeff: int, href: int, level: int, rough: int, rho: int }
  pure def speedAt(a: Air, h: int): int =
    if (a.kind == 0) a.tws
    else if (a.kind == 1) mul(a.tws, pow(div(h - a.level, a.href), a.coeff))
    else mul(a.tws, div(ln(div(h, a.rough)), ln(div(a.href, a.rough))))
  pure def towards(a: Air, speed: int): V = {
    pure val sc = sincos(rad(a.alpha))
    v3(mul(speed, sc.c), mul(speed, sc.s), 0)
  }
  pure def trueWind(a: Air, h: int): V = towards(a, speedAt(a, h))
  pure def apparent(a: Air, tw: V): V = v3(tw.x + a.sog, tw.y, tw.z)
  pure def apparentAt(a: Air, h: int): V = apparent(a, trueWind(a, h))
  pure def angleDeg(v: V): int = deg(atan2(v.y, v.x))
}
