// P09: vortex elements, drawn in general and in special position.
module m_vortex {
  import num.* from "./num"
  import vec.* from "./vec"
  import vortex.* from "./vortex"
  import draws.* from "./draws"
  var p: V
  var a: V
  var b: V
  var c: V
  var d: V
  var w: V
  var gamma: int
  var place: str                 // where the point was put
  var mid: V                     // a point of the segment from a to b
  var stage: str
  type Seen = { seg: Vel, back: Vel, part1: Vel, part2: Vel, inf: Vel, ringv: Vel, shoe: Vel, shoe2: Vel }
  var seen: Seen

  pure val NOTHING: Seen = { seg: NONE, back: NONE, part1: NONE, part2: NONE, inf: NONE, ringv: NONE, shoe: NONE, shoe2: NONE }
  action init = {
    nondet raw = SLOTS.setOfMaps(1.to(DRAWS)).oneOf()
    pure val flat = oneIn(raw, 0, 4)
    pure val reach = [200, 3000, 20000][choose(raw, 1, 3)]
    pure def pt(k: int): V = { pure val q = point(raw, k, reach) if (flat) v3(q.x, 0, q.z) else q }
    pure val aa = pt(10)
    pure val bb = if (oneIn(raw, 2, 10)) aa else pt(13)
    // a panel-like ring: c near b, d near a
    pure val cc = if (oneIn(raw, 3, 3)) pt(16) else vadd(bb, vscale(milli(300), point(raw, 16, reach)))
    pure val dd = if (oneIn(raw, 3, 3)) pt(19) else vadd(aa, vscale(milli(300), point(raw, 19, reach)))
    pure val ww = { pure val q = point(raw, 22, [30, 1000, 15000][choose(raw, 4, 3)]) if (vmaxabs(q) < milli(3)) EX else if (oneIn(raw, 5, 4)) v3(q.x + micro(7300), 0, 0) else q }
    pure val t = uni(raw, 25, 50, 950)
    pure val on = vadd(aa, vscale(t, vsub(bb, aa)))
    pure val beyond = vadd(aa, vscale(uni(raw, 26, 1100, 3000), vsub(bb, aa)))
    pure val near = vscale(S / 10^10, point(raw, 27, 10000))
    pure val kind = choose(raw, 6, 11)
    all {
      a' = aa, b' = bb, c' = cc, d' = dd, w' = ww, mid' = on,
      gamma' = if (oneIn(raw, 7, 4)) S else if (oneIn(raw, 7, 5)) -S else uni(raw, 30, -9000, 9000),
      place' = ["anywhere", "anywhere", "on the segment", "beyond its end", "at its start", "at its end", "in the core of its start", "in the core of its end", "close to it", "down the wake", "far away"][kind],
      p' = [pt(31), pt(31), on, beyond, aa, bb, vadd(aa, near), vadd(bb, near), vadd(on, vscale(milli(30), point(raw, 31, reach))),
             vadd(aa, vadd(vscale(uni(raw, 26, 1000, [5000, 90000, 900000][choose(raw, 28, 3)]), vunit(ww)), vscale(milli([1, 30, 300][choose(raw, 29, 3)]), point(raw, 31, 2000)))),
             vscale(uni(raw, 26, 3000, 90000), pt(31))][kind],
      stage' = "drawn", seen' = NOTHING }
  }
  action step = all {
    stage == "drawn", stage' = "seen", p' = p, a' = a, b' = b, c' = c, d' = d, w' = w, gamma' = gamma, place' = place, mid' = mid,
    seen' = { seg: segment(p, a, b), back: segment(p, b, a), part1: segment(p, a, mid), part2: segment(p, mid, b), inf: ray(p, a, w),
              ringv: ring(p, a, b, c, d), shoe: horseshoe(p, b, c, w), shoe2: horseshoe2(p, a, b, c, d, w) } }

  pure def near(u: V, v: V, tol: int): bool = vmaxabs(vsub(u, v)) <= tol
  val reversed = near(seen.seg.v, vneg(seen.back.v), 10^12 + vmaxabs(seen.seg.v) / 10^12)
  // additive where none of the pieces is cut off
  val additive = (stage == "seen" and place == "anywhere" and seen.seg.v != ZERO and seen.part1.v != ZERO and seen.part2.v != ZERO) implies
    near(seen.seg.v, vadd(seen.part1.v, seen.part2.v), 10^8 * (seen.seg.slack + seen.part1.slack + seen.part2.slack) + 10^12)
  val cutOff = (stage == "seen" and Set("on the segment", "beyond its end", "at its start", "at its end", "in the core of its start", "in the core of its end").contains(place))
    implies (seen.seg.v == ZERO or seen.seg.unsure)
  // a ring is the horseshoe of its forward sides less the one that starts at its aft ones
  val rings = (stage == "seen" and not(seen.ringv.unsure) and not(seen.shoe2.unsure)) implies {
    val aft = vel(vel(segment(p, a, d), ray(p, d, w)), flip(ray(p, a, w)))
    near(vsub(seen.shoe2.v, seen.ringv.v), aft.v, 10^12 + (vmaxabs(aft.v) + vmaxabs(seen.ringv.v) + vmaxabs(seen.shoe2.v)) / 10^10) }
  val inv = reversed and additive and cutOff and rings
}
