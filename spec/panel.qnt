// What a panel is for the vortex lattice: points, normal, ring, area.
module panel {
  import num.* from "./num"
  import vec.* from "./vec"
  import rig.* from "./rig"

  type Ring = { a: V, b: V, c: V, d: V }
  pure def fore(q: Panel): V = vmid(q.sw, q.nw)
  pure def aft(q: Panel): V = vmid(q.se, q.ne)
  pure def control(q: Panel): V = vlerp(fore(q), aft(q), 3, 4)
  pure def pressurePoint(q: Panel): V = vlerp(fore(q), aft(q), 1, 4)
  // perpendicular to both diagonals; towards positive y for a sail along the x axis that stands on z = 0
  pure def normalOf(q: Panel): V = vunit(vcross(vsub(q.nw, q.se), vsub(q.ne, q.sw)))
  pure def quarterLow(q: Panel): V = vlerp(q.sw, q.se, 1, 4)
  pure def quarterHigh(q: Panel): V = vlerp(q.nw, q.ne, 1, 4)
  // ring of panel k: closed on the next row's quarter line, on the last row a quarter panel behind its aft edge
  pure def ringOf(ps: List[Panel], nc: int, ns: int, k: int): Ring = {
    pure val q = ps[k]
    if (trailing(nc, ns, k)) closedBehind(q)
    else { a: quarterLow(ps[k + ns]), b: quarterLow(q), c: quarterHigh(q), d: quarterHigh(ps[k + ns]) }
  }
  pure def closedBehind(q: Panel): Ring =
    { a: vlerp(q.sw, q.se, 5, 4), b: quarterLow(q), c: quarterHigh(q), d: vlerp(q.nw, q.ne, 5, 4) }
  pure def triangle(a: V, b: V, c: V): int = vnorm(vcross(vsub(b, a), vsub(c, a))) / 2
  // warped panels: between the two ways of splitting them
  pure def area1(q: Panel): int = triangle(q.se, q.sw, q.nw) + triangle(q.se, q.nw, q.ne)
  pure def area2(q: Panel): int = triangle(q.sw, q.nw, q.ne) + triangle(q.sw, q.ne, q.se)
  // finding K2: two triangles that overlap
  pure def areaK2(q: Panel): int = triangle(q.se, q.sw, q.nw) + triangle(q.sw, q.nw, q.ne)
}
