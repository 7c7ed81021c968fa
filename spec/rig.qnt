// From rig dimensions and sail data to the panels of the sailing position.
module rig {
  import num.* from "./num"
  import vec.* from "./vec"
  import shape.* from "./shape"

  type Rig = { mainLuff: int, jibLuff: int, height: int, base: int, sheer: int, boom: int, rake: int, loa: int }
  // distributions over the girth
  type Data = { girths: List[int], chords: List[int], twist: List[int], camber: List[int], pos: List[int] }
  // heel, leeway: degrees.  twistMode 0: station's own, 1: smallest, 2: mean.  interp 0: linear, 1: spline
  // sails 0: jib, 1: main, 2: both
  type Boat = { rig: Rig, jib: Data, mainsail: Data, sails: int, heel: int, leeway: int, twistMode: int, interp: int, nc: int, ns: int }
  // a luff: where it starts and where it ends, upright
  type Luff = { tack: V, head: V }
  type Panel = { se: V, sw: V, nw: V, ne: V }
  // a surface: stations along the span, points from luff to leech at each
  type Mesh = List[List[V]]

  // unit vector up the mast
  pure def mast(r: Rig): V = { pure val sc = sincos(rad(r.rake)) v3(-sc.c, 0, sc.s) }
  pure def mainLuff(r: Rig): Luff = {
    pure val m = mast(r)
    { tack: vscale(r.sheer + r.boom, m), head: vscale(r.sheer + r.boom + r.mainLuff, m) }
  }
  pure def jibLuff(r: Rig): Luff = {
    pure val m = mast(r)
    pure val deck = vscale(r.sheer, m)
    pure val tack = v3(deck.x - r.base - div(r.loa, m.z), 0, deck.z)
    // the forestay: from the stem to the hounds, both measured from the mast foot on deck
    pure val stay = vunit(v3(r.base + mul(r.height, m.x), 0, mul(r.height, m.z)))
    { tack: tack, head: vadd(tack, vscale(r.jibLuff, stay)) }
  }

  // stationwise data of a sail
  type Stations = { chords: List[int], twist: List[int], camber: List[int], pos: List[int] }
  pure def stationData(d: Data, kind: int, ns: int): Stations = {
    chords: interpolate(kind, d.girths, d.chords, ns + 1), twist: interpolate(kind, d.girths, d.twist, ns + 1),
    camber: interpolate(kind, d.girths, d.camber, ns + 1), pos: interpolate(kind, d.girths, d.pos, ns + 1) }
  // the twist applied at the stations
  pure def appliedTwist(mode: int, tw: List[int]): List[int] =
    if (mode == 0) tw
    else if (mode == 1) range(0, length(tw)).foldl([], (l_i, i) => l_i.append( minList(tw)))
    else range(0, length(tw)).foldl([], (l_i, i) => l_i.append( sumList(tw) / length(tw)))

  // the sail before heel, leeway and twist
  pure def zeroMesh(l: Luff, st: Stations, nc: int, ns: int): Mesh = range(0, ns + 1).foldl([], (l_j, j) => l_j.append( {
    pure val le = vlerp(l.tack, l.head, j, ns)
    range(0, nc + 1).foldl([], (l_i, i) => l_i.append( v3(le.x + mul(st.chords[j], ratio(i, nc)), mul(st.chords[j], camberAt(st.camber[j], st.pos[j], ratio(i, nc))), le.z)))
  }))
  // upright to sailing position, above the water: heel to leeward, then leeway
  pure def sailing(heel: int, leeway: int): M = mmul(rotZ(rad(leeway)), rotX(-rad(heel)))
  pure def sailingBelow(heel: int, leeway: int): M = mmul(rotZ(rad(leeway)), rotX(rad(heel)))
  pure def sailingMesh(z: Mesh, tw: List[int], heel: int, leeway: int): Mesh = {
    pure val m = sailing(heel, leeway)
    pure val n = length(z)
    pure val foot = apply(m, z[0][0])
    pure val top = apply(m, z[n - 1][0])
    pure val axis = vsub(top, foot)
    range(0, n).foldl([], (l_j, j) => l_j.append( {
      pure val r = rodrigues(axis, rad(tw[j]))
      range(0, length(z[j])).foldl([], (l_i, i) => l_i.append( turn(r, foot, apply(m, z[j][i]))))
    }))
  }
  // the image: every point mirrored, the stations in increasing height again
  pure def image(m: Mesh): Mesh = range(0, length(m)).foldl([], (l_j, j) => l_j.append( {
    pure val row = m[length(m) - 1 - j]
    range(0, length(row)).foldl([], (l_i, i) => l_i.append( mirrorZ(row[i])))
  }))

  // cells of a mesh: rows from luff to leech, in each row increasing height
  pure def panelsOf(m: Mesh): List[Panel] = {
    pure val ns = length(m) - 1
    pure val nc = length(m[0]) - 1
    range(0, nc * ns).foldl([], (l_k, k) => l_k.append( {
      pure val i = k / ns
      pure val j = k % ns
      { se: m[j][i + 1], sw: m[j][i], nw: m[j + 1][i], ne: m[j + 1][i + 1] }
    }))
  }
  pure def trailing(nc: int, ns: int, k: int): bool = k % (nc * ns) >= (nc - 1) * ns
  pure def leading(nc: int, ns: int, k: int): bool = nc > 1 and k % (nc * ns) < ns

  type SailModel = { name: int, luff: Luff, st: Stations, zero: Mesh, above: Mesh }
  pure def buildSail(name: int, l: Luff, d: Data, b: Boat): SailModel = {
    pure val st = stationData(d, b.interp, b.ns)
    pure val z = zeroMesh(l, st, b.nc, b.ns)
    { name: name, luff: l, st: st, zero: z, above: sailingMesh(z, appliedTwist(b.twistMode, st.twist), b.heel, b.leeway) }
  }
  // names: 0 jib, 1 main
  pure def buildSails(b: Boat): List[SailModel] = {
    pure val j = if (b.sails == 1) List() else [buildSail(0, jibLuff(b.rig), b.jib, b)]
    pure val m = if (b.sails == 0) List() else [buildSail(1, mainLuff(b.rig), b.mainsail, b)]
    j.concat(m)
  }
  pure def allPanels(ms: List[Mesh]): List[Panel] =
    ms.foldl(List(), (l, m) => l.concat(panelsOf(m))).concat(ms.foldl(List(), (l, m) => l.concat(panelsOf(image(m)))))
  pure def setPanels(sails: List[SailModel]): List[Panel] = allPanels(range(0, length(sails)).foldl([], (l_i, i) => l_i.append( sails[i].above)))
  pure def setZero(sails: List[SailModel]): List[Panel] = allPanels(range(0, length(sails)).foldl([], (l_i, i) => l_i.append( sails[i].zero)))
  // lowest point of the sails: the model is meaningful for sails above the water
  pure def lowest(sails: List[SailModel]): int =
    sails.foldl(10^40, (a, s) => s.above.foldl(a, (b, row) => row.foldl(b, (c, p) => imin(c, p.z))))
}
