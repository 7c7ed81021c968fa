// Sail sets as built: the panel lattice, and the sails of the rig and sail data.
module build {
  import num.* from "./num"
  import vec.* from "./vec"
  import shape.* from "./shape"
  import rig.* from "./rig"
  import trace.* from "./trace"
  import lattice.* from "./lattice"

  pure def dataIn(o: Obs, p: str): Data =
    { girths: o.get(if (p == "jib") "jg" else "mg"), chords: o.get(if (p == "jib") "jc" else "mc"), twist: o.get(if (p == "jib") "jt" else "mt"),
      camber: o.get(if (p == "jib") "jk" else "mk"), pos: o.get(if (p == "jib") "jp" else "mp") }
  pure def boatIn(o: Obs): Boat = {
    pure val g = o.get("rig")
    pure val m = o.get("modes")
    { rig: { mainLuff: g[0], jibLuff: g[1], height: g[2], base: g[3], sheer: g[4], boom: g[5], rake: g[6], loa: g[7] },
      jib: dataIn(o, "jib"), mainsail: dataIn(o, "main"), sails: m[0], heel: o.get("heel")[0], leeway: o.get("leeway")[0],
      twistMode: m[1], interp: m[2], nc: o.get("grid")[0], ns: o.get("grid")[1] }
  }
  pure def corner(l: List[int], k: int, c: int): V = at(l, 4 * k + c)
  pure def vertexOf(c: Cell, n: int): Vertex = if (n == 0) c.se else if (n == 1) c.sw else if (n == 2) c.nw else c.ne
  pure def numberOf(v: Vertex, sails: int, nc: int, ns: int): int = ((v.half * sails + v.sail) * (nc + 1) + v.i) * (ns + 1) + v.j

  // ---------------------------------------------------------------- P01
  // where the vertices are, by the first panel that has them; all others must agree to the last bit
  pure def shared(r0: Res, clause: str, l: List[int], cells: List[Cell], sails: int, nc: int, ns: int): { r: Res, places: int -> V } =
    range(0, 4 * length(cells)).foldl({ r: r0, places: Map() }, (s, q) => {
      pure val v = numberOf(vertexOf(cells[q / 4], q % 4), sails, nc, ns)
      pure val p = at(l, q)
      if (s.places.keys().contains(v)) { r: judgeV(s.r, clause, q, p, s.places.get(v), 0), places: s.places }
      else { r: s.r, places: s.places.put(v, p) }
    })
  pure def latticeOf(o: Obs): Res = {
    pure val b = boatIn(o)
    pure val n = if (b.sails == 2) 2 else 1
    pure val cells = cellsOf(n, b.nc, b.ns)
    pure val many = length(cells)
    pure val r0 = require(require(require(require(CLEAN, "number of panels", 0, length(o.get("panels")) == 12 * many), "number of unrotated panels", 0, length(o.get("zero")) == 12 * many),
      "number of trailing edge flags", 0, length(o.get("trailing")) == many), "number of leading edge flags", 0, length(o.get("leading")) == many)
    if (length(r0.bad) > 0) r0 else {
      pure val r1 = range(0, many).foldl(r0, (r, k) =>
        judge(judge(r, "trailing edge flag", k, o.get("trailing")[k], if (cells[k].last) 1 else 0, 0),
              "leading edge flag", k, o.get("leading")[k], if (cells[k].first) 1 else 0, 0))
      pure val s1 = shared(r1, "corner shared by neighbours", o.get("panels"), cells, n, b.nc, b.ns)
      pure val s2 = shared(s1.r, "corner shared by unrotated neighbours", o.get("zero"), cells, n, b.nc, b.ns)
      // the order, on the unrotated sail: heights increase along a row, distance from the luff from row to row
      pure val z = s2.places
      pure val tol = largest(o.get("zero")) / 10^9
      range(0, 2 * n * (b.nc + 1) * (b.ns + 1)).foldl(s2.r, (r, q) => {
        pure val j = q % (b.ns + 1)
        pure val i = (q / (b.ns + 1)) % (b.nc + 1)
        pure val sl = (q / ((b.ns + 1) * (b.nc + 1))) % n
        pure val below = q / ((b.ns + 1) * (b.nc + 1) * n) == 1
        pure val name = if (b.sails == 2) sl else b.sails
        pure val luff = if (name == 0) jibLuff(b.rig) else mainLuff(b.rig)
        pure val up = if (below) mirrorZ(vlerp(luff.head, luff.tack, j, b.ns)) else vlerp(luff.tack, luff.head, j, b.ns)
        pure val p = z.get(q)
        pure val r2 = if (i == 0) judgeV(r, "luff of the sail", q, p, up, tol) else r
        pure val r3 = if (j > 0) require(r2, "height increases along the row", q, z.get(q - 1).z < p.z) else r2
        // (a sail may end in a point)
        pure val ends = j == (if (below) 0 else b.ns) and z.get(q - i * (b.ns + 1)).x == p.x and (if (name == 0) b.jib else b.mainsail).chords[length((if (name == 0) b.jib else b.mainsail).chords) - 1] == 0
        pure val r4 = if (i > 0 and not(ends)) require(r3, "rows go from luff to leech", q, z.get(q - (b.ns + 1)).x < p.x) else r3
        // above or below the water, and the same sail as the unrotated one: the luff is only heeled and set at leeway
        if (i == 0) judgeV(r4, "luff of the sail in the sailing position", q, s1.places.get(q),
                           apply(if (below) sailingBelow(b.heel, b.leeway) else sailing(b.heel, b.leeway), up), tol) else r4
      })
    }
  }

  // ---------------------------------------------------------------- P03
  pure def panelList(r0: Res, clause: str, l: List[int], want: List[Panel], n: int, tol: int): Res =
    range(0, n).foldl(r0, (r, k) => judgeV(judgeV(judgeV(judgeV(r, clause, k, corner(l, k, 0), want[k].se, tol), clause, k, corner(l, k, 1), want[k].sw, tol),
      clause, k, corner(l, k, 2), want[k].nw, tol), clause, k, corner(l, k, 3), want[k].ne, tol))
  pure def built(o: Obs): Res = {
    pure val b = boatIn(o)
    pure val sails = buildSails(b)
    pure val n = length(sails)
    pure val tol = largest(o.get("zero")) / 10^10
    pure val r0 = require(require(CLEAN, "number of panels", 0, length(o.get("panels")) == 24 * n * b.nc * b.ns),
                          "number of unrotated panels", 0, length(o.get("zero")) == 24 * n * b.nc * b.ns)
    pure val r1 = range(0, n).foldl(r0, (r, s) =>
      judge(judgeV(judgeV(r, "tack", s, at(o.get("tacks"), s), sails[s].luff.tack, tol), "head", s, at(o.get("heads"), s), sails[s].luff.head, tol),
            "name of the sail", s, o.get("names")[s], sails[s].name, 0))
    if (length(r0.bad) > 0) r0 else
      panelList(panelList(r1, "unrotated sail", o.get("zero"), setZero(sails), 2 * n * b.nc * b.ns, tol),
                "sail", o.get("panels"), setPanels(sails), n * b.nc * b.ns, tol)
  }
}
