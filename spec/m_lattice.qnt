// P01: the lattice built panel by panel, for every grid up to a bound.
module m_lattice {
  import lattice.* from "./lattice"
  const MOST: int
  var sails: int
  var nc: int
  var ns: int
  var cur: Cursor
  var cells: List[Cell]

  action init = all {
    nondet s = 1.to(2).oneOf()
    nondet a = 1.to(MOST).oneOf()
    nondet b = 1.to(MOST).oneOf()
    all { sails' = s, nc' = a, ns' = b, cur' = { half: 0, sail: 0, row: 0, col: 0 }, cells' = [] } }
  action step = if (cur.half == 2) all { sails' = sails, nc' = nc, ns' = ns, cur' = cur, cells' = cells }
    else all {
      sails' = sails, nc' = nc, ns' = ns,
      cells' = cells.append(cellAt(cur, nc)), cur' = following(cur, sails, nc, ns) }

  val done = cur.half == 2
  val all_ = cells.indices().map(k => cells[k])
  // directed sides of the cells; inside a sail every side is met once in each direction, at the rim only once
  val sides = all_.map(c => Set((c.se, c.sw), (c.sw, c.nw), (c.nw, c.ne), (c.ne, c.se))).flatten()
  pure def rim(a: Vertex, b: Vertex, m: int, n: int): bool = or {
    a.i == b.i and (a.i == 0 or a.i == m), a.j == b.j and (a.j == 0 or a.j == n) }
  val complete = done implies and {
    cells.length() == 2 * sails * nc * ns,
    all_.size() == cells.length(),
    sides.size() == 4 * cells.length(),
    sides.forall(s => rim(s._1, s._2, nc, ns) or sides.contains((s._2, s._1))),
    all_.filter(c => c.last).size() == 2 * sails * ns,
    all_.filter(c => c.first).size() == (if (nc > 1) 2 * sails * ns else 0) }
  val noSideTwice = sides.size() == 4 * cells.length()
  val insideOneSail = all_.forall(c => Set(c.se, c.sw, c.nw, c.ne).forall(v => and {
    v.half == c.se.half, v.sail == c.se.sail, 0 <= v.i, v.i <= nc, 0 <= v.j, v.j <= ns }))
  val closedForm = cells == cellsOf(sails, nc, ns).slice(0, cells.length())
  val inv = complete and noSideTwice and insideOneSail and closedForm
}
module lattice6 { import m_lattice(MOST=6).* }
