// The panel lattice of a sail set: which cells there are, in which order, with which corners.
module lattice {
  // half 0: above the water, 1: images.  i: line from luff (0) to leech, j: station in increasing height
  type Vertex = { half: int, sail: int, i: int, j: int }
  type Cell = { se: Vertex, sw: Vertex, nw: Vertex, ne: Vertex, first: bool, last: bool }
  type Cursor = { half: int, sail: int, row: int, col: int }

  pure def cellAt(c: Cursor, nc: int): Cell = {
    pure def v(i: int, j: int): Vertex = { half: c.half, sail: c.sail, i: i, j: j }
    { se: v(c.row + 1, c.col), sw: v(c.row, c.col), nw: v(c.row, c.col + 1), ne: v(c.row + 1, c.col + 1),
      first: nc > 1 and c.row == 0, last: c.row == nc - 1 }
  }
  pure def following(c: Cursor, sails: int, nc: int, ns: int): Cursor =
    if (c.col + 1 < ns) { half: c.half, sail: c.sail, row: c.row, col: c.col + 1 }
    else if (c.row + 1 < nc) { half: c.half, sail: c.sail, row: c.row + 1, col: 0 }
    else if (c.sail + 1 < sails) { half: c.half, sail: c.sail + 1, row: 0, col: 0 }
    else { half: c.half + 1, sail: 0, row: 0, col: 0 }
  pure def cellsOf(sails: int, nc: int, ns: int): List[Cell] =
    range(0, 2 * sails * nc * ns).foldl({ c: { half: 0, sail: 0, row: 0, col: 0 }, l: List() }, (s, k) =>
      { c: following(s.c, sails, nc, ns), l: s.l.append(cellAt(s.c, nc)) }).l
}
