// What the pictures show, related to the solved case they were made from.
module pictures {
  import num.* from "./num"
  import vec.* from "./vec"
  import trace.* from "./trace"
  const RUNS: List[List[Event]]
  var which: int
  var pos: int
  var obs: Obs
  var verdicts: List[Res]

  pure def gap(a: V, b: V): int = vmaxabs(vsub(a, b))
  // k-th list of n points in l
  pure def points(l: List[int], k: int, n: int): List[V] = range(0, n).foldl([], (r, i) => r.append(at(l, n * k + i)))
  // how far two closed polygons are apart, wherever they start and whichever way they run
  pure def apart(p: List[V], q: List[V]): int = {
    pure val n = length(p)
    range(0, n).foldl(10^60, (m, s) => {
      pure val a = range(0, n).foldl(0, (x, i) => imax(x, gap(p[i], q[(i + s) % n])))
      pure val b = range(0, n).foldl(0, (x, i) => imax(x, gap(p[i], q[(s + n - i) % n])))
      imin(m, imin(a, b)) })
  }
  pure def apart2(p: List[V], q: List[V]): int = if (length(p) == length(q)) range(0, length(p)).foldl(0, (m, i) => imax(m, gap(p[i], q[i]))) else 10^60

  // ---- the pressure-coefficient page: polygons of four corners (the closing one left out), x and height
  pure def page(o: Obs): Res = {
    pure val n = length(o.get("zero")) / 12
    pure val tol = largest(o.get("zero")) / 10^11
    pure val r0 = require(CLEAN, "a polygon for every panel", 0, length(o.get("polygons")) == 12 * n and length(o.get("values")) == n)
    if (length(r0.bad) > 0) r0 else
      range(0, n).foldl(r0, (r, k) => {
        pure val want = points(o.get("zero"), k, 4).foldl([], (l, v) => l.append(v3(v.x, 0, v.z)))
        pure val r1 = judge(r, "outline of the panel on the page", k, apart(points(o.get("polygons"), k, 4), want), 0, tol)
        judge(r1, "pressure coefficient of the panel on the page", k, o.get("values")[k], o.get("pcoef")[k], iabs(o.get("pcoef")[k]) / 10^11)
      })
  }

  // ---- the view: panels, shaded by a quantity
  // shades: red + green + blue, each in [0, 1]; the scale runs from black over red and yellow to white
  pure def shading(r0: Res, clause: str, data: List[int], shades: List[int]): Res = {
    pure val lo = data.foldl(data[0], (a, x) => imin(a, x))
    pure val hi = data.foldl(data[0], (a, x) => imax(a, x))
    pure val n = length(data)
    if ((hi - lo) * 10^8 <= imax(iabs(hi), iabs(lo))) leave(r0) else
    range(0, n).foldl(r0, (r1, i) => {
      // at the ends of the scale its ends
      pure val r2 = if (data[i] == hi) judge(r1, clause, i, shades[i], 3 * S, S / 20) else if (data[i] == lo) judge(r1, clause, i, shades[i], 0, S / 10) else r1
      range(0, n).foldl(r2, (r, j) =>
        if (data[i] < data[j]) require(r, clause, i, shades[i] <= shades[j] + S / 10^6
          // and values that differ by more than a fiftieth of the scale are told apart
          and (50 * (data[j] - data[i]) <= hi - lo or shades[i] < shades[j])) else r)
    })
  }
  pure def faces(o: Obs): Res = {
    pure val n = length(o.get("panels")) / 12
    pure val tol = largest(o.get("panels")) / 10^6
    pure val r0 = require(CLEAN, "a face for every panel", 0, length(o.get("faces")) == 12 * n)
    if (length(r0.bad) > 0) r0 else
      range(0, n).foldl(r0, (r, k) => judge(r, "outline of the panel in the view", k, apart(points(o.get("faces"), k, 4), points(o.get("panels"), k, 4)), 0, tol))
  }
  pure def things(o: Obs): Res = {
    pure val n = length(o.get("rings")) / 12
    pure val r0 = require(CLEAN, "a face for every ring", 0, length(o.get("ringfaces")) == 12 * n)
    if (length(r0.bad) > 0) r0 else
      range(0, n).foldl(r0, (r, k) => judge(r, "outline of the ring in the view", k, apart(points(o.get("ringfaces"), k, 4), points(o.get("rings"), k, 4)), 0, largest(o.get("rings")) / 10^6))
  }
  // ---- hull lines: each of the hull's lines is drawn, and no others
  pure def hull(o: Obs): Res = {
    pure val want = o.get("hullsizes")
    pure val drawn = o.get("linesizes")
    pure def line(l: List[int], sizes: List[int], k: int): List[V] = {
      pure val from = range(0, k).foldl(0, (a, i) => a + sizes[i])
      range(from, from + sizes[k]).foldl([], (r, i) => r.append(at(l, i))) }
    range(0, length(want)).foldl(require(CLEAN, "as many lines as the hull has", 0, length(want) == length(drawn)), (r, k) => {
      pure val mine = line(o.get("hull"), want, k)
      judge(r, "line of the hull", k, range(0, length(drawn)).foldl(10^60, (m, i) => imin(m, apart2(mine, line(o.get("lines"), drawn, i)))), 0, (largest(o.get("hull")) + S) / 10^9) })
  }
  // ---- arrows: six numbers each, start and end
  pure def arrowsMatch(r0: Res, clause: str, got: List[int], want: List[int], tol: int): Res = {
    pure val n = length(want) / 6
    pure val r1 = require(r0, clause, 0, length(got) == length(want))
    if (length(got) != length(want)) r1 else
      range(0, n).foldl(r1, (r, k) => judge(r, clause, k, range(0, n).foldl(10^60, (m, i) =>
        imin(m, imax(gap(at(got, 2 * i), at(want, 2 * k)), gap(at(got, 2 * i + 1), at(want, 2 * k + 1))))), 0, tol))
  }
  pure def listV(l: List[int], v: V): List[int] = l.append(v.x).append(v.y).append(v.z)
  // stations next to the luff, of every sail and image
  pure def atLuff(o: Obs): List[int] = {
    pure val nc = o.get("grid")[0]
    pure val ns = o.get("grid")[1]
    range(0, length(o.get("cp")) / 3).foldl([], (l, k) => if (k % (nc * ns) < ns) l.append(k) else l) }
  pure def winds(o: Obs): Res = {
    pure val ks = atLuff(o)
    pure val tol = (largest(o.get("cp")) + largest(o.get("wind")) + largest(o.get("tws"))) / 10^9
    if (length(o.get("green")) == 0) require(CLEAN, "arrows of the true wind", 0, false) else {
      // all start at one place, at the height of their panels
      pure val home = at(o.get("green"), 0)
      pure def drawn(vs: str): List[int] = ks.foldl([], (l, k) => {
        pure val h = at(o.get("cp"), k).z
        pure val v = at(o.get(vs), k)
        listV(listV(l, v3(home.x, home.y, h)), v3(home.x + v.x, home.y + v.y, h)) })
      pure val r1 = arrowsMatch(CLEAN, "arrow of the true wind", o.get("green"), drawn("tws"), tol)
      pure val r2 = arrowsMatch(r1, "arrow of the apparent wind", o.get("blue"), drawn("wind"), tol)
      pure val induced = ks.foldl([], (l, k) => {
        pure val p = at(o.get("cp"), k)
        pure val v = at(o.get("vindcp"), k)
        listV(listV(l, p), v3(p.x + v.x, p.y + v.y, p.z)) })
      pure val r3 = arrowsMatch(r2, "arrow of the induced wind", o.get("otherArrows"), if (o.get("induced")[0] == 1) induced else [], tol + largest(o.get("vindcp")) / 10^9)
      // to windward: against every apparent wind, if these do not come from everywhere
      pure val ws = ks.foldl([], (l, k) => l.append(at(o.get("wind"), k)))
      pure val oneWay = ws.foldl(true, (a, v) => a and ws.foldl(true, (b, w) => b and vdot(v, w) > 0))
      if (oneWay) ws.foldl(r3, (r, v) => require(r, "winds come from their windward edge", 0, v.x * home.x + v.y * home.y <= 0)) else leave(r3)
    }
  }
  // what is under water is drawn fainter
  pure def faint(o: Obs): Res =
    require(CLEAN, "images are drawn fainter", 0, o.get("opaque")[0] > o.get("opaque")[1])
  // ---- the black arrows: total force at the centre of effort, its opposite at the centre of lateral resistance
  pure def effort(o: Obs): Res = {
    pure val f = at(o.get("totf"), 0)
    pure val n = vnorm(f)
    pure val mean = o.get("speeds").foldl(0, (a, x) => a + x) / length(o.get("speeds"))
    pure val k = mul(8 * S / 10, mean)
    pure val u = v3(div(mul(k, f.x), n), div(mul(k, f.y), n), div(mul(k, f.z), n))
    // the centre of effort is measured from the reference point
    pure val ce = vadd(at(o.get("ce"), 0), at(o.get("ref"), 0))
    pure val clr = at(o.get("clr"), 0)
    pure val tol = (vmaxabs(ce) + vmaxabs(clr) + vmaxabs(at(o.get("ref"), 0)) + k) / 10^8
    if (n < 10^20) leave(CLEAN) else {
      pure val r1 = arrowsMatch(CLEAN, "arrows of the force", o.get("black"), listV(listV(listV(listV([], ce), vadd(ce, u)), clr), vsub(clr, u)), tol)
      pure val r2 = require(r1, "two points", 0, length(o.get("dots")) == 6)
      if (length(o.get("dots")) != 6) r2 else {
        pure def found(p: V): int = imin(gap(p, at(o.get("dots"), 0)), gap(p, at(o.get("dots"), 1)))
        judge(judge(r2, "centre of effort", 0, found(ce), 0, tol), "centre of lateral resistance", 0, found(clr), 0, tol) }
    }
  }

  pure def check(act: str, o: Obs): Res =
    if (act == "page") page(o)
    else if (act == "view") both(both(both(faces(o), hull(o)), both(winds(o), effort(o))), faint(o))
    else if (act == "pressure shades") shading(CLEAN, "shade of the pressure coefficient", o.get("pcoef"), o.get("shades"))
    else if (act == "circulation shades") shading(CLEAN, "shade of the circulation", o.get("gamma"), o.get("shades"))
    else if (act == "things") things(o)
    else require(CLEAN, "unknown action", 0, act == "given")

  action init = all { which' = 0, pos' = 0, obs' = Map(), verdicts' = [CLEAN] }
  action step = any {
    all {
      pos < length(RUNS[which]),
      { val e = RUNS[which][pos]
        val o = merge(obs, e.f)
        all { which' = which, pos' = pos + 1, obs' = o, verdicts' = verdicts.replaceAt(which, both(verdicts[which], check(e.act, o))) } } },
    all { pos == length(RUNS[which]), which + 1 < length(RUNS), which' = which + 1, pos' = 0, obs' = Map(), verdicts' = verdicts.append(CLEAN) } }
}
