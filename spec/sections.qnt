// P16: coefficients of the spanwise strips of the above-water sails, and the plots of them.
module sections {
  import num.* from "./num"
  import vec.* from "./vec"
  import trace.* from "./trace"

  pure def sailCount(o: Obs): int = length(o.get("cp")) / 6 / (o.get("grid")[0] * o.get("grid")[1])
  // panels of strip j of sail s
  pure def strip(o: Obs, s: int, j: int): List[int] = {
    pure val nc = o.get("grid")[0]
    pure val ns = o.get("grid")[1]
    range(0, nc).foldl([], (l, i) => l.append((s * nc + i) * ns + j))
  }
  pure def total(l: List[int], w: List[int]): int = l.foldl(0, (a, k) => a + w[k])
  pure def coefficient(o: Obs, load: List[int], s: int, j: int): int = {
    pure val l = strip(o, s, j)
    pure val weighted = l.foldl(0, (a, k) => {
      pure val w = at(o.get("wind"), k)
      pure val q = mul(o.get("rho")[0], vdot(w, w)) / 2
      a + div(vnorm(at(load, k)), q) })
    div(weighted, total(l, o.get("areas")))
  }
  pure def coefficients(o: Obs, load: List[int]): List[int] =
    range(0, sailCount(o) * o.get("grid")[1]).foldl([], (l, q) => l.append(coefficient(o, load, q / o.get("grid")[1], q % o.get("grid")[1])))
  pure def agree(r0: Res, clause: str, got: List[int], want: List[int], tol: int): Res = {
    pure val r1 = require(r0, clause, length(got), length(got) == length(want))
    if (length(got) != length(want)) r1 else range(0, length(want)).foldl(r1, (r, k) => judge(r, clause, k, got[k], want[k], tol))
  }
  pure def sections(o: Obs): Res = {
    pure def expected(n: str): List[int] = coefficients(o, o.get(n))
    pure val l = expected("lift")
    pure val d = expected("drag")
    pure val f = expected("force")
    agree(agree(agree(CLEAN, "section lift", o.get("seclift"), l, largest(l) / 10^10 + 10^14),
          "section drag", o.get("secdrag"), d, largest(d) / 10^10 + 10^14),
          "section force", o.get("secforce"), f, largest(f) / 10^10 + 10^14)
  }
  pure def sailMean(o: Obs, c: List[int], s: int): int = {
    pure val ns = o.get("grid")[1]
    pure val ws = range(0, ns).foldl([], (l, j) => l.append(total(strip(o, s, j), o.get("areas"))))
    div(range(0, ns).foldl(0, (a, j) => a + mul(ws[j], c[s * ns + j])), sumList(ws))
  }
  pure def seriesOf(o: Obs, load: List[int]): { y: List[int], least: int } = {
    pure val c = coefficients(o, load)
    pure val ns = o.get("grid")[1]
    pure val means = range(0, sailCount(o)).foldl([], (l, s) => l.append(sailMean(o, c, s)))
    { y: range(0, length(c)).foldl([], (l, q) => l.append(if (means[q / ns] == 0) 0 else div(c[q], means[q / ns]))), least: minList(means) }
  }
  pure def heights(o: Obs): List[int] = {
    pure val ns = o.get("grid")[1]
    range(0, sailCount(o) * ns).foldl([], (l, q) => {
      pure val st = strip(o, q / ns, q % ns)
      l.append(st.foldl(0, (a, k) => a + at(o.get("cp"), k).z) / length(st)) })
  }
  pure def oneSeries(r: Res, clause: str, got: List[int], w: { y: List[int], least: int }): Res =
    if (w.least < S / 10^7) leave(r) else agree(r, clause, got, w.y, largest(w.y) / 10^9)
  pure def series(o: Obs): Res = {
    pure val h = heights(o)
    pure val r0 = agree(CLEAN, "heights of the strips", o.get("heights"), h, largest(h) / 10^11)
    oneSeries(oneSeries(r0, "lift series", o.get("serlift"), seriesOf(o, o.get("lift"))), "drag series", o.get("serdrag"), seriesOf(o, o.get("drag")))
  }
  // the two plots: series by the sail in its label, horizontal and vertical positions
  pure def plotted(o: Obs): Res = {
    pure val h = heights(o)
    pure val n = sailCount(o)
    pure val r0 = agree(agree(CLEAN, "sails in the lift plot", o.get("lnames"), o.get("sails"), 0), "sails in the drag plot", o.get("dnames"), o.get("sails"), 0)
    if (length(r0.bad) > 0) r0 else {
      pure val r1 = agree(agree(r0, "heights in the lift plot", o.get("ly"), h, largest(h) / 10^11), "heights in the drag plot", o.get("dy"), h, largest(h) / 10^11)
      oneSeries(oneSeries(r1, "lift plot", o.get("lx"), seriesOf(o, o.get("lift"))), "drag plot", o.get("dx"), seriesOf(o, o.get("drag")))
    }
  }
}
