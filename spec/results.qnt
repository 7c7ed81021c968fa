// What is reported of a solved flow: moments, totals, centre of effort, the keel, the boat's own
// directions, and the sheets of the workbook.
module results {
  import num.* from "./num"
  import vec.* from "./vec"
  import shape.* from "./shape"
  import rig.* from "./rig"
  import wind.* from "./wind"
  import trace.* from "./trace"

  // an image's moment is taken about the image of the reference point
  pure def arm(cp: V, ref: V): V = vsub(cp, if (cp.z > 0) ref else mirrorZ(ref))
  pure def alongCentreline(v: V, leeway: int): V = apply(rotZ(-rad(leeway)), v)
  // finding K1: turned the other way
  pure def alongK1(v: V, leeway: int): V = apply(rotZ(rad(leeway)), v)
  pure def judgeCow(r: Res, clause: str, idx: int, got: V, v: V, leeway: int, tol: int): Res = {
    pure val want = alongCentreline(v, leeway)
    pure val other = alongK1(v, leeway)
    if (vmaxabs(vsub(got, want)) > tol and vmaxabs(vsub(got, other)) <= tol)
      judge(r, "along the centreline (K1)", idx, vmaxabs(vsub(got, want)), 0, tol)
    else judgeV(r, clause, idx, got, want, tol)
  }

  pure def half(o: Obs): int = length(o.get("cp")) / 6
  pure def panelsPerSail(o: Obs): int = o.get("grid")[0] * o.get("grid")[1]
  pure def sumOf(l: List[int], lo: int, hi: int): V = range(lo, hi).foldl(ZERO, (a, k) => vadd(a, at(l, k)))
  // what the sums are made of, in magnitude
  pure def amount(l: List[int], n: int): int = range(0, n).foldl(0, (a, k) => a + vmaxabs(at(l, k)))
  pure def leverage(o: Obs, ref: V): int =
    range(0, half(o)).foldl(0, (a, k) => a + mul(vnorm(arm(at(o.get("cp"), k), ref)) + vnorm(ref), vnorm(at(o.get("force"), k))))

  // ---------------------------------------------------------------- P13
  pure def totals(o: Obs): Res = {
    pure val h = half(o)
    pure val m = panelsPerSail(o)
    pure val ref = at(o.get("ref"), 0)
    pure val tf = amount(o.get("force"), h) / 10^11 + 10^14
    pure val tm = leverage(o, ref) / 10^11 + 10^14
    pure val r0 = range(0, 2 * h).foldl(CLEAN, (r, k) =>
      judgeV(r, "moment of the panel", k, at(o.get("moment"), k), vcross(arm(at(o.get("cp"), k), ref), at(o.get("force"), k)), tm))
    pure val f = at(o.get("totf"), 0)
    pure val mo = at(o.get("totm"), 0)
    pure val r1 = judgeV(judgeV(r0, "total force", 0, f, sumOf(o.get("force"), 0, h), tf), "total moment", 0, mo, sumOf(o.get("moment"), 0, h), tm)
    pure val n = h / m
    pure val r2 = range(0, n).foldl(r1, (r, s) =>
      judgeV(judgeV(r, "total force of the sail", s, at(o.get("sailf"), s), sumOf(o.get("force"), s * m, (s + 1) * m), tf),
             "total moment of the sail", s, at(o.get("sailm"), s), sumOf(o.get("moment"), s * m, (s + 1) * m), tm))
    pure val r3 = judgeV(judgeV(r2, "sails add up to the total force", 0, sumOf(o.get("sailf"), 0, n), f, tf), "sails add up to the total moment", 0, sumOf(o.get("sailm"), 0, n), mo, tm)
    // centre of effort, from the reference point
    pure val ce = at(o.get("ce"), 0)
    pure val ff = vdot(f, f)
    if (ff < 10^20) leave(r3) else {
      pure val parallel = div(vdot(f, mo), ff)
      pure val across = vsub(mo, vscale(parallel, f))
      pure val tc = tm + mul(vnorm(ce), vnorm(f)) / 10^10 + div(mul(tm, amount(o.get("force"), h)), vnorm(f))
      pure val r4 = judgeV(r3, "moment of the centre of effort", 0, vcross(ce, f), across, tc)
      pure val work = range(0, h).foldl(0, (a, k) => a + vdot(arm(at(o.get("cp"), k), ref), at(o.get("force"), k)))
      judge(r4, "centre of effort along the force", 0, vdot(ce, f), work, tc)
    }
  }
  pure def keel(o: Obs): Res = {
    pure val ref = at(o.get("ref"), 0)
    pure val f = at(o.get("totf"), 0)
    pure val r = vsub(at(o.get("clr"), 0), ref)
    pure val tol = mul(vnorm(r) + vnorm(ref), amount(o.get("force"), half(o))) / 10^11 + leverage(o, ref) / 10^11 + 10^14
    pure val km = at(o.get("keelm"), 0)
    judgeV(judgeV(CLEAN, "keel moment", 0, km, vcross(r, vneg(f)), tol), "overall moment", 0, at(o.get("allm"), 0), vadd(at(o.get("totm"), 0), km), tol)
  }
  pure def centreline(o: Obs): Res = {
    pure val lee = o.get("leeway")[0]
    pure val h = half(o)
    pure val ref = at(o.get("ref"), 0)
    pure val tf = amount(o.get("force"), 2 * h) / 10^11 + 10^14
    pure val tm = leverage(o, ref) / 10^11 + 10^14
    pure val r0 = range(0, 2 * h).foldl(CLEAN, (r, k) => judgeCow(r, "force along the centreline", k, at(o.get("fcow"), k), at(o.get("force"), k), lee, tf))
    pure val r1 = judgeCow(r0, "total force along the centreline", 0, at(o.get("totfcow"), 0), at(o.get("totf"), 0), lee, tf)
    pure val mc = at(o.get("totmcow"), 0)
    pure val r2 = judgeCow(r1, "total moment along the centreline", 0, mc, at(o.get("totm"), 0), lee, tm)
    pure val r3 = judge(r2, "yaw with the other sign", 0, o.get("yawjg")[0], -mc.z, tm)
    if (length(o.get("keelm")) == 0) r3 else {
      pure val tk = tm + mul(vnorm(at(o.get("clr"), 0)) + vnorm(ref), tf)
      pure val kc = at(o.get("keelmcow"), 0)
      pure val ac = at(o.get("allmcow"), 0)
      pure val r4 = judgeCow(r3, "keel moment along the centreline", 0, kc, at(o.get("keelm"), 0), lee, tk)
      pure val r5 = judgeV(r4, "overall moment along the centreline", 0, ac, vadd(mc, kc), tk)
      judge(judge(r5, "keel yaw with the other sign", 0, o.get("yawjg")[1], -kc.z, tk), "overall yaw with the other sign", 0, o.get("yawjg")[2], -ac.z, tk)
    }
  }
  // the same flow evaluated about another point
  pure def moved(o: Obs): Res = {
    pure val d = vsub(at(o.get("ref2"), 0), at(o.get("ref"), 0))
    pure val h = half(o)
    pure val f = at(o.get("totf"), 0)
    pure val tm = (leverage(o, at(o.get("ref"), 0)) + leverage(o, at(o.get("ref2"), 0))) / 10^11 + 10^14
    pure val r1 = judgeV(CLEAN, "total force about another point", 0, at(o.get("totf2"), 0), f, 0)
    pure val m2 = at(o.get("totm2"), 0)
    pure val r2 = judgeV(r1, "total moment about another point", 0, m2, vsub(at(o.get("totm"), 0), vcross(d, f)), tm)
    pure val r3 = range(0, h).foldl(r2, (r, k) =>
      judgeV(r, "force of a panel about another point", k, at(o.get("force2"), k), at(o.get("force"), k), 0))
    if (length(o.get("keelm")) == 0) r3
    else judgeV(r3, "overall moment about another point", 0, at(o.get("allm2"), 0), at(o.get("allm"), 0), tm + mul(vnorm(at(o.get("clr"), 0)), amount(o.get("force"), h)) / 10^11)
  }

  // ---------------------------------------------------------------- P14
  // an angle in degrees of a horizontal direction; vectors of no length have none, at the cut both signs do
  pure def judgeAngle(r: Res, clause: str, idx: int, got: int, v: V, less: int, tol: int): Res = {
    pure val n = isqrt(v.x * v.x + v.y * v.y)
    pure val want = angleDeg(v) - less
    if (n < 10^22) leave(r)
    else if (v.x < 0 and iabs(v.y) * 10^9 < n and iabs(got - want) > 180 * S)
      judge(r, clause, idx, if (got > want) got - 360 * S else got + 360 * S, want, tol)
    else judge(r, clause, idx, got, want, tol)
  }
  pure def column(o: Obs, x: str, y: str, z: str, k: int): V = v3(o.get(x)[k], o.get(y)[k], o.get(z)[k])
  // fmt: how far the stored digits may be off
  pure def components(o: Obs): Res = {
    pure val h = half(o)
    pure val m = panelsPerSail(o)
    pure val fmt = o.get("fmt")[0]
    pure val lee = o.get("leeway")[0]
    pure val ref = at(o.get("ref"), 0)
    pure val g = o.get("rig")
    pure val rg = { mainLuff: g[0], jibLuff: g[1], height: g[2], base: g[3], sheer: g[4], boom: g[5], rake: g[6], loa: g[7] }
    pure val back = transpose(sailing(o.get("heel")[0], lee))
    pure val ups = range(0, h).foldl([], (l, k) => l.append(apply(back, at(o.get("cp"), k)).z))
    pure val r0 = require(CLEAN, "a row for every panel above the water", o.get("rows")[0], o.get("rows")[0] == h)
    if (o.get("rows")[0] != h) r0 else
    range(0, h).foldl(r0, (r, k) => {
      pure val name = o.get("sails")[k / m]
      pure val tack = if (name == 0) jibLuff(rg).tack else mainLuff(rg).tack
      pure val top = range(k - k % m, k - k % m + m).foldl(-(10^40), (a, j) => imax(a, ups[j]))
      pure val vi = at(o.get("vindcp"), k)
      pure val vt = at(o.get("vcp"), k)
      pure val f = at(o.get("force"), k)
      pure val tw = at(o.get("tws"), k)
      pure val aw = at(o.get("wind"), k)
      pure val p = at(o.get("cp"), k)
      pure val tf = fmt + vmaxabs(f) / 10^11
      pure val tang = fmt + S / 10^8
      pure val a1 = judge(r, "circulation column", k, o.get("Circulation_magnitude")[k], o.get("gamma")[k], fmt + iabs(o.get("gamma")[k]) / 10^13)
      pure val a2 = judgeV(a1, "induced velocity columns", k, column(o, "V_induced_COG.x", "V_induced_COG.y", "V_induced_COG.z", k), vi, fmt + vmaxabs(vi) / 10^13)
      pure val a3 = judge(a2, "induced velocity length column", k, o.get("V_induced_length")[k], vnorm(vi), fmt + vnorm(vi) / 10^11)
      pure val a4 = judgeV(a3, "velocity columns", k, column(o, "V_app_fs_COG.x", "V_app_fs_COG.y", "V_app_fs_COG.z", k), vt, fmt + vmaxabs(vt) / 10^13)
      pure val a5 = judge(a4, "velocity length column", k, o.get("V_app_fs_length")[k], vnorm(vt), fmt + vnorm(vt) / 10^11)
      pure val a6 = judgeAngle(judgeAngle(a5, "velocity angle to the course", k, o.get("AWA_fs_COG_deg")[k], vt, 0, tang),
                               "velocity angle to the centreline", k, o.get("AWA_fs_COW_deg")[k], vt, lee, tang)
      pure val a7 = judge(a6, "pressure column", k, o.get("Pressure")[k], o.get("pressure")[k], fmt + iabs(o.get("pressure")[k]) / 10^13)
      pure val a8 = judgeV(a7, "force columns", k, column(o, "F_sails_COG.x", "F_sails_COG.y", "F_sails_COG.z", k), f, fmt + vmaxabs(f) / 10^13)
      pure val a9 = judgeV(a8, "moment columns", k, column(o, "M_sails_COG.x", "M_sails_COG.y", "M_sails_COG.z", k), vcross(arm(p, ref), f),
                           fmt + mul(vnorm(arm(p, ref)) + vnorm(ref), vnorm(f)) / 10^11)
      pure val b1 = judgeCow(a9, "centreline force columns", k, column(o, "F_sails_COW.x", "F_sails_COW.y", "F_sails_COW.z", k), f, lee, tf)
      pure val b2 = judgeV(b1, "point columns", k, column(o, "cp_points_COG.x", "cp_points_COG.y", "cp_points_COG.z", k), p, fmt + vmaxabs(p) / 10^13)
      pure val b3 = judgeV(b2, "true wind columns", k, column(o, "TWS_COG.x", "TWS_COG.y", "TWS_COG.z", k), tw, fmt + vmaxabs(tw) / 10^13)
      pure val b4 = judge(b3, "true wind length column", k, o.get("TWS_length")[k], vnorm(tw), fmt + vnorm(tw) / 10^11)
      pure val b5 = judgeV(b4, "apparent wind columns", k, column(o, "V_app_infs_COG.x", "V_app_infs_COG.y", "V_app_infs_COG.z", k), aw, fmt + vmaxabs(aw) / 10^13)
      pure val b6 = judge(b5, "apparent wind length column", k, o.get("V_app_infs_length")[k], vnorm(aw), fmt + vnorm(aw) / 10^11)
      pure val b7 = judgeAngle(judgeAngle(b6, "apparent wind angle to the course", k, o.get("AWA_infs_COG_deg")[k], aw, 0, tang),
                               "apparent wind angle to the centreline", k, o.get("AWA_infs_COW_deg")[k], aw, lee, tang)
      pure val tz = fmt + (vmaxabs(p) + S) / 10^11
      pure val b8 = judge(b7, "upright height column", k, o.get("cp_points_upright.z")[k], ups[k], tz)
      pure val d = top - tack.z
      pure val b9 = if (iabs(d) < S / 1000) leave(b8) else judge(b8, "girth column", k, o.get("girths")[k], div(ups[k] - tack.z, d), fmt + div(tz - fmt, iabs(d)) * 10)
      judge(b9, "sail name column", k, o.get("sail_name")[k], name, 0)
    })
  }
  // the totals of the integrals sheet are the sums of the columns of the components sheet
  pure def columnSums(o: Obs): Res = {
    pure val h = half(o)
    pure val fmt = o.get("fmt2")[0] + o.get("fmt")[0] * h
    pure def col(n: str): int = o.get(n).foldl(0, (a, x) => a + x)
    pure val tf = fmt + amount(o.get("force"), h) / 10^11
    pure val tm = fmt + leverage(o, at(o.get("ref"), 0)) / 10^11
    pure val r1 = judgeV(CLEAN, "total force is the sum of its columns", 0, at(o.get("sheetf"), 0), v3(col("F_sails_COG.x"), col("F_sails_COG.y"), col("F_sails_COG.z")), tf)
    pure val r2 = judgeV(r1, "total moment is the sum of its columns", 0, at(o.get("sheetm"), 0), v3(col("M_sails_COG.x"), col("M_sails_COG.y"), col("M_sails_COG.z")), tm)
    judgeV(r2, "total centreline force is the sum of its columns", 0, at(o.get("sheetfcow"), 0), v3(col("F_sails_COW.x"), col("F_sails_COW.y"), col("F_sails_COW.z")), tf)
  }
  // the inlet sheet of an exponential profile: the wind at the reference height
  pure def inletSheet(o: Obs): Res = {
    pure val a = o.get("air")
    pure val lee = o.get("leeway")[0]
    pure val air = { kind: a[0], alpha: a[1], tws: a[2], sog: a[3], coeff: a[4], href: a[5], level: a[6], rough: a[7], rho: a[8] }
    pure val t = trueWind(air, air.href)
    pure val w = apparent(air, t)
    pure val fmt = o.get("fmt3")[0] + (vnorm(t) + iabs(air.sog)) / 10^11
    pure val tang = o.get("fmt3")[0] + S / 10^8
    pure val q = o.get("inletsheet")
    pure val r1 = judge(judge(CLEAN, "reference height", 0, q[0], air.href, fmt), "reference water level", 0, q[1], air.level, fmt)
    pure val r2 = judgeV(r1, "reference true wind", 0, v3(q[2], q[3], q[4]), t, fmt)
    pure val r3 = judge(r2, "reference true wind length", 0, q[5], vnorm(t), fmt)
    pure val r4 = judgeV(r3, "reference apparent wind", 0, v3(q[6], q[7], q[8]), w, fmt)
    pure val r5 = judge(r4, "reference apparent wind length", 0, q[9], vnorm(w), fmt)
    judgeAngle(judgeAngle(r5, "reference angle to the course", 0, q[10], w, 0, tang), "reference angle to the centreline", 0, q[11], w, lee, tang)
  }
  // what was returned and what is in the file
  pure def stored(o: Obs): Res =
    range(0, length(o.get("returned"))).foldl(require(CLEAN, "as many values in the file", 0, length(o.get("returned")) == length(o.get("infile"))), (r, k) =>
      if (k < length(o.get("infile"))) judge(r, "value in the file", k, o.get("infile")[k], o.get("returned")[k], o.get("digits")[k] + iabs(o.get("returned")[k]) / 10^13) else r)
}
