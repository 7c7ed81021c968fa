// Cases that differ in a single setting.  For a computation that depends on all settings, and on
// nothing else, the two are two cases; for one that remembers too much they look the same.
module relatives {
  import num.* from "./num"
  import vec.* from "./vec"
  import shape.* from "./shape"
  import rig.* from "./rig"
  import wind.* from "./wind"
  import cases.* from "./cases"

  // families of settings that matter together: what the base must be like, and the settings
  type Family = { kind: int, sails: int, twistMode: int, settings: List[str] }
  pure val FAMILIES: List[Family] = [
    { kind: 1, sails: 2, twistMode: 0, settings: ["reference height", "water level", "coefficient"] },
    { kind: 2, sails: 2, twistMode: 0, settings: ["reference height", "roughness", "density"] },
    { kind: 0, sails: 2, twistMode: 0, settings: ["true wind speed", "true wind angle", "boat speed"] },
    { kind: 1, sails: 2, twistMode: 0, settings: ["heel", "leeway", "rake"] },
    { kind: 2, sails: 2, twistMode: 1, settings: ["jib twist", "main twist", "twist mode"] },
    { kind: 1, sails: 2, twistMode: 2, settings: ["jib twist", "main twist", "twist mode"] },
    { kind: 1, sails: 2, twistMode: 0, settings: ["jib twist", "main twist", "twist mode"] },
    { kind: 0, sails: 2, twistMode: 0, settings: ["jib camber", "main camber", "interpolation"] },
    { kind: 1, sails: 2, twistMode: 0, settings: ["jib camber position", "main camber position", "grid"] },
    { kind: 2, sails: 2, twistMode: 0, settings: ["jib chords", "main chords", "sails"] },
    { kind: 1, sails: 2, twistMode: 0, settings: ["jib girths", "main girths", "transposed grid"] },
    { kind: 2, sails: 2, twistMode: 0, settings: ["main luff", "jib luff", "foretriangle height"] },
    { kind: 1, sails: 2, twistMode: 0, settings: ["foretriangle base", "sheer", "boom"] },
    { kind: 0, sails: 2, twistMode: 0, settings: ["mast", "centre of lateral resistance", "reference point"] },
    { kind: 1, sails: 1, twistMode: 0, settings: ["side of the wind", "heel the other way", "profile"] },
    { kind: 0, sails: 0, twistMode: 0, settings: ["orientation", "density", "boat speed"] },
    { kind: 2, sails: 0, twistMode: 0, settings: ["sails", "profile", "leeway the other way"] } ]

  pure def prepared(c: Case, f: Family): Case = {
    pure val b = c.boat
    pure val r = b.rig
    pure val straight = { ...b, rig: if (r.sheer == 0) { ...r, sheer: r.mainLuff / 10, boom: r.mainLuff / 9 } else if (r.boom == 0) { ...r, boom: r.mainLuff / 9 } else r, sails: f.sails, twistMode: f.twistMode,
                          heel: if (b.heel == 0) 12 * S else b.heel, leeway: if (b.leeway == 0) 4 * S else b.leeway,
                          nc: if (b.nc == b.ns) b.nc + 1 else b.nc }
    { ...c, boat: straight, air: { ...c.air, kind: f.kind,
      coeff: if (c.air.coeff == 0) S / 7 else c.air.coeff, tws: if (c.air.tws == 0) 5 * S else c.air.tws }, keelOn: true } }

  // a little more of everything but the ends given: the girths stay between 0 and 1
  pure def stretched(l: List[int], k: int): List[int] = range(0, length(l)).foldl([], (a, i) => a.append(mul(l[i], k)))
  pure def opened(l: List[int], d: int): List[int] = range(0, length(l)).foldl([], (a, i) => a.append(l[i] + d * i / length(l)))
  pure def shifted(l: List[int], d: int): List[int] = range(0, length(l)).foldl([], (a, i) => a.append(if (i == 0 or i == length(l) - 1) l[i] else l[i] + mul(mul(l[i], S - l[i]), d)))

  // the case with one setting more by the part d of itself
  pure def related(c: Case, what: str, d: int): Case = {
    pure val b = c.boat
    pure val r = b.rig
    pure val a = c.air
    pure val k = S + d
    pure def air(x: Air): Case = { ...c, air: x }
    pure def rigged(x: Rig): Case = { ...c, boat: { ...b, rig: x } }
    pure def jib(x: Data): Case = { ...c, boat: { ...b, jib: x } }
    pure def mainsail(x: Data): Case = { ...c, boat: { ...b, mainsail: x } }
    if (what == "reference height") air({ ...a, href: mul(a.href, k) })
    else if (what == "water level") air({ ...a, level: a.level - mul(a.href, d) / 10 })
    else if (what == "coefficient") air({ ...a, coeff: mul(a.coeff, k) })
    else if (what == "roughness") air({ ...a, rough: mul(a.rough, k) })
    else if (what == "density") air({ ...a, rho: mul(a.rho, k) })
    else if (what == "true wind speed") air({ ...a, tws: mul(a.tws, k) })
    else if (what == "true wind angle") air({ ...a, alpha: a.alpha + 10 * d })
    else if (what == "side of the wind") air({ ...a, alpha: -a.alpha })
    else if (what == "boat speed") air({ ...a, sog: a.sog + d })
    else if (what == "profile") air({ ...a, kind: (a.kind + 1) % 3 })
    else if (what == "heel") { ...c, boat: { ...b, heel: mul(b.heel, k) } }
    else if (what == "heel the other way") { ...c, boat: { ...b, heel: -b.heel } }
    else if (what == "leeway") { ...c, boat: { ...b, leeway: mul(b.leeway, k) } }
    else if (what == "leeway the other way") { ...c, boat: { ...b, leeway: -b.leeway } }
    else if (what == "twist mode") { ...c, boat: { ...b, twistMode: (b.twistMode + 1) % 3 } }
    else if (what == "interpolation") { ...c, boat: { ...b, interp: if (length(b.jib.girths) >= 4 and length(b.mainsail.girths) >= 4) 1 - b.interp else b.interp } }
    else if (what == "sails") { ...c, boat: { ...b, sails: (b.sails + 1) % 3 } }
    else if (what == "grid") { ...c, boat: { ...b, ns: b.ns + 1 } }
    else if (what == "transposed grid") { ...c, boat: { ...b, ns: b.nc, nc: b.ns } }
    else if (what == "rake") rigged({ ...r, rake: r.rake + 10 * d })
    else if (what == "main luff") rigged({ ...r, mainLuff: mul(r.mainLuff, k) })
    else if (what == "jib luff") rigged({ ...r, jibLuff: mul(r.jibLuff, k) })
    else if (what == "foretriangle height") rigged({ ...r, height: mul(r.height, k) })
    else if (what == "foretriangle base") rigged({ ...r, base: mul(r.base, k) })
    else if (what == "sheer") rigged({ ...r, sheer: mul(r.sheer, k) })
    else if (what == "boom") rigged({ ...r, boom: mul(r.boom, k) })
    else if (what == "mast") rigged({ ...r, loa: r.loa + mul(r.base, d) / 10 })
    else if (what == "jib twist") jib({ ...b.jib, twist: opened(b.jib.twist, 10 * d) })
    else if (what == "main twist") mainsail({ ...b.mainsail, twist: opened(b.mainsail.twist, 10 * d) })
    else if (what == "jib camber") jib({ ...b.jib, camber: opened(b.jib.camber, d / 10) })
    else if (what == "main camber") mainsail({ ...b.mainsail, camber: opened(b.mainsail.camber, d / 10) })
    else if (what == "jib camber position") jib({ ...b.jib, pos: opened(b.jib.pos, d) })
    else if (what == "main camber position") mainsail({ ...b.mainsail, pos: opened(b.mainsail.pos, d) })
    else if (what == "jib chords") jib({ ...b.jib, chords: stretched(b.jib.chords, k) })
    else if (what == "main chords") mainsail({ ...b.mainsail, chords: stretched(b.mainsail.chords, k) })
    else if (what == "jib girths") jib({ ...b.jib, girths: shifted(b.jib.girths, d) })
    else if (what == "main girths") mainsail({ ...b.mainsail, girths: shifted(b.mainsail.girths, d) })
    else if (what == "centre of lateral resistance") { ...c, clr: v3(c.clr.x + d, c.clr.y, c.clr.z + d) }
    else if (what == "orientation") { ...c, turn: -c.turn }
    else if (what == "reference point") { ...c, ref: v3(c.ref.x, c.ref.y, c.ref.z + d) }
    else c }
}
