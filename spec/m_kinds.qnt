// P16: kinds of section plot; the file each is stored in (none: refused).
module m_kinds {
  var kind: str
  var sails: int
  var file: str
  pure val FILES = Map("lift" -> "section_cl", "drag" -> "section_cd")
  pure val OTHERS = Set("", "Lift", "DRAG", "side", "cl", "cd", "lift ", "force", "moment", "lift,drag", "pressure")
  action init = all { kind' = "", sails' = 1, file' = "" }
  action step = {
    nondet k = FILES.keys().union(OTHERS).oneOf()
    nondet n = Set(1, 2).oneOf()
    all { kind' = k, sails' = n, file' = if (FILES.keys().contains(k)) FILES.get(k) else "" } }
}
