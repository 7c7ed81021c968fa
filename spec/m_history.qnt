// P17: histories of one process.  Slots hold what a user has in hand: a sail set, its flow, its
// results.  What an operation shows depends on the case in the slot alone, never on the history;
// nothing already in hand changes.
module m_history {
  pure val CASES = 4
  pure val SLOTS = 3
  // stage: 0 empty, 1 built, 2 solved, 3 evaluated, 4 with the keel
  type Slot = { cas: int, stage: int, done: bool }
  type Shown = { op: str, slot: int, cas: int, what: str, kind: str }
  var slots: List[Slot]
  var shown: Shown
  // cases not begun yet
  var ahead: Set[int]
  // everything seen so far: (case, what) -> how often
  var seen: (int, str) -> int

  pure val REFUSED = Set("sails", "profile", "section", "panels", "force kind", "plot kind", "lengths")
  pure val DEFAULTS = Set("MainSail", "JibSail", "Csys", "Keel", "Rig", "Conditions", "Solver")
  pure def put1(m: (int, str) -> int, k: (int, str)): (int, str) -> int = m.put(k, 1 + (if (m.keys().contains(k)) m.get(k) else 0))
  action show(op: str, s: int, sl: Slot, what: str): bool = all {
    slots' = slots.replaceAt(s, sl),
    shown' = { op: op, slot: s, cas: sl.cas, what: what, kind: "" },
    ahead' = if (op == "build") ahead.exclude(Set(sl.cas)) else ahead,
    seen' = if (what == "") seen else seen.put1((sl.cas, what)) }
  action showKind(op: str, kind: str, s: int, sl: Slot): bool = all {
    slots' = slots, ahead' = ahead, shown' = { op: op, slot: s, cas: sl.cas, what: "", kind: kind }, seen' = seen }
  pure def whatOf(stage: int): str = if (stage == 1) "set" else if (stage == 2) "flow" else if (stage == 3) "totals" else "totals with the keel"

  action init = all { slots' = range(0, SLOTS).foldl(List(), (l, i) => l.append({ cas: 0, stage: 0, done: false })), shown' = { op: "start", slot: 0, cas: 0, what: "", kind: "" }, seen' = Map(), ahead' = 0.to(CASES - 1) }
  // what takes a slot further: every case is begun, solved, evaluated and saved some time
  action further(s: int, sl: Slot, c: int, w: int): bool = any {
    all { sl.stage == 0 or sl.done, ahead.size() > 0, { nondet n = ahead.oneOf() show("build", s, { cas: n, stage: 1, done: false }, "set") } },
    all { sl.stage == 0 or sl.done, ahead.size() == 0, show("build", s, { cas: c, stage: 1, done: false }, "set") },
    all { sl.stage == 1, show("solve", s, { ...sl, stage: 2 }, "flow") },
    all { sl.stage == 2, show("evaluate", s, { ...sl, stage: 3 }, "totals") },
    all { not(sl.done), sl.stage == 3, w % 2 == 0, show("keel", s, { ...sl, stage: 4 }, "totals with the keel") },
    all { not(sl.done), sl.stage == 4 or (sl.stage == 3 and w % 2 == 1), show("save", s, { ...sl, done: true }, if (sl.stage == 3) "book" else "book with the keel") } }
  action aside(s: int, sl: Slot, c: int, w: int): bool = {
    nondet r = REFUSED.oneOf()
    nondet d = DEFAULTS.oneOf()
    any {
      all { w < 2, show("build", s, { cas: c, stage: 1, done: false }, "set") },
      all { sl.stage >= 2, show("solve again", s, { ...sl, stage: 2, done: false }, "flow") },
      all { sl.stage > 2, show("evaluate", s, { ...sl, stage: 3, done: false }, "totals") },
      all { sl.stage == 4, show("keel", s, sl, "totals with the keel") },
      all { sl.stage >= 3, show("save", s, sl, if (sl.stage == 3) "book" else "book with the keel") },
      all { sl.stage >= 3, show("read again", s, sl, whatOf(sl.stage)) },
      all { sl.stage >= 1, show("build from the same settings", s, sl, "set") },
      all { sl.stage >= 1, show("turn points", s, sl, "points") },
      all { sl.stage >= 2, show("sections", s, sl, "sections") },
      all { sl.stage >= 2, show("use the parts", s, sl, "parts") },
      all { sl.stage >= 3, show("plot", s, sl, "") },
      all { w < 2, show("wing", s, { ...sl, cas: if (sl.stage == 0) c else sl.cas }, "wing") },
      all { w < 2, showKind("refuse", r, s, sl) },
      all { w < 2, showKind("defaults", d, s, sl) } } }
  action step = {
    nondet s = 0.to(SLOTS - 1).oneOf()
    nondet c = 0.to(CASES - 1).oneOf()
    nondet w = 0.to(9).oneOf()      // what to prefer
    val sl = slots[s]
    if (w < 4 and (sl.stage > 0 or w < 2)) aside(s, sl, c, w) else further(s, sl, c, w) }

  val inv = and { slots.indices().forall(i => slots[i].stage == 0 or seen.keys().contains((slots[i].cas, "set"))),
                  slots.indices().forall(i => slots[i].stage < 2 or seen.keys().contains((slots[i].cas, "flow"))) }
}
