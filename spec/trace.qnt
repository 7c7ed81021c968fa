// Recorded runs of the implementation: a run is a list of events, each an action and the numbers
// observed after it.  Comparisons are accumulated as verdicts.
module trace {
  import num.* from "./num"
  import vec.* from "./vec"

  type Obs = str -> List[int]
  type Event = { act: str, f: Obs }
  // n numbers packed into the digits of one literal, base 10^60, each shifted by half of that
  pure val BASE: int = 10^60
  pure def unpack(p: int, n: int): List[int] =
    range(0, n).foldl({ p: p, l: List() }, (a, i) => { p: a.p / BASE, l: a.l.append(a.p % BASE - BASE / 2) }).l

  type Bad = { clause: str, idx: int, got: int, want: int, tol: int }
  // n comparisons, the largest error in millionths of its tolerance, comparisons left out
  type Res = { bad: List[Bad], n: int, worst: int, left: int }
  pure val CLEAN: Res = { bad: [], n: 0, worst: 0, left: 0 }
  pure def judge(r: Res, clause: str, idx: int, got: int, want: int, tol: int): Res = {
    pure val e = iabs(got - want)
    { bad: if (e <= tol or length(r.bad) >= 12) r.bad else r.bad.append({ clause: clause, idx: idx, got: got, want: want, tol: tol }),
      n: r.n + 1, worst: imax(r.worst, e * 1000000 / imax(tol, 1)), left: r.left }
  }
  pure def judgeV(r: Res, clause: str, idx: int, got: V, want: V, tol: int): Res =
    judge(judge(judge(r, clause, idx, got.x, want.x, tol), clause, idx, got.y, want.y, tol), clause, idx, got.z, want.z, tol)
  pure def require(r: Res, clause: str, idx: int, ok: bool): Res = judge(r, clause, idx, if (ok) 1 else 0, 1, 0)
  pure def leave(r: Res): Res = { bad: r.bad, n: r.n, worst: r.worst, left: r.left + 1 }
  pure def both(a: Res, b: Res): Res =
    { bad: a.bad.concat(b.bad), n: a.n + b.n, worst: imax(a.worst, b.worst), left: a.left + b.left }
  // k-th vector of a flat list
  pure def at(l: List[int], k: int): V = v3(l[3 * k], l[3 * k + 1], l[3 * k + 2])
  pure def vectors(l: List[int]): List[V] = range(0, length(l) / 3).foldl([], (a, k) => a.append(at(l, k)))
  pure def largest(l: List[int]): int = l.foldl(0, (a, x) => imax(a, iabs(x)))
  pure def merge(a: Obs, b: Obs): Obs = b.keys().fold(a, (m, k) => m.put(k, b.get(k)))
}
