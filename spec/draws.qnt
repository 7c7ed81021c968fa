// Drawing values: one nondeterministic map of draws is turned into structured inputs.
module draws {
  import num.* from "./num"
  import vec.* from "./vec"
  type Raw = int -> int
  pure val DRAWS: int = 1000000
  pure val SLOTS: Set[int] = 0.to(124)
  // uniform in [lo, hi] thousandths
  pure def uni(r: Raw, k: int, lo: int, hi: int): int = milli(lo + (hi - lo) * (r.get(k) - 1) / (DRAWS - 1))
  // uniform in [lo, hi] thousandths, in steps of millionths of the interval
  pure def fine(r: Raw, k: int, lo: int, hi: int): int = milli(lo) + milli(hi - lo) * (r.get(k) - 1) / (DRAWS - 1)
  pure def choose(r: Raw, k: int, n: int): int = r.get(k) % n
  pure def oneIn(r: Raw, k: int, n: int): bool = r.get(k) % n == 0
  pure def point(r: Raw, k: int, big: int): V = v3(uni(r, k, -big, big), uni(r, k + 1, -big, big), uni(r, k + 2, -big, big))
}
