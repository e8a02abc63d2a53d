/// Parameter samplers: what a sampler is asked for and the law its samples follow.
module samplers_def {
  import fx.* from "./fx"
  /// kind 0: chirp mass and mass ratio; kind 1: two masses, the larger first
  type Sampler = { kind: int, lo1: int, hi1: int, lo2: int, hi2: int }
  /// a request: which sampler, which key (seed and the way the key is made), how many, compiled or not
  type Req = { s: Sampler, seed: int, form: int, n: int, jit: bool }
  pure def width(s: Sampler, c: int): int = if (c == 0) s.hi1 - s.lo1 else s.hi2 - s.lo2
  /// ranges of the two columns
  pure def colLo(s: Sampler, c: int): int = if (s.kind == 0) (if (c == 0) s.lo1 else s.lo2) else if (c == 0) imax(s.lo1, s.lo2) else imin(s.lo1, s.lo2)
  pure def colHi(s: Sampler, c: int): int = if (s.kind == 0) (if (c == 0) s.hi1 else s.hi2) else if (c == 0) imax(s.hi1, s.hi2) else imin(s.hi1, s.hi2)
  /// the box that is divided into B x B bins
  pure val B = 6
  pure def boxLo(s: Sampler, c: int): int = if (s.kind == 0) colLo(s, c) else imin(s.lo1, s.lo2)
  pure def boxHi(s: Sampler, c: int): int = if (s.kind == 0) colHi(s, c) else imax(s.hi1, s.hi2)
  /// probability that a uniform variable on [lo, hi] is in [a, b]
  pure def part(lo: int, hi: int, a: int, b: int): int =
    if (hi == lo) (if (a <= lo and lo < b) S else 0) else div(imax(0, imin(hi, b) - imax(lo, a)), hi - lo)
  pure def edge(s: Sampler, c: int, k: int): int = boxLo(s, c) + ((boxHi(s, c) - boxLo(s, c)) * k) / B
  /// of bin (x, y): column 0 in bin x and column 1 in bin y
  pure def prob(s: Sampler, x: int, y: int): int = {
    pure def p1(k: int, c: int): int = part(s.lo1, s.hi1, edge(s, c, k), edge(s, c, k + 1))
    pure def p2(k: int, c: int): int = part(s.lo2, s.hi2, edge(s, c, k), edge(s, c, k + 1))
    if (s.kind == 0) mul(p1(x, 0), p2(y, 1))
    else if (x < y) 0
    else if (x == y) mul(p1(x, 0), p2(x, 0))
    else mul(p1(x, 0), p2(y, 0)) + mul(p1(y, 0), p2(x, 0))
  }
  pure def total(s: Sampler): int = 0.to(B - 1).fold(0, (a, x) => 0.to(B - 1).fold(a, (b, y) => b + prob(s, x, y)))
  /// keys made from different seeds, or derived in different ways, are different keys
  /// (form 0: raw key, 1: typed key, 2: first of a split, 3: folded in)
  pure def keyId(q: Req): (int, int) = (q.seed, if (q.form <= 1) 0 else q.form)
}
