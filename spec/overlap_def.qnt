/// Noise-weighted inner products on a uniform frequency grid, from their definitions.
module overlap_def {
  import fx.* from "./fx"
  type C = (int, int)

  /// sum over the grid of conj(h1) h2 e^{i angle} / S, given as weights w = 1/S and phasors
  pure def inner(h1: List[C], h2: List[C], w: List[int], ph: List[C]): C =
    range(0, w.length()).foldl((0, 0), (acc, k) => cadd(acc, cscale(w[k], cmul(cmul(cconj(h1[k]), h2[k]), ph[k]))))
  pure def norm2(h: List[C], w: List[int]): int =
    range(0, w.length()).foldl(0, (acc, k) => acc + mul(w[k], cabs2(h[k])))
  pure def phasors(f: List[int], t: int): List[C] =
    range(0, f.length()).foldl([], (l, k) => l.append(cis(mul3(TWO_PI, f[k], t))))
  /// phase-maximised, normalised inner product at a time offset
  pure def innerAt(f: List[int], w: List[int], h1: List[C], h2: List[C], t: int): int =
    div(cabs(inner(h1, h2, w, phasors(f, t))), sqrt(mul(norm2(h1, w), norm2(h2, w))))
  /// match: maximum over the N discrete time shifts, grid frequencies being k0 .. k0+n-1 times the spacing
  pure def matchOf(k0: int, N: int, w: List[int], h1: List[C], h2: List[C]): int = {
    val tw = range(0, N).foldl([], (l, k) => l.append(cis((TWO_PI * k) / N)))
    val x = range(0, w.length()).foldl([], (l, k) => l.append(cscale(w[k], cmul(cconj(h1[k]), h2[k]))))
    val best = range(0, N).foldl(0, (m, s) =>
      imax(m, cabs2(range(0, x.length()).foldl((0, 0), (acc, k) => cadd(acc, cmul(x[k], tw[((k0 + k) * s) % N]))))))
    div(sqrt(best), sqrt(mul(norm2(h1, w), norm2(h2, w))))
  }
}
