/// A user compares two waveforms: the machine changes the waveforms, the noise and the time offset
/// in ways under which the overlaps must follow their definitions or stay the same.
module overlap {
  import fx.* from "./fx"
  import overlap_def.* from "./overlap_def"

  type Pair = { k0: int, df: int, h1: List[C], h2: List[C], sn: List[int], t: int, hexp: int, sexp: int }
  pure def uni(r: int, k: int): int = ((r / 10^(9 * k)) % 10^9) * 10^41
  pure def lerp(lo: int, hi: int, u: int): int = lo + mul(hi - lo, u)

  var p: Pair
  var act: int      // 0 new, 1 scale first, 2 scale second, 3 scale noise, 4 exchange, 5 shift second by samples, 6 second := constant times first, 7 offset, 8 second is new
  var nones: int    // which of the second model's functions are left out: 0 neither, 1 both, 2 the amplitude, 3 the phase
  var sid: int
  /// as many uniform numbers as a long vector needs
  pure def more(r: int, k: int): int = if (k < 58) uni(r, k) else (uni(r, k % 58) * (7 * k + 1)) % S
  pure def vecOf(n: int, r: int, k: int): List[C] =
    range(0, n).foldl([], (l, j) => l.append((lerp(-S, S, more(r, k + 2 * j)) + 1, lerp(-S, S, more(r, k + 2 * j + 1)))))
  pure def mulAll(h: List[C], c: C): List[C] = range(0, h.length()).foldl([], (l, k) => l.append(cmul(h[k], c)))

  action init = all { p' = { k0: 0, df: S, h1: [], h2: [], sn: [], t: 0, hexp: 0, sexp: 0 }, act' = -1, nones' = 0, sid' = 0 }
  action begin = {
    nondet n0 = oneOf(2.to(10))
    nondet k1 = oneOf(1.to(9))
    nondet big = oneOf(0.to(11))
    // now and then a grid of realistic length
    val n = if (big == 0) 60 + 3 * n0 else if (big == 1) 20 + n0 else n0
    val k0 = if (big <= 1) 2 * k1 else k1
    nondet z = oneOf(0.to(4))
    nondet he = oneOf(Set(0, 22))
    nondet ne = oneOf(Set(0, 46))
    nondet b = oneOf(0.to(3))
    nondet r = oneOf(1.to(10^540))
    val h1 = vecOf(n, r, 0)
    // noise: smooth range of powers, sometimes infinite somewhere (written as 0 = excluded)
    val sn = range(0, n).foldl([], (l, k) => l.append(if (z == 0 and k != n / 2 and more(r, 50 + k) < S / 3) 0 else exp(lerp(-3 * S, 3 * S, more(r, 50 + k)))))
    all { p' = { k0: k0, df: if (z == 1) S / 4 else if (z == 2) S else exp(lerp(-3 * S, 3 * S, uni(r, 59))), h1: h1, h2: vecOf(n, r, 20), sn: sn, t: 0, hexp: he, sexp: ne },
          act' = 0, nones' = b, sid' = sid + 1 }
  }
  action change = {
    nondet a = oneOf(1.to(8))
    nondet r = oneOf(1.to(10^200))
    nondet b = oneOf(0.to(3))
    val c = cscale(exp(lerp(-2 * S, 2 * S, uni(r, 0))), cis(mul(TWO_PI, uni(r, 1))))
    val n = p.h1.length()
    val N = 2 * (p.k0 + n - 1) - 1
    val m = 1 + (uni(r, 2) * (N - 1)) / S
    all {
      p' = if (a == 1) p.with("h1", mulAll(p.h1, c)) else if (a == 2) p.with("h2", mulAll(p.h2, c))
        else if (a == 3) p.with("sn", range(0, n).foldl([], (l, k) => l.append(mul(p.sn[k], imax(cabs(c), d(1, 2))))))
        else if (a == 4) p.with("h1", p.h2).with("h2", p.h1)
        else if (a == 5) p.with("h2", range(0, n).foldl([], (l, k) => l.append(cmul(p.h2[k], cis((((p.k0 + k) * m) % N * TWO_PI) / N)))))
        else if (a == 6) p.with("h2", mulAll(p.h1, c)).with("t", 0)
        else if (a == 7) p.with("t", if (uni(r, 3) < S / 4) 0 else div(lerp(-S, S, uni(r, 4)), p.df))
        else p.with("h2", vecOf(n, r, 2)),
      act' = a, nones' = b, sid' = sid }
  }
  action step = { nondet z = oneOf(0.to(8)) if (sid == 0 or z == 0 or (p.h1.length() > 40 and z <= 2)) begin else change }
}
