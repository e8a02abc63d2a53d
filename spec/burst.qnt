/// The machine of a user of sine-Gaussian bursts, who changes one parameter at a time and evaluates
/// on chosen times or on a grid that resolves and contains the whole burst.
module burst {
  import fx.* from "./fx"
  import sinegauss.* from "./sinegauss"

  // ---------------------------------------------------------------- the machine
  pure def uni(r: int, k: int): int = ((r / 10^(9 * k)) % 10^9) * 10^41
  pure def lerp(lo: int, hi: int, u: int): int = lo + mul(hi - lo, u)
  pure def geo(lo: int, hi: int, u: int): int = exp(lerp(ln(lo), ln(hi), u))

  var b: Burst
  var times: List[int]      // times asked for
  var act: int              // 0 new, 1..5 changed q, f, hrss, phase, ecc, 6 other times, 7 the whole burst, 8 axes
  var mode: int             // eager, compiled, batched
  var sid: int

  pure def drawTimes(x: Burst, r: int): List[int] = {
    // times within eight widths, the centre and the multiples of a quarter period
    val w = div(x.q, mul(TWO_PI, x.f))
    range(0, 8).foldl(List(), (l, k) => {
      val u = uni(r, 10 + k)
      l.append(if (k == 0) 0 else if (k == 1) div(S, 4 * x.f) else if (k <= 4) mul(w, lerp(-S, S, u)) else mul(w, lerp(-8 * S, 8 * S, u)))
    })
  }
  action init = all { b' = { q: S, f: S, hrss: 0, phase: 0, ecc: 0 }, times' = [], act' = -1, mode' = 0, sid' = 0 }
  action begin = {
    nondet r = oneOf(1.to(10^200))
    nondet z = oneOf(0.to(5))
    nondet y = oneOf(0.to(5))
    nondet md = oneOf(0.to(2))
    val x = { q: if (z == 0) lerp(d(2, 1), i(2), uni(r, 0)) else geo(i(2), i(if (z == 1) 100 else 12), uni(r, 0)),
              f: geo(i(10), i(4000), uni(r, 1)), hrss: geo(d(1, 24), d(1, 18), uni(r, 2)),
              phase: if (y == 0) 0 else if (y == 1) (PI * ((uni(r, 3) * 8) / S)) / 4 else lerp(0, TWO_PI, uni(r, 3)),
              ecc: if (y == 2) 0 else if (z == 2) S else if (z == 3) S - div(S, powi(i(10), 1 + (uni(r, 4) * 9) / S)) else uni(r, 4) }
    all { b' = x, times' = drawTimes(x, r), act' = 0, mode' = md, sid' = sid + 1 }
  }
  action change = {
    nondet a = oneOf(Set(1, 2, 3, 4, 5, 6, 7, 7, 8))
    nondet r = oneOf(1.to(10^200))
    nondet md = oneOf(0.to(2))
    val x = if (a == 1) b.with("q", geo(d(5, 1), i(12), uni(r, 0))) else if (a == 2) b.with("f", geo(i(10), i(4000), uni(r, 0)))
      else if (a == 3) b.with("hrss", geo(d(1, 24), d(1, 18), uni(r, 0))) else if (a == 4) b.with("phase", lerp(0, TWO_PI, uni(r, 0)))
      else if (a == 5) b.with("ecc", uni(r, 0)) else b
    all { b' = x, times' = drawTimes(x, r), act' = a, mode' = md, sid' = sid }
  }
  action step = { nondet z = oneOf(0.to(4)) if (sid == 0 or z == 0) begin else change }
}
