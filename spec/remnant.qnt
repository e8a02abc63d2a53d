/// A user asks what the merger leaves behind: final spin, radiated energy, ringdown and damping frequencies,
/// band edges.  The machine sweeps through binaries: it rescales them, exchanges the bodies, spins one up or tilts it.
module remnant {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import phenomd.* from "./phenomd"

  type Pt = { m1: int, m2: int, c1: int, c2: int, chip: int }
  pure def uni(r: int, k: int): int = ((r / 10^(9 * k)) % 10^9) * 10^41
  pure def lerp(lo: int, hi: int, u: int): int = lo + mul(hi - lo, u)
  pure def geo(lo: int, hi: int, u: int): int = exp(lerp(ln(lo), ln(hi), u))
  pure val CMAX = d(998, 3)

  /// the primary spin that leaves (about) the remnant spin a
  pure def spinFor(m1: int, m2: int, c2: int, a: int): int = {
    val eta = etaOf(m1, m2)
    val st = range(0, 12).foldl(a, (x, _) => x + a - finalSpin(eta, x))
    imax(-CMAX, imin(CMAX, mul(st - mul(sq(div(m2, m1 + m2)), c2), sq(div(m1 + m2, m1)))))
  }

  var pt: Pt
  var act: str
  var sid: int
  var len: int
  var mode: int       // 0 plain, 1 compiled, 2 vectorised
  action init = all { pt' = { m1: S, m2: S, c1: 0, c2: 0, chip: 0 }, act' = "init", sid' = 0, len' = 0, mode' = 0 }
  action begin = {
    nondet z = oneOf(0.to(5))
    nondet ss = oneOf(0.to(12))
    nondet r = oneOf(1.to(10^90))
    nondet md = oneOf(0.to(2))
    val m1 = geo(S, i(300), uni(r, 0))
    val q = if (z == 0) S else if (z == 1) S - div(S, powi(i(10), 3 + (uni(r, 1) * 9) / S)) else if (z == 2) d(1, 2) else geo(d(2, 2), S, uni(r, 1))
    val a = lerp(-CMAX, CMAX, uni(r, 2))
    val b = lerp(-CMAX, CMAX, uni(r, 3))
    val c = if (ss == 0) (0, 0) else if (ss == 1) (CMAX, CMAX) else if (ss == 2) (-CMAX, -CMAX) else if (ss == 3) (CMAX, -CMAX)
      else if (ss == 4) (-CMAX, CMAX) else if (ss == 5) (a, 0) else if (ss == 6) (0, b) else if (ss == 7) (a, a)
      // a remnant that hardly rotates, either way; any remnant
      else if (ss == 8) (spinFor(m1, mul(m1, q), b, mul(if (r % 2 == 0) S else -S, div(S, powi(i(10), 1 + (uni(r, 5) * 9) / S)))), b)
      else if (ss == 9) (spinFor(m1, mul(m1, q), b, a), b) else (a, b)
    val p = if (z == 3) 0 else if (z == 4) div(S, powi(i(10), 1 + (uni(r, 4) * 14) / S)) else uni(r, 4)
    all { pt' = { m1: m1, m2: mul(m1, q), c1: c._1, c2: c._2, chip: p }, act' = "New", sid' = sid + 1, len' = 0, mode' = md }
  }
  action go(a: str, p: Pt): bool = all { pt' = p, act' = a, sid' = sid, len' = len + 1, mode' = mode }
  action change = {
    nondet z = oneOf(0.to(5))
    nondet u = oneOf(1.to(10^9))
    val w = u * 10^41
    // towards the extremal spin, by a little or by a lot; from any spin
    pure def up(c: int): int = c + mul(CMAX - c, if (w < S / 3) div(S, powi(i(10), 1 + (w * 20) / S)) else w / 2)
    if (z == 0) go("Rescale", pt.with("m1", mul(pt.m1, geo(d(1, 2), i(100), w))).with("m2", mul(pt.m2, geo(d(1, 2), i(100), w))))
    else if (z == 1 and pt.m1 == pt.m2) go("Exchange", pt.with("c1", pt.c2).with("c2", pt.c1))
    else if (z <= 2) go("SpinUp", pt.with("c1", up(pt.c1)))
    else if (z <= 3) go("SpinUp", pt.with("c2", up(pt.c2)))
    else go("Tilt", pt.with("chip", pt.chip + mul(S - pt.chip, if (w < S / 3) div(S, powi(i(10), 1 + (w * 20) / S)) else w / 2)))
  }
  action step = if (sid == 0 or len >= 10) begin else change
  /// the fits are physical: a Kerr remnant, less than a sixth of the mass radiated, damping slower than ringing,
  /// more prograde spin on the primary never spins the remnant down
  pure def physical(p: Pt): bool = {
    val eta = etaOf(p.m1, p.m2)
    val M = p.m1 + p.m2
    pure def spinned(c: int): int = finalSpin(eta, div(mul(sq(p.m1), c) + mul(sq(p.m2), p.c2), sq(M)))
    val a = spinned(p.c1)
    val e = eradSpins(eta, p.c1, p.c2)
    and { abs(a) < d(1002, 3), 0 < e, e < d(17, 2), spinned(p.c1 + d(1, 3)) >= a }
  }
  val invariant = sid == 0 or physical(pt)
}
