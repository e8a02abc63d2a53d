/// Sweeps through the building blocks of the tidal models: a user raises a deformability, a frequency
/// or a mass step by step and looks at the multipole parameters, the tidal coupling, the merger
/// frequency and the taper.  The state is the point of the sweep.
module tides {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import nrtidal.* from "./nrtidal"

  type Pt = { kind: int, lam: int, m1: int, m2: int, l1: int, l2: int, x: int, y: int }
  pure def uni(r: int, k: int): int = ((r / 10^(9 * k)) % 10^9) * 10^41
  pure def lerp(lo: int, hi: int, u: int): int = lo + mul(hi - lo, u)
  pure def geo(lo: int, hi: int, u: int): int = exp(lerp(ln(lo), ln(hi), u))

  // kinds of sweep
  pure val K_QUAD = 0  pure val K_KAPPA = 1  pure val K_MERGER = 2  pure val K_TAPER = 3  pure val K_DQUAD = 4  pure val K_DTAPER = 5  pure val K_SCALE = 6

  var pt: Pt
  var sid: int
  var len: int
  var mode: int
  action init = all { pt' = { kind: -1, lam: 0, m1: 0, m2: 0, l1: 0, l2: 0, x: 0, y: 0 }, sid' = 0, len' = 0, mode' = 0 }

  action begin = {
    nondet kind = oneOf(0.to(6))
    nondet z = oneOf(0.to(4))
    nondet r = oneOf(1.to(10^90))
    nondet md = oneOf(0.to(2))
    val m1 = geo(d(8, 1), i(3), uni(r, 0))
    val q = if (z == 0) S else lerp(d(3, 1), S, uni(r, 1))
    val lam = if (z == 0) 0 else if (z == 1) S - div(S, powi(i(10), 1 + (uni(r, 2) * 13) / S)) else if (z == 2) geo(d(1, 6), S, uni(r, 2)) else geo(S / 2, i(3000), uni(r, 2))
    val y = geo(i(500), i(4000), uni(r, 3))
    all { pt' = { kind: kind, lam: lam, m1: m1, m2: mul(m1, q), l1: if (z == 3) 0 else mul(i(3000), sq(uni(r, 4))), l2: if (z == 0) 0 else mul(i(3000), sq(uni(r, 5))),
                  x: mul(y, lerp(d(9, 1), d(105, 2), uni(r, 6))), y: y },
          sid' = sid + 1, len' = 0, mode' = md }
  }
  /// raise the swept quantity: by a tiny or a large factor, or exactly on to the next joint
  action advance = {
    nondet z = oneOf(0.to(5))
    nondet u = oneOf(1.to(10^9))
    val w = u * 10^41
    val e = div(S, powi(i(10), 1 + (w * 12) / S))
    val f = if (z <= 1) S + e else lerp(S, d(13, 1), w)
    val joint = if (z == 5 and pt.lam < S) S else if (pt.lam == 0) e else mul(pt.lam, if (z == 4) 8 * f else f)
    val yp = (12 * pt.y) / 10
    val px = if (z == 5 and pt.x < pt.y) pt.y else if (z == 5 and pt.x < yp) yp else mul(pt.x, S + (f - S) / 5)
    all {
      pt' = if (pt.kind == K_QUAD or pt.kind == K_DQUAD) pt.with("lam", joint)
        else if (pt.kind == K_KAPPA or pt.kind == K_MERGER) (if (w < S / 2) pt.with("l1", mul(pt.l1, f) + e) else pt.with("l2", mul(pt.l2, f) + e))
        else if (pt.kind == K_SCALE) pt.with("m1", mul(pt.m1, f)).with("m2", mul(pt.m2, f))
        else pt.with("x", px),
      sid' = sid, len' = len + 1, mode' = mode,
    }
  }
  action step = if (sid == 0 or len >= 14 or pt.lam > i(10^5) or pt.l1 > i(10^5) or pt.l2 > i(10^5) or pt.x > 2 * pt.y or pt.m1 > i(20)) begin else advance
}
