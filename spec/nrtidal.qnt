/// IMRPhenomD_NRTidalv2: tidal amplitude, phase and spin-induced multipole corrections
/// of arXiv:1905.06011 on top of IMRPhenomD.
module nrtidal {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import taylorf2.* from "./taylorf2"
  import phenomd_tables.* from "./phenomd_tables"
  import phenomd.* from "./phenomd"

  /// merger frequency in Hz (arXiv:1804.02235 eq. 11)
  pure def mergerFreq(m1: int, m2: int, kap: int): int = {
    val num = poly(List(S, d(335411203, 10), d(431460284, 13)), kap)
    val den = poly(List(S, d(754224145, 10), d(223626859, 12)), kap)
    val Mw = div(mul3(d(3586, 4), sqrt(div(m2, m1)), num), den)
    div(Mw, mul3(m1 + m2, MTSUN, TWO_PI))
  }
  /// Planck taper starting at y and ending at 1.2 y
  pure def planck(x: int, y: int): int = {
    val yp = (12 * y) / 10
    if (x <= y) S else if (x >= yp) 0 else {
      val z = div(yp - y, x - y) + div(yp - y, x - yp)
      // 1 / (1 + exp(-z)), written so that the exponential never overflows
      if (z <= 0) { val e = exp(z) div(e, S + e) } else inv(S + exp(0 - z))
    }
  }
  /// tidal phase psi_T at x = (pi M f)^(2/3), per v = sqrt(x)
  pure def tidalPhase(kap: int, eta: int, v: int): int = {
    val num = poly(List(S, 0, -d(12615214237993088, 15), d(190537346970349, 13), -d(21166863146081035, 15), d(9055082156324926, 14), -d(6025357801943598, 14)), v)
    val den = poly(List(S, 0, -d(15111207827736678, 15), d(22195327350624694, 15), d(8064109635305156, 15)), v)
    0 - div(mul(mul(mul(kap, d(24375, 4)), powi(v, 5)), num), mul(eta, den))
  }
  /// spin-induced quadrupole and octupole phase (hatted parameters: black-hole value removed)
  pure def spinPhase(m1: int, m2: int, c1: int, c2: int, l1: int, l2: int, v: int): int = {
    val M = m1 + m2
    val x1 = div(m1, M)
    val x2 = div(m2, M)
    val a = quadOct(l1)
    val b = quadOct(l2)
    val q1 = mul3(a._1 - S, sq(x1), sq(c1))
    val q2 = mul3(b._1 - S, sq(x2), sq(c2))
    val ss2 = -50 * (q1 + q2)
    val ss3 = (5 * (mul(i(9407) + 8218 * x1 - 2016 * sq(x1), q1) + mul(i(9407) + 8218 * x2 - 2016 * sq(x2), q2))) / 84
    val s35 = -400 * mul(PI, q1 + q2)
      + 10 * mul(mul(sq(x1) + (308 * x1) / 3, c1) + mul(sq(x2) - (89 * x2) / 3, c2), q1)
      + 10 * mul(mul(sq(x2) + (308 * x2) / 3, c2) + mul(sq(x1) - (89 * x1) / 3, c1), q2)
      - 440 * (mul(a._2 - S, cube(mul(x1, c1))) + mul(b._2 - S, cube(mul(x2, c2))))
    div(3 * (div(ss2, v) + mul(ss3, v) + mul(s35, sq(v))), 128 * mul(x1, x2))
  }
  /// tidal amplitude, in the units of the IMRPhenomD amplitude
  pure def tidalAmp(m1: int, m2: int, kap: int, v: int, dist: int): int = {
    val x = sq(v)
    val num = S + mul(d(4157407407407407, 15), x) + mul(d(2519111111111111, 12), powr(x, 289, 100))
    val den = S + mul(d(134778073677, 7), powi(x, 4))
    val M = m1 + m2
    val amp0 = mul(2 * sqrt(div(i(5), 64 * PI)), mul(mul(M, MRSUN), mul(M, MTSUN)))
    val scaled = div(mul3(amp0, 2 * sqrt(PI / 5), 0 - 9 * mul3(kap, powr(v, 13, 2), num)), den)
    (scaled * S) / mul(dist, MPC_M)
  }

  type NR = { d: D, m1: int, m2: int, c1: int, c2: int, l1: int, l2: int, kap: int, fm: int, taper: bool }
  pure def prepareNR(m1: int, m2: int, c1: int, c2: int, l1: int, l2: int, taper: bool): NR = {
    val kap = kappaEff(m1, m2, l1, l2)
    { d: prepareD(m1, m2, c1, c2), m1: m1, m2: m2, c1: c1, c2: c2, l1: l1, l2: l2,
      kap: kap, fm: mergerFreq(m1, m2, kap), taper: taper }
  }
  pure def ampNR(w: NR, f: int, dist: int): int = {
    val x = mul(f, w.d.Ms)
    val v = cbrt(mul(PI, x))
    val p = if (w.taper) planck(f, w.fm) else S
    mul(p, ampD(w.d, x, dist) + tidalAmp(w.m1, w.m2, w.kap, v, dist))
  }
  pure def strainNR(w: NR, f: int, fref: int, dist: int, tc: int, phic: int): (int, int) = {
    val x = mul(f, w.d.Ms)
    val v = cbrt(mul(PI, x))
    val p = if (w.taper) planck(f, w.fm) else S
    if (p == 0) (0, 0) else {
      // above the IMRPhenomD cutoff only the (untapered) tidal amplitude is left and the point-particle phase is frozen
      val bbh = if (x >= MF_CUT) 0 - TWO_PI else extrinsicPhase(f, tc, phic) - phaseD(w.d, x, mul(fref, w.d.Ms))
      val e = cis(bbh - tidalPhase(w.kap, w.d.eta, v) - spinPhase(w.m1, w.m2, w.c1, w.c2, w.l1, w.l2, v))
      val a = ampNR(w, f, dist)
      (mul(a, e._1), mul(a, e._2))
    }
  }
}
