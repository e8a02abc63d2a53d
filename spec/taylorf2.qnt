/// TaylorF2: stationary-phase post-Newtonian inspiral (3.5PN point particle,
/// spin-induced quadrupoles, 5PN-7PN tides), after XLALSimInspiralPNPhasing_F2.
module taylorf2 {
  import fx.* from "./fx"
  import binary.* from "./binary"

  // ---- spin coefficients as functions of the mass fraction x = m_A / M
  pure def so3(x: int): int = mul(x, i(25) + (38 * x) / 3)
  pure def so5(x: int): int = {
    val y = mul(x, S - x)
    0 - mul(x, rat(13915, 84) - (10 * y) / 3 + mul(x, rat(12760, 81) + (170 * y) / 9))
  }
  pure def so6(x: int): int = mul3(PI, x, rat(1490, 3) + 260 * x)
  pure def so7(x: int): int = {
    val e = mul(x, S - x)
    mul(x, -rat(170978035, 48384) + (2876425 * e) / 672 + (4735 * sq(e)) / 144
      + mul(x, -rat(7189233785, 1524096) + (458555 * e) / 3024 - (5345 * sq(e)) / 72))
  }
  pure def qm4(x: int): int = -75 * sq(x) + 25 * sq(x)      // quadrupole-monopole, 2PN (SO-convention sum)
  pure def ss4(x: int): int = sq(x) * 10 / 96 - 70 * sq(x) / 96
  pure def qm6(x: int): int = mul(sq(x), rat(47035, 84) + (2935 * x) / 6 - 120 * sq(x))
  pure def ss6(x: int): int = mul(sq(x), -rat(410825, 672) - (1085 * x) / 12 + (1255 * sq(x)) / 36)

  // ---- tidal coefficients per unit lambda
  pure def td10(x: int): int = mul(powi(x, 4), i(-288) + 264 * x)
  pure def td12(x: int): int = mul(powi(x, 4), poly(List(-rat(15895, 28), rat(4595, 28), rat(5715, 14), -rat(325, 7)), x))
  pure def td13(x: int): int = mul3(PI, powi(x, 4), 24 * (i(12) - 11 * x))
  pure def td14(x: int): int = -5 * mul(powi(x, 4),
    poly(List(rat(193986935, 571536), -rat(14415613, 381024), -rat(57859, 378), -rat(209495, 1512), rat(965, 54), i(-4)), x))

  /// coefficients of v^k (k = 0..14) and of v^k ln v, relative to 3/(128 eta) v^-5
  pure def phasing(m1: int, m2: int, s1: int, s2: int, l1: int, l2: int): { c: List[int], lg: List[int] } = {
    val M = m1 + m2
    val x1 = div(m1, M)
    val x2 = div(m2, M)
    val eta = mul(x1, x2)
    val e2 = sq(eta)
    val q1 = quadParam(l1)
    val q2 = quadParam(l2)
    val s11 = sq(s1)
    val s22 = sq(s2)
    val s12 = mul(s1, s2)
    val c2 = 5 * (rat(743, 84) + 11 * eta) / 9
    val c3 = -16 * PI + mul(so3(x1), s1) + mul(so3(x2), s2)
    val c4 = 5 * (rat(3058673, 7056) + (5429 * eta) / 7 + 617 * e2) / 72
      + mul((2470 - 7210) * eta / 48, s12)
      + mul(mul(qm4(x1), q1) + ss4(x1), s11) + mul(mul(qm4(x2), q2) + ss4(x2), s22)
    val so5t = mul(so5(x1), s1) + mul(so5(x2), s2)
    val c5 = mul(PI, 5 * (rat(7729, 84) - 13 * eta) / 9) + so5t
    val l5 = mul(PI, 5 * (rat(7729, 84) - 13 * eta) / 3) + 3 * so5t
    val l6 = -rat(6848, 21)
    val c6 = rat(11583231236531, 4694215680) - (640 * sq(PI)) / 3 - (6848 * GAMMA_E) / 21
      + mul(eta, -rat(15737765635, 3048192) + (2255 * sq(PI)) / 12) + (76055 * e2) / 1728 - (127825 * cube(eta)) / 1296
      + mul(l6, 2 * LN2)
      + mul(so6(x1), s1) + mul(so6(x2), s2) + mul(mul(rat(32675, 112) + (5575 * eta) / 18, eta), s12)
      + mul(mul(qm6(x1), q1) + ss6(x1), s11) + mul(mul(qm6(x2), q2) + ss6(x2), s22)
    val c7 = mul(PI, rat(77096675, 254016) + (378515 * eta) / 1512 - (74045 * e2) / 756)
      + mul(so7(x1), s1) + mul(so7(x2), s2)
    { c: List(S, 0, c2, c3, c4, c5, c6, c7, 0, 0,
        mul(td10(x1), l1) + mul(td10(x2), l2), 0,
        mul(td12(x1), l1) + mul(td12(x2), l2),
        mul(td13(x1), l1) + mul(td13(x2), l2),
        mul(td14(x1), l1) + mul(td14(x2), l2)),
      lg: List(0, 0, 0, 0, 0, l5, l6) }
  }

  pure def phaseAt(p: { c: List[int], lg: List[int] }, eta: int, v: int): int = {
    val lv = ln(v)
    div((3 * (poly(p.c, v) + mul(lv, poly(p.lg, v)))), mul(128 * eta, powi(v, 5)))
  }

  /// one reference waveform: everything that does not depend on the frequency
  type TF2 = { p: { c: List[int], lg: List[int] }, eta: int, Ms: int, amp: int, ref: int }
  pure def prepareTF2(m1: int, m2: int, s1: int, s2: int, l1: int, l2: int, dist: int, fref: int): TF2 = {
    val M = m1 + m2
    val eta = etaOf(m1, m2)
    val Ms = mul(M, MTSUN)
    val p = phasing(m1, m2, s1, s2, l1, l2)
    // 4 m1 m2 / r sqrt(pi/12) sqrt(5 / (32 eta)) v^(-7/2), the sign carried by the phase
    val amp0 = 4 * mul3(mul(m1, m2), mul(MRSUN, MTSUN), sqrt(PI / 12))
    val a = mul(amp0, sqrt(div(i(5), 32 * eta)))
    { p: p, eta: eta, Ms: Ms, amp: (a * S) / mul(dist, MPC_M),
      ref: if (fref == 0) 0 else phaseAt(p, eta, cbrt(mul3(PI, Ms, fref))) }
  }
  /// h(f) = -A(f) exp(-i (phase - pi/4))
  pure def strainTF2(w: TF2, f: int, tc: int, phic: int): (int, int) = {
    val v = cbrt(mul3(PI, w.Ms, f))
    val amp = div(w.amp, mul(cube(v), sqrt(v)))
    val ph = phaseAt(w.p, w.eta, v) - w.ref - extrinsicPhase(f, tc, phic) - PI / 4
    val e = cis(-ph)
    (-mul(amp, e._1), -mul(amp, e._2))
  }
}
