/// Physical constants and parameter conversions of compact binaries.
module binary {
  import fx.* from "./fx"

  // ------------------------------------------------------------------ constants
  pure val G_SI   = d(667430, 16)                          // m^3 kg^-1 s^-2
  pure val C_SI   = i(299792458)                           // m / s
  pure val MSUN_SI = 1988409902147041637325262574352366540 * 10^44      // 1.988...e30 kg
  /// G Msun / c^3 in seconds
  pure val MTSUN  = (((G_SI * 1988409902147041637325262574352366540) / 10^6) ) / (299792458^3)
  /// geometrized solar mass in metres (IAU nominal value, used for strain amplitudes by TaylorF2 and NRTidal)
  pure val MRSUN  = d(1476625038050124729627979840144936351, 33)
  pure val MPC_M  = 3085677581491367278913937957796471611 * 10^36       // 3.085...e22 m
  /// one megaparsec in seconds
  pure val MPC_S  = div(MPC_M, C_SI)
  pure val GAMMA_E = d(577215664901532860606512090082402431, 36)

  // ------------------------------------------------------------------ masses
  /// radicand of sqrt(1 - 4 eta), clamped at 0 (eta may exceed 1/4 by rounding)
  pure def oneMinus4eta(eta: int): int = imax(0, S - 4 * eta)
  pure def deltaOf(eta: int): int = sqrt(oneMinus4eta(eta))
  pure def etaOf(m1: int, m2: int): int = (m1 * m2 * S) / ((m1 + m2) * (m1 + m2))
  pure def chirpMass(m1: int, m2: int): int = div(powr(mul(m1, m2), 3, 5), powr(m1 + m2, 1, 5))
  pure def toMcEta(m1: int, m2: int): (int, int) = (chirpMass(m1, m2), etaOf(m1, m2))
  /// (larger, smaller) component mass
  pure def toMasses(mc: int, eta: int): (int, int) = {
    val M = div(mc, powr(eta, 3, 5))
    val dl = deltaOf(eta)
    (mul(M, S + dl) / 2, mul(M, S - dl) / 2)
  }
  pure def chiEff(m1: int, m2: int, c1: int, c2: int): int = (m1 * c1 + m2 * c2) / (m1 + m2)
  /// innermost-stable-circular-orbit gravitational-wave frequency c^3 / (6^(3/2) pi G m), m in units of Msun
  pure def fIsco(mSolar: int): int = inv(mul(mul(6 * sqrt(i(6)), PI), mul(mSolar, MTSUN)))

  // ------------------------------------------------------------------ tidal parameters
  pure def tA(eta: int): int = S + 7 * eta - 31 * sq(eta)
  pure def tB(eta: int): int = S + 9 * eta - 11 * sq(eta)
  pure def tC(eta: int): int = S - (13272 * eta) / 1319 + (8944 * sq(eta)) / 1319
  pure def tD(eta: int): int = S - (15910 * eta) / 1319 + (32850 * sq(eta)) / 1319 + (3380 * cube(eta)) / 1319
  /// Wade et al. 2014 (arXiv:1402.5156), eqs. 14-15: body 1 is the more massive
  pure def lambdaTildesEta(l1: int, l2: int, eta: int): (int, int) = {
    val dl = deltaOf(eta)
    val lp = l1 + l2
    val lm = l1 - l2
    (8 * (mul(tA(eta), lp) + mul3(dl, tB(eta), lm)) / 13,
     (mul3(dl, tC(eta), lp) + mul(tD(eta), lm)) / 2)
  }
  pure def lambdaTildes(l1: int, l2: int, m1: int, m2: int): (int, int) = lambdaTildesEta(l1, l2, etaOf(m1, m2))
  pure def etaOfQ(q: int): int = div(q, sq(S + q))
  pure def lambdaTildesQ(l1: int, l2: int, q: int): (int, int) = lambdaTildesEta(l1, l2, etaOfQ(q))
  /// the inverse map, by solving the 2x2 linear system in (lambda_+, lambda_-)
  pure def lambdasEta(lt: int, dlt: int, eta: int): (int, int) = {
    val dl = deltaOf(eta)
    val a = tA(eta)
    val b = mul(dl, tB(eta))
    val c = mul(dl, tC(eta))
    val e = tD(eta)
    val r1 = (13 * lt) / 8
    val r2 = 2 * dlt
    val det = mul(a, e) - mul(b, c)
    val lp = div(mul(r1, e) - mul(b, r2), det)
    val lm = div(mul(a, r2) - mul(c, r1), det)
    ((lp + lm) / 2, (lp - lm) / 2)
  }
  pure def lambdas(lt: int, dlt: int, m1: int, m2: int): (int, int) = lambdasEta(lt, dlt, etaOf(m1, m2))

  // ------------------------------------------------------------------ universal relations
  pure val QUAD_COEFFS = List(d(1940, 4), d(9163, 5), d(4812, 5), -d(4283, 6), d(1245, 7))
  pure val OCT_COEFFS  = List(d(3131, 6), d(2071, 3), -d(7152, 4), d(2458, 4), -d(3309, 5))
  pure val QUAD_LOW    = List(i(1), d(427688866723244, 15), -d(324336526985068, 15), d(1107439432180572, 16))
  /// spin-induced (quadrupole, octupole) parameters of a body of deformability lambda
  pure def quadOct(lambda: int): (int, int) = {
    val lq = if (lambda < S) ln(poly(QUAD_LOW, lambda)) else poly(QUAD_COEFFS, ln(lambda))
    val q = if (lambda < S) poly(QUAD_LOW, lambda) else exp(lq)
    (q, exp(poly(OCT_COEFFS, lq)))
  }
  pure def quadParam(lambda: int): int =
    if (lambda < S) poly(QUAD_LOW, lambda) else exp(poly(QUAD_COEFFS, ln(lambda)))
  /// the effective tidal coupling of the NRTidal models (arXiv:1905.06011 eq. 8)
  pure def kappaEff(m1: int, m2: int, l1: int, l2: int): int = {
    val x1 = div(m1, m1 + m2)
    val x2 = div(m2, m1 + m2)
    val t1 = mul(mul(x1 + 12 * x2, powi(x1, 4)), l1)
    val t2 = mul(mul(x2 + 12 * x1, powi(x2, 4)), l2)
    (3 * (t1 + t2)) / 13
  }

  // ------------------------------------------------------------------ extrinsic factors
  /// phase factor of a time of coalescence tc and phase phic at frequency f:  exp(-2 pi i f tc + 2 i phic)
  pure def extrinsicPhase(f: int, tc: int, phic: int): int = 2 * phic - mul(TWO_PI, mul(f, tc))
  pure def plusFactor(iota: int): int = { val c = cos(iota) (S + sq(c)) / 2 }
  /// (hp, hc) of an aligned-spin binary of strain h seen at inclination iota
  pure def hphc(h: (int, int), iota: int): ((int, int), (int, int)) = {
    val ci = cos(iota)
    (cscale((S + sq(ci)) / 2, h), (mul(ci, h._2), -mul(ci, h._1)))
  }
}
