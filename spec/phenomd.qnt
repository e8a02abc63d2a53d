/// IMRPhenomD: aligned-spin inspiral-merger-ringdown waveform (arXiv:1508.07250, 1508.07253).
/// Frequencies are dimensionless (M f) throughout.
module phenomd {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import taylorf2.* from "./taylorf2"
  import phenomd_tables.* from "./phenomd_tables"

  pure val MF_CUT = d(2, 1)
  pure val MF_INS_PHASE = d(18, 3)
  pure val MF_INS_AMP   = d(14, 3)

  // ---------------------------------------------------------------- ringdown frequencies
  pure val KNOTS = 1003
  pure def at(t: List[List[int]], k: int): int = t[k / 118][k % 118]
  /// index of the spline interval containing a
  pure def interval(a: int): int = List(512, 256, 128, 64, 32, 16, 8, 4, 2, 1)
    .foldl(0, (k, s) => if (k + s < KNOTS - 1 and at(QA, k + s) <= a) k + s else k)
  pure def spline(y: List[List[int]], m: List[List[int]], a: int): int = {
    val k = interval(a)
    val x0 = at(QA, k)
    val x1 = at(QA, k + 1)
    val h = x1 - x0
    val s = div(x1 - a, h)
    val t = div(a - x0, h)
    mul(s, at(y, k)) + mul(t, at(y, k + 1))
      + mul(sq(h), mul(cube(s) - s, at(m, k)) + mul(cube(t) - t, at(m, k + 1))) / 6
  }
  /// radiated energy fraction as a function of eta and the effective spin S-hat
  pure def erad(eta: int, s: int): int = {
    val e = poly(List(0, d(55974469826360077, 18), d(5809510763115132, 16), -d(9606726679372312, 16), d(3352411249771192, 15)), eta)
    val num = S + mul(poly(List(-d(30302335878845507, 19), -d(20066110851351073, 16), d(77050567802399215, 16)), eta), s)
    val den = S + mul(poly(List(-d(6714403054720589, 16), -d(14756929437702908, 16), d(7304676214885011, 15)), eta), s)
    div(mul(e, num), den)
  }
  pure def eradSpins(eta: int, c1: int, c2: int): int = {
    val dl = deltaOf(eta)
    val a = sq(S + dl)
    val b = sq(S - dl)
    erad(eta, div(mul(a, c1) + mul(b, c2), a + b))
  }
  /// final spin as a function of eta and the total spin S / M^2
  pure def finalSpin(eta: int, s: int): int =
    mul(eta, poly(List(d(34641016151377544, 16), -d(4399247300629289, 15), d(9397292189321194, 15), -d(13180949901606242, 15)), eta))
    + mul(s, S - mul(eta, d(850917821418767, 16)) - mul(sq(eta), d(5837029316602263, 15))
        + mul(mul(eta, d(1014665242971878, 16) - mul(d(20967746996832157, 16), eta)), s)
        + mul(mul(eta, -d(13546806617824356, 16) + mul(d(4108962025369336, 15), eta)), sq(s))
        + mul(mul(eta, -d(8676969352555539, 16) + mul(d(2064046835273906, 15), eta)), cube(s)))
  pure def ringdown(a: int, er: int): (int, int) =
    (div(spline(QR, QR2, a), S - er), div(spline(QD, QD2, a), S - er))

  /// relative effect on a waveform of tabulating the ringdown frequencies on a grid of step 4e-6 in the final spin
  /// (200: the largest logarithmic derivative of the strain with respect to them)
  pure def ringTol(a: int): int = {
    val k = interval(a)
    pure def curv(y: List[List[int]], m: List[List[int]]): int =
      div(imax(abs(at(m, k)), abs(at(m, k + 1))), abs(at(y, k)))
    200 * mul(d(2, 12), curv(QR, QR2) + curv(QD, QD2))
  }

  // ---------------------------------------------------------------- phenomenological coefficients
  pure def fitAt(k: int, eta: int, xi: int): int = {
    val t = FIT[k]
    val e2 = sq(eta)
    t[0] + mul(t[1], eta)
      + mul(xi, t[2] + mul(t[3], eta) + mul(t[4], e2))
      + mul(sq(xi), t[5] + mul(t[6], eta) + mul(t[7], e2))
      + mul(cube(xi), t[8] + mul(t[9], eta) + mul(t[10], e2))
  }
  pure def fits(eta: int, c1: int, c2: int): List[int] = {
    val chiPN = mul((c1 + c2) / 2, S - 76 * eta / 113) + mul(deltaOf(eta), (c1 - c2) / 2)
    range(0, 19).foldl(List(), (l, k) => l.append(fitAt(k, eta, chiPN - S)))
  }

  // ---------------------------------------------------------------- PN inspiral
  /// TaylorF2 phase coefficients of v^k (k = 0..7) and v^k ln v, without the 3PN spin-spin terms
  pure def pnPhase(x1: int, x2: int, c1: int, c2: int): { c: List[int], lg: List[int] } = {
    val eta = mul(x1, x2)
    val e2 = sq(eta)
    val c4 = 5 * (rat(3058673, 7056) + (5429 * eta) / 7 + 617 * e2) / 72
      - mul((4740 * eta) / 48, mul(c1, c2))
      + mul(qm4(x1) + ss4(x1), sq(c1)) + mul(qm4(x2) + ss4(x2), sq(c2))
    val so = mul(so5(x1), c1) + mul(so5(x2), c2)
    val ns = mul(PI, 5 * (rat(7729, 84) - 13 * eta) / 9)
    val c6 = rat(11583231236531, 4694215680) - (640 * sq(PI)) / 3 - (6848 * GAMMA_E) / 21
      + mul(eta, -rat(15737765635, 3048192) + (2255 * sq(PI)) / 12) + (76055 * e2) / 1728 - (127825 * cube(eta)) / 1296
      - (6848 * 2 * LN2) / 21
      + mul(so6(x1), c1) + mul(so6(x2), c2)
    val c7 = mul(PI, rat(77096675, 254016) + (378515 * eta) / 1512 - (74045 * e2) / 756)
      + mul(so7(x1), c1) + mul(so7(x2), c2)
    { c: List(S, 0, 5 * (rat(743, 84) + 11 * eta) / 9, -16 * PI + mul(so3(x1), c1) + mul(so3(x2), c2), c4, ns + so, c6, c7),
      lg: List(0, 0, 0, 0, 0, 3 * (ns + so), -rat(6848, 21), 0) }
  }
  /// amplitude coefficients of (pi M f)^(k/3), k = 0..6
  pure def pnAmp(eta: int, c1: int, c2: int): List[int] = {
    val dl = deltaOf(eta)
    val e2 = sq(eta)
    val s11 = sq(c1)
    val s22 = sq(c2)
    val s12 = mul(c1, c2)
    val p = S + dl
    val m = S - dl
    List(S, 0, (1804 * eta - i(969)) / 672,
      (mul(c1, 81 * p - 44 * eta) + mul(c2, 81 * m - 44 * eta)) / 48,
      (i(-27312085) - 10287648 * (mul(s22, m) + mul(s11, p))
        + 24 * mul(eta, i(-1975055) + 857304 * (s11 + s22) - 994896 * s12) + 35371056 * e2) / 8128512,
      (mul(c2, 285197 * m + 4 * mul(eta, 1579 * dl - i(91902)) - 35632 * e2)
        + mul(c1, 285197 * p - 4 * mul(eta, 1579 * dl + i(91902)) - 35632 * e2)
        - 42840 * mul(PI, S - 4 * eta)) / 32256,
      (336 * mul(e2, i(-3248849057) + 2943675504 * (s11 + s22) - 3339284256 * s12) + 324322727232 * cube(eta)
        + 7 * (i(-177520268561) + 107414046432 * (mul(s22, m) + mul(s11, p)) + 11087290368 * mul(PI, mul(c1, p) + mul(c2, m)))
        - 12 * mul(eta, i(-545384828789) - 176491177632 * s12 + mul(s22, i(202603761360) - 77287373856 * dl)
            + mul(s11, i(202603761360) + 77287373856 * dl) + 5841690624 * mul(PI, c1 + c2) + 21384760320 * sq(PI)))
        / 60085960704)
  }

  // ---------------------------------------------------------------- the model
  /// everything that does not depend on the frequency
  type D = { eta: int, Ms: int, pn: { c: List[int], lg: List[int] }, amp: List[int], co: List[int],
             fRD: int, fDM: int, f2: int, f4: int,
             del: List[int], b: (int, int), a: (int, int), t0: int }

  pure def phaseIns(eta: int, pn: { c: List[int], lg: List[int] }, co: List[int], x: int): int = {
    val v = cbrt(mul(PI, x))
    val lv = ln(v)
    val u = cbrt(x)
    val tf2 = div(3 * (poly(pn.c, v) + mul(lv, poly(pn.lg, v))), mul(128 * eta, powi(v, 5))) - PI / 4
    tf2 + div(mul(x, co[7] + (3 * mul(co[8], u)) / 4 + (3 * mul(co[9], sq(u))) / 5 + mul(co[10], x) / 2), eta)
  }
  pure def phaseInt(eta: int, co: List[int], x: int): int =
    div(mul(co[11], x) + mul(co[12], ln(x)) - div(co[13], 3 * cube(x)), eta)
  pure def phaseMrd(eta: int, co: List[int], fRD: int, fDM: int, x: int): int =
    div(mul(co[14], x) - div(co[15], x) + (4 * mul(co[16], powr(x, 3, 4))) / 3
      + mul(co[17], atan(div(x - mul(co[18], fRD), fDM))), eta)
  pure def dPhaseInt(eta: int, co: List[int], x: int): int =
    div(co[11] + div(co[12], x) + div(co[13], powi(x, 4)), eta)
  pure def dPhaseMrd(eta: int, co: List[int], fRD: int, fDM: int, x: int): int =
    div(co[14] + div(co[15], sq(x)) + div(co[16], powr(x, 1, 4))
      + div(div(co[17], fDM), S + sq(div(x - mul(co[18], fRD), fDM))), eta)

  pure def ampIns(amp: List[int], co: List[int], x: int): int = {
    val v = cbrt(mul(PI, x))
    val u = cbrt(x)
    poly(amp, v) + mul(powi(u, 7), co[0] + mul(co[1], u) + mul(co[2], sq(u)))
  }
  pure def ampMrd(co: List[int], fRD: int, fDM: int, x: int): int = {
    val w = mul(fDM, co[6])
    val y = x - fRD
    div(mul3(exp(0 - div(mul(y, co[5]), w)), w, co[4]), sq(y) + sq(w))
  }
  pure def ampIntAt(del: List[int], x: int): int = poly(del, x)

  pure val H = d(1, 15)
  pure def peakFreq(co: List[int], fRD: int, fDM: int): int = {
    val g = co[5]
    val root = sqrt(S - sq(g))
    abs(fRD + (if (g >= S) 0 - div(mul(fDM, co[6]), g) else div(mul3(fDM, root - S, co[6]), g)))
  }

  /// m1 is the mass the "1" spin belongs to (the larger one in calls through chirp mass and eta)
  pure def prepareDWith(m1: int, m2: int, c1: int, c2: int, ring: (int, int)): D = {
    val M = m1 + m2
    val eta = etaOf(m1, m2)
    val co = fits(eta, c1, c2)
    val fRD = ring._1
    val fDM = ring._2
    val pn = pnPhase(div(m1, M), div(m2, M), c1, c2)
    val amp = pnAmp(eta, c1, c2)
    val f4 = peakFreq(co, fRD, fDM)
    val f2 = fRD / 2
    // amplitude: quartic through the values and slopes at both ends and the fitted value in the middle
    val g1 = MF_INS_AMP
    val gm = (g1 + f4) / 2
    val s1 = div(ampIns(amp, co, g1 + H) - ampIns(amp, co, g1 - H), 2 * H)
    val s4 = div(ampMrd(co, fRD, fDM, f4 + H) - ampMrd(co, fRD, fDM, f4 - H), 2 * H)
    pure def row(x: int, v: int): List[int] = List(S, x, sq(x), cube(x), powi(x, 4), v)
    pure def drow(x: int, v: int): List[int] = List(0, S, 2 * x, 3 * sq(x), 4 * cube(x), v)
    val del = solve(List(row(g1, ampIns(amp, co, g1)), row(gm, co[3]), row(f4, ampMrd(co, fRD, fDM, f4)), drow(g1, s1), drow(f4, s4)))
    // phase: C1 joins
    val p1 = MF_INS_PHASE
    val b1 = div(phaseIns(eta, pn, co, p1 + H) - phaseIns(eta, pn, co, p1 - H), 2 * H) - dPhaseInt(eta, co, p1)
    val b0 = phaseIns(eta, pn, co, p1) - phaseInt(eta, co, p1) - mul(b1, p1)
    val a1 = dPhaseInt(eta, co, f2) + b1 - dPhaseMrd(eta, co, fRD, fDM, f2)
    val a0 = phaseInt(eta, co, f2) + b0 + mul(b1, f2) - phaseMrd(eta, co, fRD, fDM, f2) - mul(a1, f2)
    { eta: eta, Ms: mul(M, MTSUN), pn: pn, amp: amp, co: co, fRD: fRD, fDM: fDM, f2: f2, f4: f4,
      del: del, b: (b0, b1), a: (a0, a1), t0: dPhaseMrd(eta, co, fRD, fDM, f4) }
  }
  pure def ringAligned(m1: int, m2: int, c1: int, c2: int): (int, int) = {
    val M = m1 + m2
    val eta = etaOf(m1, m2)
    val s = div(mul(sq(m1), c1) + mul(sq(m2), c2), sq(M))
    ringdown(finalSpin(eta, s), eradSpins(eta, c1, c2))
  }
  pure def prepareD(m1: int, m2: int, c1: int, c2: int): D =
    prepareDWith(m1, m2, c1, c2, ringAligned(m1, m2, c1, c2))

  /// phase before time and phase alignment, x = M f
  pure def rawPhaseD(w: D, x: int): int =
    if (x <= MF_INS_PHASE) phaseIns(w.eta, w.pn, w.co, x)
    else if (x <= w.f2) phaseInt(w.eta, w.co, x) + w.b._1 + mul(w.b._2, x)
    else phaseMrd(w.eta, w.co, w.fRD, w.fDM, x) + w.a._1 + mul(w.a._2, x)
  /// dimensionless amplitude relative to the leading order
  pure def relAmpD(w: D, x: int): int =
    if (x >= MF_CUT) 0
    else if (x <= MF_INS_AMP) ampIns(w.amp, w.co, x)
    else if (x <= w.f4) poly(w.del, x)
    else ampMrd(w.co, w.fRD, w.fDM, x)
  /// sqrt(2 eta / 3) pi^(-1/6) x^(-7/6)
  pure def leadingAmp(eta: int, x: int): int =
    div(sqrt((2 * eta) / 3), powr(mul(PI, powi(x, 7)), 1, 6))
  /// M^2 / distance in seconds times the LAL normalisation of the (2,2) harmonic, 2 sqrt(5 / (64 pi))
  pure def scaleAmp(Ms: int, dist: int): int =
    div(mul(2 * sqrt(div(i(5), 64 * PI)), sq(Ms)), mul(dist, MPC_S))
  pure def ampD(w: D, x: int, dist: int): int = mul3(leadingAmp(w.eta, x), relAmpD(w, x), scaleAmp(w.Ms, dist))
  /// phase, zero at xref, amplitude peak at time zero
  pure def phaseD(w: D, x: int, xref: int): int =
    rawPhaseD(w, x) - rawPhaseD(w, xref) - mul(w.t0, x - xref)

  pure def strainD(w: D, f: int, fref: int, dist: int, tc: int, phic: int): (int, int) = {
    val x = mul(f, w.Ms)
    if (x >= MF_CUT) (0, 0) else {
      val e = cis(extrinsicPhase(f, tc, phic) - phaseD(w, x, mul(fref, w.Ms)))
      val a = ampD(w, x, dist)
      (mul(a, e._1), mul(a, e._2))
    }
  }
  pure def ringTolD(m1: int, m2: int, c1: int, c2: int): int =
    ringTol(finalSpin(etaOf(m1, m2), div(mul(sq(m1), c1) + mul(sq(m2), c2), sq(m1 + m2))))
}
