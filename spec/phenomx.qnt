/// IMRPhenomXAS: aligned-spin dominant-mode waveform (arXiv:2001.11412).
/// Frequencies are dimensionless (M f) throughout.
module phenomx {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import phenomx_tables.* from "./phenomx_tables"

  pure val X_CUT = d(3, 1)

  // ---------------------------------------------------------------- spins and final state
  type Spins = { eta: int, dl: int, m1: int, m2: int, c1: int, c2: int, sPN: int, sTot: int, dchi: int }
  pure def spinsX(eta: int, c1: int, c2: int): Spins = {
    val dl = deltaOf(eta)
    val a = (S + dl) / 2
    val b = (S - dl) / 2
    val chiEffective = mul(a, c1) + mul(b, c2)
    { eta: eta, dl: dl, m1: a, m2: b, c1: c1, c2: c2,
      sPN: div(chiEffective - (38 * mul(eta, c1 + c2)) / 113, S - (76 * eta) / 113),
      sTot: div(mul(sq(a), c1) + mul(sq(b), c2), sq(a) + sq(b)), dchi: c1 - c2 }
  }
  pure def finalSpinX(s: Spins): int = {
    val e = s.eta
    val n = div(poly(List(0, d(34641016151377544, 16), d(200830030082033, 13), -d(12333573402277912, 15)), e), S + mul(d(72388440419467335, 16), e))
    val num = mul(s.sTot, poly(List(0, -d(8561951310209386, 16), -d(9939065676370885, 17), d(1668810429851045, 15)), e))
      + mul(sq(s.sTot), poly(List(0, d(5881660363307388, 16), -d(2149269067519131, 15), d(34768263932898678, 16)), e))
      + mul(cube(s.sTot), poly(List(0, d(142443244743048, 15), -d(9598353840147513, 16), d(19595643107593743, 16)), e))
    val den = S + mul(s.sTot, poly(List(-d(9142232693081653, 16), d(23191363426522633, 16), 0, -d(9710576749140989, 15)), e))
    val dd = mul(s.dchi, s.dl)
    n + mul(sq(s.m1) + sq(s.m2), s.sTot) + div(num, den)
      + mul(mul3(d(3223660562764661, 16), dd, S + mul(d(9332575956437443, 15), e)), sq(e))
      - mul3(d(59808322561702126, 18), sq(s.dchi), cube(e))
      + mul(mul3(d(23170397514509933, 16), dd, S - mul(d(32624649875884852, 16), e)), mul(cube(e), s.sTot))
  }
  pure def eradX(s: Spins): int = {
    val e = s.eta
    val t = s.sTot
    val n = poly(List(0, d(57190958417936644, 18), d(5609904135313374, 16), -d(84667563764404, 14), d(3145145224278187, 15)), e)
    val num = S + mul(t, poly(List(-d(13084389181783257, 17), -d(11387311580238488, 16), d(549074464410971, 14)), e))
      + mul(sq(t), poly(List(-d(17762802148331427, 17), 0, d(2176667900182948, 15)), e))
      + mul(cube(t), poly(List(-d(6320191645391563, 16), d(4952698546796005, 15), -d(10023747993978121, 15)), e))
    val den = S + mul(t, poly(List(-d(9919475346968611, 16), d(367620218664352, 15), d(4274567337924067, 15)), e))
    val dd = mul(s.dchi, s.dl)
    div(mul(n, num), den)
      - mul(mul3(d(9803730445895877, 17), dd, S - mul(d(32283713377939134, 16), e)), sq(e))
      + mul3(d(1118530335431078, 17), sq(s.dchi), cube(e))
      - mul(mul3(d(1978238971523653, 17), dd, S - mul(d(491667749015812, 14), e)), mul(e, t))
  }
  /// (ringdown, damping) frequency of the (2,2) mode as functions of the final spin
  pure def ringX(a: int): (int, int) =
    (div(poly(List(d(5947169566573468, 17), -d(14989771215394762, 17), d(9535606290986028, 17), d(2260924869042963, 17), -d(2501704155363241, 17), -d(5852438240997211, 18), d(27489038393367993, 19), d(5821983163192694, 19)), a),
         poly(List(S, -d(28570126619966296, 16), d(2373335413978394, 15), 0, -d(6036964688511505, 16), 0, d(873798215084077, 16)), a)),
     div(poly(List(d(14158792290965177, 18), -d(36989395871554566, 18), d(26822526296575368, 18), d(8490933750566702, 19), -d(4843996907020524, 18), -d(14745235759327472, 20), d(1504546201236794, 19)), a),
         poly(List(S, -d(25900842798681376, 16), d(18952576220623967, 16), 0, -d(31416610693042507, 17), 0, d(9002719412204133, 18)), a)))
  /// innermost stable circular orbit of a Kerr black hole of spin a
  pure def iscoX(a: int): int = {
    val z1 = imin(3 * S, S + mul(cbrt(S - sq(a)), cbrt(S + a) + cbrt(S - a)))
    val z2 = sqrt(3 * sq(a) + sq(z1))
    val r = 3 * S + z2 - sgn(a) * sqrt(mul(3 * S - z1, 3 * S + z1 + 2 * z2))
    div(inv(mul(r, sqrt(r)) + a), PI)
  }
  /// minimum-energy circular orbit
  pure def mecoX(s: Spins): int = {
    val e = s.eta
    val t = s.sPN
    val ns = div(poly(List(d(18744340279608845, 18), d(77903147004616865, 19), d(3940354686136861, 18), -d(6693930988501673, 20)), e), S - mul(d(10423384680638834, 17), e))
    val num = mul(t, poly(List(
      poly(List(d(27180386951683135, 20), d(24422562796266645, 20), d(36556167661117023, 20), -d(5418851224505745, 19), -d(6807631931297156, 19)), e),
      poly(List(-d(2585252361022052, 20), -d(1049013062611254, 20), -d(10021140796150737, 21), d(30679548774047616, 21), d(22386313074011715, 18)), e),
      poly(List(-d(7547517256664526, 20), -d(35182990586857726, 20), -d(38216081981505285, 20), d(4038390455349854, 21), -d(230825153005985, 16)), e)), t))
    val den = poly(List(d(26666543809890402, 18),
      poly(List(-d(14590539285641243, 18), -d(12429476486138982, 18), d(25066696514373803, 18), d(5146809717492324, 18), d(14861197211952053, 16)), e),
      poly(List(-d(58684526275074025, 19), -d(2876774751921441, 17), -d(19641378027236502, 18), -d(1956646166089053, 18), -d(2551566872093786, 15)), e),
      poly(List(d(3507640638496499, 18), d(14176504653145768, 18), d(12622225233586283, 18), -d(767768214056772, 17), S), e)), t)
    ns + div(num, den)
      + mul3(sq(s.dchi), sq(e), d(34375176678815234, 20) + mul(d(16343732281057392, 21), e))
      + mul3(s.dchi, mul(s.dl, e), mul(d(8064665214195679, 17), sq(e)) + mul(e, -d(28476219509487793, 18) - mul(d(5746537021035632, 18), t)) - mul(d(11713735642446144, 19), t))
  }

  // ---------------------------------------------------------------- calibrated fits
  pure def seg(r: List[int], a: int, b: int): List[int] = r.slice(a, b)
  /// phase fits: no-spin + equal-spin (variable t) + unequal-spin contributions
  pure def fitPhase(k: int, s: Spins, t: int): int = {
    val r = XP[k]
    val e = s.eta
    val ns = div(poly(r.slice(0, 6), e), poly(r.slice(6, 10), e))
    val es = mul(t, poly(List(0, 1, 2, 3, 4).foldl(List(), (l, j) => l.append(poly(r.slice(10 + 5 * j, 15 + 5 * j), t))), e))
    val ed = poly(r.slice(35, 39), t)
    val us = mul3(s.dchi, mul(s.dl, e), poly(r.slice(39, 45), e) + mul(t, r[45] + mul(r[46], sq(e)) + mul(r[47], cube(e))))
      + mul3(r[48], sq(s.dchi), e)
    ns + div(es, ed) + us
  }
  /// amplitude fits
  pure def fitAmp(k: int, s: Spins, t: int): int = {
    val r = XA[k]
    val e = s.eta
    val ns = div(poly(r.slice(0, 5), e), poly(r.slice(5, 8), e))
    val en = poly(List(0, 1, 2, 3, 4, 5).foldl(List(), (l, j) => l.append(poly(r.slice(8 + 4 * j, 12 + 4 * j), e))), t)
    val ed = r[32] + mul(r[33], t) + mul(r[34], e) + mul(r[35], sq(t))
    ns + div(en, ed) + mul3(s.dchi, s.dl, poly(r.slice(36, 42), e))
  }

  // ---------------------------------------------------------------- post-Newtonian inspiral
  /// coefficients of (pi M f)^(k/3) and of (pi M f)^(k/3) ln(M f), k = 0..8
  pure def pnPhaseX(s: Spins): { c: List[int], lg: List[int] } = {
    val e = s.eta
    val e2 = sq(e)
    val c1 = s.c1
    val c2 = s.c2
    val sm = c1 + c2                       // sum and delta-weighted difference of the spins
    val df = mul(s.dl, c1 - c2)
    val p = sm + df
    val s11 = sq(c1)
    val s22 = sq(c2)
    val s12 = mul(c1, c2)
    val u = S + s.dl
    val w = S - s.dl
    val pi2 = sq(PI)
    val l8 = (0 - 5 * mul(PI, 1263141 * p - 2 * mul(e, 794075 * sm + 178533 * df) + 94344 * mul(e2, sm))) / 9072
    { c: List(S, 0, rat(3715, 756) + (55 * e) / 9,
        -16 * PI + (113 * p - 76 * mul(sm, e)) / 6,
        rat(15293365, 508032) + (27145 * e) / 504 + (3085 * e2) / 72
          - (5 * (81 * mul(s11, u - 2 * e) + 316 * mul(s12, e) + 81 * mul(s22, w - 2 * e))) / 16,
        0,
        rat(11583231236531, 4694215680) - (5 * mul(e, i(3147553127) + 588 * mul(e, i(-45633) + 102260 * e))) / 3048192
          - (6848 * GAMMA_E) / 21 - (640 * pi2) / 3 + (2255 * mul(e, pi2)) / 12 - (13696 * LN2) / 21 - (6848 * ln(PI)) / 63
          + (5 * mul(PI, 227 * p - 156 * mul(sm, e))) / 3
          + (5 * (20 * mul3(s12, e, i(11763) + 12488 * e)
              + 7 * mul(s22, 15103 * w + 2 * mul(e, i(-21683) + 6580 * s.dl) - 9808 * e2)
              - 7 * mul(s11, 0 - 15103 * u + 2 * mul(e, i(21683) + 6580 * s.dl) + 9808 * e2))) / 4032,
        (5 * mul(PI, i(15419335) + 168 * mul(e, i(75703) - 29618 * e))) / 254016
          + (5 * (0 - 5030016755 * p + 4 * mul(e, 2113331119 * sm + 675484362 * df)
              - 1008 * mul(e2, 208433 * sm + 25011 * df) + 90514368 * mul(sm, cube(e)))) / 6096384
          - 5 * mul(PI, 57 * mul(s11, u - 2 * e) + 220 * mul(s12, e) + 57 * mul(s22, w - 2 * e))
          + (14585 * (mul(cube(c2), w) + mul(cube(c1), u))
              - 5 * mul(e, mul(cube(c2), i(8819) - 2985 * s.dl) - 8439 * mul3(c1, s22, w) - 8439 * mul3(s11, c2, u)
                  + mul(cube(c1), i(8819) + 2985 * s.dl))
              + 40 * mul3(sm, e2, 17 * s11 - 14 * s12 + 17 * s22)) / 48,
        mul(l8, ln(PI) - S)),
      lg: List(0, 0, 0, 0, 0, (5 * mul(PI, i(46374) - 6552 * e)) / 4536
          + (0 - 732985 * p - 560 * mul(e, 63 * df - 1213 * sm) + 85680 * mul(sm, e2)) / 4536,
        -rat(6848, 63), 0, l8) }
  }
  /// amplitude coefficients of (pi M f)^(k/3), k = 0..6
  pure def pnAmpX(s: Spins): List[int] = {
    val e = s.eta
    val e2 = sq(e)
    val c1 = s.c1
    val c2 = s.c2
    val s11 = sq(c1)
    val s22 = sq(c2)
    val s12 = mul(c1, c2)
    val u = S + s.dl
    val w = S - s.dl
    val p = mul(c1, u) + mul(c2, w)
    List(S, 0, (1804 * e - i(969)) / 672,
      (81 * p - 44 * mul(c1 + c2, e)) / 48,
      (i(-27312085) - 10287648 * mul(s11, u)
        + 24 * (0 - 428652 * mul(s22, w) + mul(e, i(-1975055) + 10584 * (81 * s11 - 94 * s12 + 81 * s22)) + 1473794 * e2)) / 8128512,
      (6048 * mul(cube(c1), u - mul(e, 3 * S + s.dl))
        + mul(c2, mul(i(287213) + 6048 * s22, w) + 4 * mul(e, i(-93414) + 1512 * mul(s22, s.dl - 3 * S) + 2083 * s.dl) - 35632 * e2)
        + mul(c1, 287213 * u - 4 * mul(e, i(93414) + 2083 * s.dl + 8908 * e))
        - 42840 * mul(PI, S - 4 * e)) / 32256,
      (i(-1242641879927) + 12 * (28 * mul(e2, i(-3248849057) + 11088 * (163199 * (s11 + s22) - 266498 * s12))
        + 27026893936 * cube(e)
        - 116424 * (147117 * (mul(s22, w) + mul(s11, u)) + 60928 * mul(p, PI))
        + mul(e, i(545384828789) - 77616 * (638642 * s12 + mul(s11, i(-158633) + 282718 * s.dl) - mul(s22, i(158633) + 282718 * s.dl)
            - 107520 * mul(c1 + c2, PI) + 275520 * sq(PI))))) / 60085960704)
  }

  // ---------------------------------------------------------------- the model
  type X = { s: Spins, Ms: int, fRD: int, fDM: int, pn: { c: List[int], lg: List[int] }, sig: List[int],
             p1: int, p2: int, int5: List[int], rd: List[int], cL: int, a: (int, int), b: (int, int), lin: int,
             amp: List[int], rho: List[int], g1: int, g4: int, del: List[int], gam: (int, int, int) }

  pure def phaseInsX(pn: { c: List[int], lg: List[int] }, sig: List[int], x: int): int = {
    val v = cbrt(mul(PI, x))
    val u = cbrt(x)
    val pseudo = mul(powi(u, 8), poly(sig, u))
    0 - div(3 * (poly(pn.c, v) + mul(ln(x), poly(pn.lg, v)) + pseudo), 128 * powi(v, 5))
  }
  /// intermediate ansatz, coefficients c of (fRD / x)^k in the derivative
  pure def phaseIntX(c: List[int], cL: int, fRD: int, fDM: int, x: int): int =
    mul(c[0], x) + mul3(c[1], fRD, ln(x)) - mul3(c[2], sq(fRD), inv(x)) - mul3(c[3], cube(fRD), inv(sq(x))) / 2
      - mul3(c[4], powi(fRD, 4), inv(cube(x))) / 3
      + div(2 * mul(cL, atan(div(x - fRD, 2 * fDM))), fDM)
  pure def dPhaseIntX(c: List[int], cL: int, fRD: int, fDM: int, x: int): int =
    poly(c, div(fRD, x)) + div(4 * cL, 4 * sq(fDM) + sq(x - fRD))
  /// merger-ringdown ansatz, coefficients (c0, c1, c2, c4) and Lorentzian strength cL
  pure def phaseMrdX(c: List[int], cL: int, fRD: int, fDM: int, x: int): int =
    mul(c[0], x) + (3 * mul(c[1], powr(x, 2, 3))) / 2 - div(c[2], x) - div(c[3], 3 * cube(x))
      + div(mul(cL, atan(div(x - fRD, fDM))), fDM)
  pure def dPhaseMrdX(c: List[int], cL: int, fRD: int, fDM: int, x: int): int =
    c[0] + div(c[1], cbrt(x)) + div(c[2], sq(x)) + div(c[3], powi(x, 4)) + div(cL, sq(fDM) + sq(x - fRD))

  pure def ampInsX(amp: List[int], rho: List[int], x: int): int = {
    val u = cbrt(x)
    poly(amp, cbrt(mul(PI, x))) + mul(powi(u, 7), poly(rho, u))
  }
  /// merger-ringdown Lorentzian; g = (gamma1, gamma2, gamma3)
  pure def ampMrdX(g: (int, int, int), fRD: int, fDM: int, x: int): int = {
    val w = mul(fDM, g._3)
    val y = x - fRD
    div(mul3(exp(0 - div(mul(y, g._2), w)), w, g._1), sq(y) + sq(w))
  }
  pure def x76(x: int): int = powr(x, 7, 6)

  pure val HX = d(1, 15)
  pure val SQ2 = sqrt(2 * S)
  pure val NODES5 = List(0, S / 2 - div(S, 2 * SQ2), S / 2, S / 2 + div(S, 2 * SQ2), S)
  pure val DPHASE0 = div(5 * S, 128 * powr(PI, 5, 3))

  pure def prepareX(m1: int, m2: int, c1: int, c2: int): X = {
    val s = spinsX(etaOf(m1, m2), c1, c2)
    val er = S - eradX(s)
    val af = finalSpinX(s)
    val rf = ringX(af)
    val fRD = div(rf._1, er)
    val fDM = div(rf._2, er)
    val isco = iscoX(af)
    val meco = mecoX(s)
    // ---- inspiral phase: four pseudo-PN terms through four collocation values
    val pn = pnPhaseX(s)
    val vI2 = fitPhase(2, s, s.sPN)
    val vI = List(fitPhase(0, s, s.sPN) + vI2, fitPhase(1, s, s.sPN) + vI2, vI2, fitPhase(3, s, s.sPN) + vI2)
    val lo = d(26, 4)
    val hi = mul(d(102, 2), meco)
    val insRows = range(0, 4).foldl(List(), (l, k) => {
      val u = cbrt(lo + ([0, 1, 3, 4][k] * (hi - lo)) / 4)
      l.append(List(S, u, sq(u), cube(u), vI[k]))
    })
    val q = solve(insRows)
    val sig = List(0 - (5 * q[0]) / 3, 0 - (5 * q[1]) / 4, 0 - q[2], 0 - (5 * q[3]) / 6)
    // ---- transition frequencies of the phase
    val fIM = mul(d(6, 1), fRD / 2 + isco)
    val dfm = mul(fIM - meco, d(3, 2))
    val p1 = meco - dfm
    val p2 = fIM + dfm / 2
    // ---- merger-ringdown phase
    val v3 = fitPhase(11, s, s.sTot)
    val v1 = fitPhase(9, s, s.sTot) + v3
    val vR = List(fitPhase(8, s, s.sTot) + v1, v1, fitPhase(10, s, s.sTot) + v3, v3, fitPhase(12, s, s.sTot) + v3)
    val rMax = fRD + (5 * fDM) / 4
    val rdRows = range(0, 5).foldl(List(), (l, k) => {
      val x = if (k == 3) fRD else fIM + mul(NODES5[k], rMax - fIM)
      l.append(List(S, inv(cbrt(x)), inv(sq(x)), inv(powi(x, 4)), 0 - div(DPHASE0, sq(fDM) + sq(x - fRD)), vR[k]))
    })
    val rd = solve(rdRows)
    val cL = 0 - mul(DPHASE0, rd[4])
    // ---- intermediate phase
    val dIns = div(phaseInsX(pn, sig, p1 + HX) - phaseInsX(pn, sig, p1 - HX), 2 * HX)
    val w2 = (3 * (fitPhase(4, s, s.sTot) + v3)) / 4 + fitPhase(6, s, s.sTot) / 4
    val w3 = fitPhase(5, s, s.sTot) + v3
    val vM = List(dIns, w2, w3, fitPhase(7, s, s.sTot) + w3, vR[0])
    val intRows = range(0, 5).foldl(List(), (l, k) => {
      val x = p1 + mul(NODES5[k], p2 - p1)
      val r = div(fRD, x)
      l.append(List(S, r, sq(r), cube(r), powi(r, 4), vM[k] - div(4 * cL, 4 * sq(fDM) + sq(x - fRD))))
    })
    val int5 = solve(intRows)
    // ---- C1 joins
    val a1 = dIns - dPhaseIntX(int5, cL, fRD, fDM, p1)
    val a0 = phaseInsX(pn, sig, p1) - phaseIntX(int5, cL, fRD, fDM, p1) - mul(a1, p1)
    val b1 = dPhaseIntX(int5, cL, fRD, fDM, p2) + a1 - dPhaseMrdX(rd, cL, fRD, fDM, p2)
    val b0 = phaseIntX(int5, cL, fRD, fDM, p2) + a0 + mul(a1, p2) - phaseMrdX(rd, cL, fRD, fDM, p2) - mul(b1, p2)
    // ---- time alignment
    val e = s.eta
    val t = s.sTot
    val dd = mul3(s.dchi, s.dl, sq(e))
    val tpk = poly(List(d(31551635543201924, 13), d(12579949740608242, 13), -d(3224328428870599, 11), d(34721365466875216, 11), -d(19223851649491738, 10), d(53035911346921865, 10), -d(5789128656876938, 9)), e)
      + mul(t, poly(List(poly(List(-d(24181508118588667, 15), d(11549264174560281, 14), -d(38019778216022763, 14)), e),
                         poly(List(d(2472585609641552, 14), -d(3283762360751952, 13), d(7256024119989094, 13)), e),
                         poly(List(d(23404604124552, 12), -d(6463410199799737, 13), d(19418836639529036, 13)), e),
                         poly(List(-d(12814828278938885, 15), -d(32592980012408367, 14), d(1320102640190539, 12)), e)), t))
      - mul(d(14817317525117338, 14), dd)
    val p4s = poly(List(d(1339320482758057, 14), -d(17542481512989315, 14), d(2097425116152503, 12), -d(986284178637907, 11), d(16026897939722587, 12)), e)
      + mul(t, poly(List(poly(List(d(47895602776763, 13), -d(16304871764530466, 14), d(6095575850476959, 13)), e),
                         poly(List(d(13934428041390161, 16), -d(9751812681228478, 14), d(3769200932531847, 13)), e),
                         poly(List(d(15649521097877374, 15), d(13733317057388916, 14), -d(7559566456906406, 13)), e),
                         poly(List(d(13097315867845788, 15), d(14930405703643288, 14), -d(7645242164872267, 13)), e)), t))
      + mul(d(10537711654943146, 14), dd)
    val xPk = fRD - fDM
    val dPk = if (xPk <= p1) div(phaseInsX(pn, sig, xPk + HX) - phaseInsX(pn, sig, xPk - HX), 2 * HX)
      else if (xPk <= p2) dPhaseIntX(int5, cL, fRD, fDM, xPk) + a1 else dPhaseMrdX(rd, cL, fRD, fDM, xPk) + b1
    val lin = tpk - div(dPk, e) - mul(TWO_PI, i(500) + p4s)
    // ---- amplitude
    val amp = pnAmpX(s)
    val g1 = meco + (isco - meco) / 4
    val rhoRows = range(2, 5).foldl(List(), (l, k) => {
      val u = cbrt((k * g1) / 4)
      l.append(List(powi(u, 7), powi(u, 8), powi(u, 9), fitAmp(k - 2, s, s.sPN)))
    })
    val rho = solve(rhoRows)
    val gam2 = fitAmp(4, s, s.sTot)
    val gam3 = fitAmp(5, s, s.sTot)
    val w = mul(fDM, gam3)
    val g4 = abs(fRD + (if (gam2 < S) div(mul(w, sqrt(S - sq(gam2)) - S), gam2) else 0 - div(w, gam2)))
    val gam1 = mul3(div(fitAmp(6, s, s.sTot), w), sq(g4 - fRD) + sq(w), exp(div(mul(g4 - fRD, gam2), w)))
    val gam = (gam1, gam2, gam3)
    // intermediate: x^(7/6) over a quartic in x, matching value and slope at both ends
    pure def yI(x: int): int = div(x76(x), ampInsX(amp, rho, x))
    pure def yR(x: int): int = div(x76(x), ampMrdX(gam, fRD, fDM, x))
    val gm = (g1 + g4) / 2
    pure def row(x: int, v: int): List[int] = List(S, x, sq(x), cube(x), powi(x, 4), v)
    pure def drow(x: int, v: int): List[int] = List(0, S, 2 * x, 3 * sq(x), 4 * cube(x), v)
    val del = solve(List(row(g1, yI(g1)), row(gm, inv(fitAmp(3, s, s.sTot))), row(g4, yR(g4)),
      drow(g1, div(yI(g1 + HX) - yI(g1 - HX), 2 * HX)), drow(g4, div(yR(g4 + HX) - yR(g4 - HX), 2 * HX))))
    { s: s, Ms: mul(m1 + m2, MTSUN), fRD: fRD, fDM: fDM, pn: pn, sig: sig, p1: p1, p2: p2, int5: int5, rd: rd, cL: cL,
      a: (a0, a1), b: (b0, b1), lin: lin, amp: amp, rho: rho, g1: g1, g4: g4, del: del, gam: gam }
  }

  pure def rawPhaseX(w: X, x: int): int = div(
    if (x <= w.p1) phaseInsX(w.pn, w.sig, x)
    else if (x <= w.p2) phaseIntX(w.int5, w.cL, w.fRD, w.fDM, x) + w.a._1 + mul(w.a._2, x)
    else phaseMrdX(w.rd, w.cL, w.fRD, w.fDM, x) + w.b._1 + mul(w.b._2, x), w.s.eta)
  pure def relAmpX(w: X, x: int): int =
    if (x >= X_CUT) 0
    else if (x <= w.g1) ampInsX(w.amp, w.rho, x)
    else if (x <= w.g4) div(x76(x), poly(w.del, x))
    else ampMrdX(w.gam, w.fRD, w.fDM, x)
  pure def ampX(w: X, x: int, dist: int): int = {
    val lead = div(sqrt((2 * w.s.eta) / 3), powr(mul(PI, powi(x, 7)), 1, 6))
    val scale = div(mul(2 * sqrt(div(i(5), 64 * PI)), sq(w.Ms)), mul(dist, MPC_S))
    mul3(lead, relAmpX(w, x), scale)
  }
  /// phase of the strain (with a plus sign), pi/4 + pi at the reference frequency
  pure def phaseX(w: X, x: int, xref: int): int =
    rawPhaseX(w, x) - rawPhaseX(w, xref) + mul(w.lin, x - xref) + (5 * PI) / 4
  pure def strainX(w: X, f: int, fref: int, dist: int, tc: int, phic: int): (int, int) = {
    val x = mul(f, w.Ms)
    if (x >= X_CUT) (0, 0) else {
      val e = cis(extrinsicPhase(f, tc, phic) + phaseX(w, x, mul(fref, w.Ms)))
      val a = ampX(w, x, dist)
      (mul(a, e._1), mul(a, e._2))
    }
  }
}
