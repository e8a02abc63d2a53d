/// IMRPhenomPv2: precessing inspiral-merger-ringdown waveform, twisted-up IMRPhenomD
/// (arXiv:1308.3271, LIGO-T1500602 and T1500606).  Body 1 is the more massive one.
module phenompv2 {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import phenomd.* from "./phenomd"

  type Vec = { x: int, y: int, z: int }
  pure def vec(x: int, y: int, z: int): Vec = { x: x, y: y, z: z }
  pure def dot(a: Vec, b: Vec): int = mul(a.x, b.x) + mul(a.y, b.y) + mul(a.z, b.z)
  /// rotation by the angle of cosine c and sine s about the z axis, and about the y axis
  pure def rotZ(c: int, s: int, v: Vec): Vec = vec(mul(v.x, c) - mul(v.y, s), mul(v.x, s) + mul(v.y, c), v.z)
  pure def rotY(c: int, s: int, v: Vec): Vec = vec(mul(v.x, c) + mul(v.z, s), v.y, mul(v.z, c) - mul(v.x, s))
  pure def perp(v: Vec): int = isqrt(v.x * v.x + v.y * v.y)

  /// orbital angular momentum in units of M^2, 2PN without spins, v = (pi M f)^(1/3)
  pure def orbitalL(v: int, eta: int): int = {
    val x = sq(v)
    div(mul(eta, S + mul(3 * S / 2 + eta / 6, x) + mul((27 * S) / 8 - (19 * eta) / 8 - sq(eta) / 24, sq(x))), v)
  }
  /// effective precession spin (arXiv:1408.1810 eq. 3.4)
  pure def chiP(m1: int, m2: int, p1: int, p2: int): int = {
    val a1 = 2 * S + div(3 * m2, 2 * m1)
    val a2 = 2 * S + div(3 * m1, 2 * m2)
    div(imax(mul3(a1, sq(m1), p1), mul3(a2, sq(m2), p2)), mul(a1, sq(m1)))
  }

  type Frame = { chip: int, thetaJN: int, alpha0: int, phiAligned: int, zeta: int }
  /// orientation of the J frame and of the polarizations at the reference frequency
  pure def frame(m1: int, m2: int, s1: Vec, s2: Vec, fref: int, phiRef: int, iota: int): Frame = {
    val M = m1 + m2
    val vref = cbrt(mul(PI, mul3(M, MTSUN, fref)))
    val w1 = sq(m1)
    val w2 = sq(m2)
    val J = vec(mul(w1, s1.x) + mul(w2, s2.x), mul(w1, s1.y) + mul(w2, s2.y),
                mul(w1, s1.z) + mul(w2, s2.z) + mul(sq(M), orbitalL(vref, etaOf(m1, m2))))
    val jp = perp(J)
    val j = isqrt(J.x * J.x + J.y * J.y + J.z * J.z)
    val cp = cis(phiRef)
    val ci = cis(iota)
    val n = vec(mul(ci._2, cp._2), mul(ci._2, cp._1), ci._1)
    val xh = vec(0 - mul(ci._1, cp._2), 0 - mul(ci._1, cp._1), ci._2)
    // azimuth of J; that of the line of sight when J is along the orbital axis
    val phiJ = if (jp == 0) PI / 2 - phiRef else atan2(J.y, J.x)
    val cj = if (jp == 0) cp._2 else div(J.x, jp)
    val sj = if (jp == 0) cp._1 else div(J.y, jp)
    val ct = div(J.z, j)
    val st = div(jp, j)
    pure def toJ(v: Vec): Vec = rotY(ct, 0 - st, rotZ(cj, 0 - sj, v))
    val nj = toJ(n)
    // rotate about J so that the line of sight lies in the x-z half plane
    val np = perp(nj)
    val kc = if (np == 0) S else div(nj.x, np)
    val ks = if (np == 0) 0 else 0 - div(nj.y, np)
    val l = rotZ(kc, ks, toJ(vec(0, 0, S)))
    val nn = rotZ(kc, ks, nj)
    val xx = rotZ(kc, ks, toJ(xh))
    // X in the basis P = N x J / |N x J|, Q = N x P
    val p = vec(0, 0 - S, 0)
    val q = vec(nn.z, 0, 0 - nn.x)
    { chip: chiP(m1, m2, perp(s1), perp(s2)), thetaJN: atan2(np, nn.z), alpha0: atan2(l.y, l.x),
      phiAligned: 0 - phiJ, zeta: atan2(dot(xx, q), dot(xx, p)) }
  }

  /// next-to-next-to-leading-order precession angle: coefficients of 1/w, w^(-2/3), w^(-1/3), ln w, w^(1/3)
  /// with w = pi M f; alpha takes the precession spin, epsilon is the same with zero precession spin
  pure def angleCoeffs(m1: int, m2: int, chil: int, chip: int): List[int] = {
    val M = m1 + m2
    val x = div(m1, M)           // mass fraction of the larger body
    val y = div(m2, M)
    val dm = y - x
    val e = mul(x, y)
    val e2 = sq(e)
    val r = div(dm, x)
    val xe = div(x, e)           // 1 / y
    val p2 = sq(chip)
    val k2 = mul(p2, sq(xe))     // (chip x / eta)^2
    val l2 = sq(chil)
    val x2 = sq(x)
    val rx = mul(dm, x)
    List(
      0 - rat(175, 960) - (5 * r) / 64,
      0 - mul3(chil, xe, 15 * dm + 35 * x) / 128,
      0 - rat(5515, 3072) - (4555 * r) / 7168 - mul3(k2, x, 15 * dm + 35 * x) / 128
        - (515 * e) / 384 - mul(e, 15 * sq(r) + 175 * r) / 256,
      0 - mul(PI, 35 * S + 15 * r) / 48 + mul(chil, 5 * sq(dm) / 16 + (5 * rx) / 3 + (2545 * x2) / 1152)
        - mul(mul3(k2, div(mul(chil, x2), e), x), 15 * dm + 35 * x) / 384
        + mul3(chil, xe, (2035 * dm) / 21504 + (2995 * x) / 9216),
      d(4318908476114694, 15) + div(27895885 * r, i(21676032))
        - mul(mul(sq(k2), cube(x)), 15 * dm + 35 * x) / 512
        - mul(k2, (485 * rx) / 14336 - (475 * x2) / 6144)
        + mul(mul(p2, xe), (15 * mul(sq(dm), x)) / 256 + (145 * mul(dm, x2)) / 512 + (575 * cube(x)) / 1536)
        + (39695 * e) / 86016 + mul(e, (1615 * sq(r)) / 28672 - (265 * r) / 14336)
        + mul(e2, (955 * S) / 576 + (15 * cube(r)) / 1024 + (35 * sq(r)) / 256 + (2725 * r) / 3072)
        - mul(mul3(PI, chil, xe), 15 * dm + 35 * x) / 16
        + mul(mul(mul3(k2, sq(xe), l2), cube(x)), 15 * dm + 35 * x) / 128
        + mul(mul(l2, xe), (375 * mul(sq(dm), x)) / 256 + (1815 * mul(dm, x2)) / 256 + (1645 * cube(x)) / 192))
  }
  pure def angleAt(c: List[int], w: int): int = {
    val u = cbrt(w)
    div(c[0], w) + div(c[1], sq(u)) + div(c[2], u) + mul(c[3], ln(w)) + mul(c[4], u)
  }

  /// in-plane-spin-corrected ringdown
  pure def ringPrecessing(m1: int, m2: int, c1: int, c2: int, chip: int): (int, int) = ringdown(finalSpinP(m1, m2, c1, c2, chip), eradSpins(etaOf(m1, m2), c1, c2))
  pure def finalSpinP(m1: int, m2: int, c1: int, c2: int, chip: int): int = {
    val M = m1 + m2
    val par = finalSpin(etaOf(m1, m2), div(mul(sq(m1), c1) + mul(sq(m2), c2), sq(M)))
    val sp = mul(chip, sq(div(m1, M)))
    val a = isqrt(sp * sp + par * par)
    if (par < 0) -a else a
  }

  type P = { D: D, fr: Frame, al: List[int], ep: List[int], al0: int, ep0: int, x: int, SL: int, Sp: int,
             y: List[int], rot: (int, int), dRD: int }

  pure def prepareP(m1: int, m2: int, s1: Vec, s2: Vec, fref: int, phiRef: int, iota: int): P = {
    val fr = frame(m1, m2, s1, s2, fref, phiRef, iota)
    val D = prepareDWith(m1, m2, s1.z, s2.z, ringPrecessing(m1, m2, s1.z, s2.z, fr.chip))
    val x = div(m1, m1 + m2)
    val y = S - x
    val chil = div(chiEff(m1, m2, s1.z, s2.z), x)
    val al = angleCoeffs(m1, m2, chil, fr.chip)
    val ep = angleCoeffs(m1, m2, chil, 0)
    val wref = mul(PI, mul(D.Ms, fref))
    val c = cos(fr.thetaJN)
    val s = sin(fr.thetaJN)
    { D: D, fr: fr, al: al, ep: ep, al0: angleAt(al, wref) - fr.alpha0, ep0: angleAt(ep, wref), x: x,
      SL: mul(sq(x), s1.z) + mul(sq(y), s2.z), Sp: mul(fr.chip, sq(x)),
      // spin-weighted harmonics (s=-2, l=2, m=-2..2) over sqrt(5/(64 pi))
      y: List(sq(S - c), 2 * mul(s, S - c), mul(sqrt(i(6)), sq(s)), 2 * mul(s, S + c), sq(S + c)),
      rot: cis(2 * fr.zeta), dRD: dPhaseMrd(D.eta, D.co, D.fRD, D.fDM, D.fRD) + D.a._2 }
  }

  /// (h_plus, h_cross)
  pure def strainP(p: P, f: int, dist: int, tc: int): ((int, int), (int, int)) = {
    val z = mul(f, p.D.Ms)
    if (z >= MF_CUT) ((0, 0), (0, 0)) else {
      val w = mul(PI, z)
      val a = cis(angleAt(p.al, w) - p.al0)
      val a2 = cmul(a, a)
      val ac = cconj(a)
      val ac2 = cconj(a2)
      val eps = angleAt(p.ep, w) - p.ep0
      // opening angle of the precession cone
      val t = div(p.Sp, orbitalL(cbrt(w), p.D.eta) + p.SL)
      val cb = inv(sqrt(S + sq(t)))
      val c = sqrt((S + cb) / 2)
      // sin(beta/2) without cancellation: sin beta = t cos beta
      val s = div(mul(abs(t), cb), 2 * c)
      val d2 = List(powi(c, 4), 2 * mul(cube(c), s), mul(sqrt(i(6)), mul(sq(c), sq(s))), 2 * mul(c, cube(s)), powi(s, 4))
      pure def term(e: (int, int), q: int, k: int): (int, int) = cscale(mul(d2[q], p.y[k]), e)
      val one = (S, 0)
      val tp = cadd(csub(term(a2, 0, 0), term(a, 1, 1)), cadd(term(one, 2, 2), csub(term(ac2, 4, 4), term(ac, 3, 3))))
      val tm = cadd(cadd(term(ac2, 4, 0), term(ac, 3, 1)), cadd(term(one, 2, 2), cadd(term(a, 1, 3), term(a2, 0, 4))))
      val ph = 2 * p.fr.phiAligned - rawPhaseD(p.D, z) + mul(p.dRD, z) - 2 * eps - mul(TWO_PI, mul(f, tc))
      val A = ampD(p.D, z, dist) / 4
      val h = cscale(A, cis(ph))
      val sum = cmul(h, cadd(tp, tm))
      val dif = cmul(h, csub(tp, tm))
      val hp = sum
      val hc = (0 - dif._2, dif._1)
      (cadd(cscale(p.rot._1, hp), cscale(p.rot._2, hc)), csub(cscale(p.rot._1, hc), cscale(p.rot._2, hp)))
    }
  }
  /// largest modulus either polarization can have: sets the scale of comparisons
  pure def ampP(p: P, f: int, dist: int): int = ampD(p.D, mul(f, p.D.Ms), dist)
}
