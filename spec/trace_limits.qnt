/// A binary asked of a richer model of which it is the limit: the two real waveforms differ
/// exactly by what the richer model adds, and that vanishes with the deformability or the in-plane spin.
/// Every event is judged against the first one of its session, another model of the real library.
module trace_limits {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import law.* from "./law"
  import taylorf2.* from "./taylorf2"
  import phenomd.* from "./phenomd"
  import nrtidal.* from "./nrtidal"
  import phenompv2.* from "./phenompv2"
  import trace_data.* from "./trace_data"

  pure def feq(a: int, b: int): bool = abs(a - b) <= mul(imax(abs(a), abs(b)), d(1, 14))
  /// only the model and what vanishes in the limit changed
  pure def stepOk(e: Ev, b: Ev): bool = and {
    e.sid == b.sid, feq(e.mc, b.mc), feq(e.eta, b.eta), e.dist == b.dist, e.tc == b.tc, e.phic == b.phic,
    e.iota == b.iota, e.fref == b.fref, e.s1._3 == b.s1._3, e.s2._3 == b.s2._3, gridOk(e, b),
    if (b.model == M_T) e.model == M_T else e.model == M_N or e.model == M_P,
  }
  pure def reduced(e: Ev): bool = e.l1 == 0 and e.l2 == 0 and e.s1._1 == 0 and e.s1._2 == 0 and e.s2._1 == 0 and e.s2._2 == 0

  /// complex quotient
  pure def cquot(a: (int, int), b: (int, int)): (int, int) = {
    val n = b._1 * b._1 + b._2 * b._2
    if (n == 0) (0, 0) else (((a._1 * b._1 + a._2 * b._2) * S) / n, ((a._2 * b._1 - a._1 * b._2) * S) / n)
  }
  type Pt = { ok: bool, err: int, limit: int }

  /// TaylorF2 over TaylorF2: the tidal and quadrupole phase alone
  pure def tidalT(e: Ev, b: Ev, tol: int): List[Pt] = {
    val m = toMasses(e.mc, e.eta)
    val t0 = if (b.tilde) lambdas(b.l1, b.l2, m._1, m._2) else (b.l1, b.l2)
    val w0 = prepareTF2(m._1, m._2, b.s1._3, b.s2._3, t0._1, t0._2, b.dist, b.fref)
    val w1 = prepareTF2(m._1, m._2, e.s1._3, e.s2._3, e.l1, e.l2, e.dist, e.fref)
    range(0, e.nf).foldl([], (r, k) => {
      val v = cbrt(mul3(PI, w0.Ms, e.f[k]))
      val dph = phaseAt(w1.p, w1.eta, v) - w1.ref - phaseAt(w0.p, w0.eta, v) + w0.ref
      val p = cmul(obsA(b, e.idx[k]), cis(-dph))
      r.append({ ok: true, err: cabs(csub(obsA(e, k), p)), limit: mul(cabs(p), tol) + 10^12 })
    })
  }
  /// IMRPhenomD_NRTidalv2 over IMRPhenomD: tidal amplitude, tidal and spin-induced phase, taper; below the IMRPhenomD cutoff
  pure def tidalN(e: Ev, b: Ev, tol: int): List[Pt] = {
    val m = toMasses(e.mc, e.eta)
    val Ms = mul(m._1 + m._2, MTSUN)
    val kap = kappaEff(m._1, m._2, e.l1, e.l2)
    val fm = mergerFreq(m._1, m._2, kap)
    range(0, e.nf).foldl([], (r, k) => {
      val x = mul(e.f[k], Ms)
      val v = cbrt(mul(PI, x))
      val q = cis(0 - tidalPhase(kap, e.eta, v) - spinPhase(m._1, m._2, e.s1._3, e.s2._3, e.l1, e.l2, v))
      val o = obsA(b, e.idx[k])
      val a = cabs(o)
      val t = tidalAmp(m._1, m._2, kap, v, e.dist)
      val g = if (e.taper) planck(e.f[k], fm) else S
      val p = cmul(cscale(g, if (a == 0) o else cscale(div(a + t, a), o)), q)
      r.append({ ok: x < MF_CUT - d(1, 9), err: cabs(csub(obsA(e, k), p)), limit: mul(a + abs(t), tol) + 10^12 })
    })
  }
  /// how far the precessing model may move for a small in-plane spin: the opening angle of its cone
  pure def tilt(e: Ev, m: (int, int), x: int): int = {
    val c = chiP(m._1, m._2, isqrt(sq(e.s1._1) * S + sq(e.s1._2) * S), isqrt(sq(e.s2._1) * S + sq(e.s2._2) * S))
    val M = m._1 + m._2
    val L = orbitalL(cbrt(mul(PI, x)), e.eta) + mul(sq(div(m._1, M)), e.s1._3) + mul(sq(div(m._2, M)), e.s2._3)
    abs(div(mul(c, sq(div(m._1, M))), L))
  }
  /// total angular momentum along the orbital one at the reference frequency, in units of M^2: the model takes
  /// the precession cone to open towards the orbital angular momentum, which the published recipe only gives when this is positive
  pure def totalJ(e: Ev, m: (int, int), x: int): int = {
    val M = m._1 + m._2
    orbitalL(cbrt(mul(PI, x)), e.eta) + mul(sq(div(m._1, M)), e.s1._3) + mul(sq(div(m._2, M)), e.s2._3)
  }
  /// IMRPhenomPv2 over IMRPhenomD: inclination factors, one constant phase, and the time between the two alignments
  pure def alignedP(e: Ev, b: Ev, tol: int): List[Pt] = {
    val m = toMasses(e.mc, e.eta)
    val w = prepareD(m._1, m._2, e.s1._3, e.s2._3)
    val tP = dPhaseMrd(w.eta, w.co, w.fRD, w.fDM, w.fRD) + w.a._2
    // IMRPhenomD is aligned at its amplitude peak, with the derivative of the merger-ringdown ansatz alone
    val dt = tP - w.t0
    pure def shift(k: int): (int, int) = cis(mul(dt, mul(e.f[k], w.Ms)))
    pure def plain(k: int): ((int, int), (int, int)) = hphc(cmul(obsA(b, e.idx[k]), shift(k)), e.iota)
    // the constant phase, from the strongest point
    val best = range(0, e.nf).foldl((-1, (S, 0)), (acc, k) => {
      val a = cabs(obsA(b, e.idx[k]))
      if (a > acc._1) (a, cquot(obsA(e, k), plain(k)._1)) else acc
    })._2
    val jz = totalJ(e, m, mul(e.fref, w.Ms))
    val fref = tilt(e, m, mul(e.fref, w.Ms))
    range(0, e.nf).foldl([], (r, k) => {
      val x = mul(e.f[k], w.Ms)
      val p = plain(k)
      val err = imax(cabs(csub(obsA(e, k), cmul(best, p._1))), cabs(csub(obsB(e, k), cmul(best, p._2))))
      val dev = if (reduced(e)) 0 else 20 * (tilt(e, m, x) + fref)
      r.append({ ok: abs(x - MF_CUT) > d(1, 9) and jz > d(1, 4), err: imax(err, mul(cabs(obsA(b, e.idx[k])), abs(cabs(best) - S))),
                 limit: mul(cabs(obsA(b, e.idx[k])), tol + dev) + 10^12 })
    })
  }

  pure def judge(e: Ev, b: Ev, n: int): List[Bad] = {
    val m = toMasses(e.mc, e.eta)
    val tol = imax(TOL, tolOf(e.eta)) + (if (e.model == M_P) 2 * ringTolD(m._1, m._2, e.s1._3, e.s2._3) else 0)
    val pts = if (b.model == M_T) tidalT(e, b, tol) else if (e.model == M_N) tidalN(e, b, tol) else alignedP(e, b, tol)
    val clause = if (b.model == M_T) "TaylorF2-tides-alone" else if (e.model == M_N) "tidal-over-point-particle" else "precessing-over-aligned"
    range(0, e.nf).foldl([], (l, k) =>
      if (not(finiteAt(e, k)) or not(finiteAt(b, e.idx[k]))) l.append({ ev: n, k: k, clause: "non-finite", got: 0, limit: 0 })
      else if (not(pts[k].ok) or pts[k].err <= pts[k].limit) l
      else l.append({ ev: n, k: k, clause: clause, got: div(pts[k].err, pts[k].limit), limit: S }))
  }
  /// counted cases: TaylorF2, tidal limit itself, tidal nearby, precessing limit itself, precessing nearby
  pure def case(e: Ev, b: Ev): int =
    if (b.model == M_T) 0 else if (e.model == M_N) (if (reduced(e)) 1 else 2) else if (reduced(e)) 3 else 4

  var l: int
  var base: int
  var bad: List[Bad]
  var points: int
  var seen: List[int]
  action init = all { l' = 0, base' = 0, bad' = [], points' = 0, seen' = [0, 0, 0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = decode(EVENTS[l])
    val b = decode(EVENTS[base])
    val verdict = if (e.act == 0) [] else if (not(stepOk(e, b))) [{ ev: l, k: -1, clause: "not-a-limit-step", got: 0, limit: 0 }] else judge(e, b, l)
    all {
      l' = l + 1,
      base' = if (e.act == 0) l else base,
      bad' = bad.concat(verdict),
      points' = points + (if (e.act == 0) 0 else e.nf),
      seen' = if (e.act == 0) seen else seen.replaceAt(case(e, b), seen[case(e, b)] + 1),
    }
  }
}
