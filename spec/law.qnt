/// How one evaluation relates to another of the same binary: the laws that distance, time,
/// phase, inclination, total mass, reference frequency and body exchange obey.
/// Knows nothing about any particular waveform.
module law {
  import fx.* from "./fx"
  import binary.* from "./binary"

  /// one recorded call of the real library
  type Ev = { act: int, sid: int, model: int, fn: int, mode: int, tilde: bool, taper: bool, nf: int,
              mc: int, eta: int, s1: (int, int, int), s2: (int, int, int), l1: int, l2: int,
              dist: int, tc: int, phic: int, iota: int, fref: int, m1: int, m2: int, idx: List[int], f: List[int], obs: List[int], flags: int }
  pure val HDR = 27
  /// an event as recorded: HDR numbers, nf indices into the first grid of the session, nf frequencies, observations
  pure def decode(r: List[int]): Ev = {
    val n = r[7]
    { act: r[0], sid: r[1], model: r[2], fn: r[3], mode: r[4], tilde: r[5] == 1, taper: r[6] == 1, nf: n,
      mc: r[8], eta: r[9], s1: (r[10], r[11], r[12]), s2: (r[13], r[14], r[15]), l1: r[16], l2: r[17],
      dist: r[18], tc: r[19], phic: r[20], iota: r[21], fref: r[22], flags: r[23], m1: r[24], m2: r[25],
      idx: r.slice(HDR, HDR + n), f: r.slice(HDR + n, HDR + 2 * n), obs: r.slice(HDR + 2 * n, r.length()) }
  }
  // codes
  pure val M_D = 1  pure val M_X = 2  pure val M_T = 3  pure val M_N = 4  pure val M_P = 5
  pure val FN_H = 0 pure val FN_POL = 1 pure val FN_MASS = 2

  /// non-finite observations are recorded as numbers far outside any physical range
  pure val HUGE = 3 * 10^59
  pure def finite(v: int): bool = abs(v) < HUGE
  pure def isPol(e: Ev): bool = e.fn != FN_H
  /// observed strain (or plus polarization) and cross polarization at grid position k
  pure def obsA(e: Ev, k: int): (int, int) = if (isPol(e)) (e.obs[4 * k], e.obs[4 * k + 1]) else (e.obs[2 * k], e.obs[2 * k + 1])
  pure def obsB(e: Ev, k: int): (int, int) = if (isPol(e)) (e.obs[4 * k + 2], e.obs[4 * k + 3]) else (0, 0)
  pure def finiteAt(e: Ev, k: int): bool = finite(obsA(e, k)._1) and finite(obsA(e, k)._2) and finite(obsB(e, k)._1) and finite(obsB(e, k)._2)

  type Bad = { ev: int, k: int, clause: str, got: int, limit: int }

  /// relative accuracy double precision can reach: the mass difference carries sqrt(rounding) for nearly equal masses
  pure def tolOf(eta: int): int = {
    val dl = deltaOf(eta)
    d(2, 8) + div(d(3, 9), imax(dl, d(1, 4)))
  }
  pure def massRatio(e: Ev, b: Ev): int = div(e.mc, b.mc)
  pure def sameRef(e: Ev, b: Ev): bool = abs(mul(e.fref, massRatio(e, b)) - b.fref) <= mul(b.fref, d(1, 12))

  /// scalar law: strain of e over strain of b at the same M f, apart from the reference phase and inclination
  pure def factor(e: Ev, b: Ev, k: int): (int, int) = {
    val s = massRatio(e, b)
    val amp = mul(sq(s), div(b.dist, e.dist))
    val f0 = b.f[e.idx[k]]
    // the precessing model's reference phase does not enter through a common factor
    val dph = if (e.model == M_P) 0 else 2 * (e.phic - b.phic)
    val ph = dph - mul(TWO_PI, mul(e.f[k], e.tc) - mul(f0, b.tc))
    cscale(amp, cis(ph))
  }
  /// predicted (strain or plus, cross) at grid position k of e from the first observation b of the session
  pure def predict(e: Ev, b: Ev, k: int): ((int, int), (int, int)) = {
    val g = factor(e, b, k)
    val j = e.idx[k]
    val a = cmul(g, obsA(b, j))
    if (isPol(b)) (a, cmul(g, obsB(b, j)))
    else if (isPol(e)) hphc(a, e.iota)
    else (a, (0, 0))
  }
  /// frequencies really are the rescaled ones of the first grid
  pure def gridOk(e: Ev, b: Ev): bool =
    0.to(e.nf - 1).forall(k => abs(mul(e.f[k], massRatio(e, b)) - b.f[e.idx[k]]) <= mul(b.f[e.idx[k]], d(1, 13)))

  /// phase between observation and prediction, from the strongest grid position
  pure def refPhase(e: Ev, b: Ev): (int, int) = {
    val best = range(0, e.nf).foldl((0, (S, 0)), (acc, k) => {
      val p = predict(e, b, k)
      val m = imax(cabs(p._1), cabs(p._2))
      if (m > acc._1) {
        val o = if (cabs(p._1) >= cabs(p._2)) obsA(e, k) else obsB(e, k)
        val q = if (cabs(p._1) >= cabs(p._2)) p._1 else p._2
        // o / q without squaring tiny numbers
        val n = q._1 * q._1 + q._2 * q._2
        (m, (((o._1 * q._1 + o._2 * q._2) * S) / n, ((o._2 * q._1 - o._1 * q._2) * S) / n))
      } else acc
    })
    best._2
  }

  /// the events of a session obey the laws: violations at event number n
  pure def judgeLaw(e: Ev, b: Ev, n: int, tol: int, clause: str): List[Bad] = {
    val kr = if (sameRef(e, b)) (S, 0) else refPhase(e, b)
    val unit = abs(cabs(kr) - S)
    // scale: the amplitude the base observation predicts, at the strongest orientation
    val bad0 = if (unit <= tol) List() else [{ ev: n, k: -1, clause: "reference-phase-not-unit", got: unit, limit: tol }]
    if (not(0.to(e.nf - 1).forall(k => finiteAt(e, k) and finiteAt(b, e.idx[k]))))
      [{ ev: n, k: -1, clause: "non-finite", got: 0, limit: 0 }]
    else {
      pure def scale(k: int): int = mul(cabs(factor(e, b, k)),
        if (isPol(b)) imax(cabs(obsA(b, e.idx[k])), cabs(obsB(b, e.idx[k]))) else cabs(obsA(b, e.idx[k])))
      // the tail of the taper is a huge negative power of e: compare it with the rest of the waveform
      val floor = if (e.model == M_N and e.taper) range(0, e.nf).foldl(0, (m, k) => imax(m, scale(k))) / 10^10 else 10^12
      range(0, e.nf).foldl(bad0, (l, k) => {
        val p = predict(e, b, k)
        val sc = scale(k)
        val err = imax(cabs(csub(obsA(e, k), cmul(kr, p._1))), cabs(csub(obsB(e, k), cmul(kr, p._2))))
        if (err <= mul(sc, tol) + floor) l
        else l.append({ ev: n, k: k, clause: clause, got: if (sc == 0) S else (err * S) / sc, limit: tol })
      })
    }
  }

  /// phase of the strain at the reference frequency for zero time and phase of coalescence (the point-particle models)
  pure def refOffset(model: int): int = if (model == M_T or model == M_X) (5 * PI) / 4 else 0
  pure def fixesPhase(e: Ev): bool = e.fref > 0 and (e.model == M_D or e.model == M_X or e.model == M_T)
  /// wherever the grid contains the reference frequency the phase is the one given by phic (and tc) alone
  pure def judgePhase(e: Ev, n: int, tol: int): List[Bad] =
    if (not(fixesPhase(e))) [] else range(0, e.nf).foldl([], (l, k) => {
      val o = obsA(e, k)
      val m = cabs(o)
      if (abs(e.f[k] - e.fref) > mul(e.fref, d(1, 13)) or not(finiteAt(e, k)) or m < 10^20) l
      else {
        val w = cis(2 * e.phic - mul3(TWO_PI, e.f[k], e.tc) + refOffset(e.model))
        val err = div(cabs(csub(o, cscale(m, w))), m)
        if (err <= tol) l else l.append({ ev: n, k: k, clause: "phase-at-reference", got: err, limit: tol })
      }
    })

  /// comparison with a reference: refs[k] = (strain or plus, cross, amplitude scale); a scale of -1 leaves the point undecided
  type Ref = { a: (int, int), b: (int, int), scale: int }
  pure def judgeWave(e: Ev, refs: List[Ref], n: int, tol: int, clause: str): List[Bad] =
    range(0, e.nf).foldl([], (l, k) => {
      val r = refs[k]
      if (r.scale < 0) l
      else if (not(finiteAt(e, k))) l.append({ ev: n, k: k, clause: "non-finite", got: 0, limit: 0 })
      else {
        val err = imax(cabs(csub(obsA(e, k), r.a)), cabs(csub(obsB(e, k), r.b)))
        if (err <= mul(r.scale, tol) + 10^12) l
        else l.append({ ev: n, k: k, clause: clause, got: if (r.scale == 0) S else (err * S) / r.scale, limit: tol })
      }
    })
  /// reference of an aligned-spin model of strain h
  pure def refAligned(e: Ev, h: (int, int), scale: int): Ref =
    if (isPol(e)) { val p = hphc(h, e.iota) { a: p._1, b: p._2, scale: scale } } else { a: h, b: (0, 0), scale: scale }
  /// too close to the cutoff for rounding of M f to decide the side
  pure def onEdge(x: int, cut: int): bool = abs(x - cut) <= mul(cut, d(1, 12))
}
