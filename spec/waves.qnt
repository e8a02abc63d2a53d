/// The waveform of any recorded call, by the specification of its model.
module waves {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import law.* from "./law"
  import phenomd.* from "./phenomd"
  import phenomx.* from "./phenomx"
  import taylorf2.* from "./taylorf2"
  import nrtidal.* from "./nrtidal"
  import phenompv2.* from "./phenompv2"

  type W2 = ((int, int), (int, int))
  /// the waveform on the grid
  pure def wave(e: Ev): List[W2] = {
    val m = if (e.model == M_P and e.fn == FN_MASS) (e.m1, e.m2) else toMasses(e.mc, e.eta)
    pure def grid(h: int => (int, int)): List[W2] = e.f.foldl([], (l, f) => {
      val s = h(f)
      l.append(if (isPol(e)) hphc(s, e.iota) else (s, (0, 0)))
    })
    if (e.model == M_P) {
      val w = prepareP(m._1, m._2, vec(e.s1._1, e.s1._2, e.s1._3), vec(e.s2._1, e.s2._2, e.s2._3), e.fref, e.phic, e.iota)
      e.f.foldl([], (l, f) => l.append(strainP(w, f, e.dist, e.tc)))
    } else if (e.model == M_D) { val w = prepareD(m._1, m._2, e.s1._3, e.s2._3) grid(f => strainD(w, f, e.fref, e.dist, e.tc, e.phic)) }
    else if (e.model == M_X) { val w = prepareX(m._1, m._2, e.s1._3, e.s2._3) grid(f => strainX(w, f, e.fref, e.dist, e.tc, e.phic)) }
    else {
      val t = if (e.tilde) lambdas(e.l1, e.l2, m._1, m._2) else (e.l1, e.l2)
      if (e.model == M_T) { val w = prepareTF2(m._1, m._2, e.s1._3, e.s2._3, t._1, t._2, e.dist, e.fref) grid(f => strainTF2(w, f, e.tc, e.phic)) }
      else { val w = prepareNR(m._1, m._2, e.s1._3, e.s2._3, t._1, t._2, e.taper) grid(f => strainNR(w, f, e.fref, e.dist, e.tc, e.phic)) }
    }
  }
  pure def norm2(w: W2): int = isqrt(w._1._1 * w._1._1 + w._1._2 * w._1._2 + w._2._1 * w._2._1 + w._2._2 * w._2._2)

  /// what a phase is the sum of, in absolute value: rounding leaves a small multiple of this times the precision.
  /// (IMRPhenomXAS is measured by the size of the IMRPhenomD terms.)
  pure def absPN(eta: int, c: List[int], lg: List[int], v: int): int = {
    val lv = abs(ln(v))
    pure def absPoly(p: List[int]): int = range(0, p.length()).foldl(0, (a, k) => a + mul(abs(p[k]), powi(v, k)))
    div(3 * (absPoly(c) + mul(lv, absPoly(lg))), mul(128 * eta, powi(v, 5)))
  }
  pure def absLate(eta: int, co: List[int], x: int): int = {
    val u = cbrt(x)
    div(mul(x, abs(co[7]) + mul(abs(co[8]), u) + mul(abs(co[9]), sq(u)) + mul(abs(co[10]), x))
      + mul(abs(co[11]), x) + mul(abs(co[12]), abs(ln(x))) + div(abs(co[13]), 3 * cube(x))
      + mul(abs(co[14]), x) + div(abs(co[15]), x) + 2 * mul(abs(co[16]), powr(x, 3, 4)) + 2 * abs(co[17]), eta)
  }
  pure def phaseScale(e: Ev, f: int): int = {
    val m = if (e.model == M_P and e.fn == FN_MASS) (e.m1, e.m2) else toMasses(e.mc, e.eta)
    val ext = mul3(TWO_PI, f, abs(e.tc)) + 2 * abs(e.phic) + 10 * S
    if (e.model == M_T) {
      val t = if (e.tilde) lambdas(e.l1, e.l2, m._1, m._2) else (e.l1, e.l2)
      val w = prepareTF2(m._1, m._2, e.s1._3, e.s2._3, t._1, t._2, e.dist, e.fref)
      pure def at(g: int): int = absPN(w.eta, w.p.c, w.p.lg, cbrt(mul3(PI, w.Ms, g)))
      ext + at(f) + (if (e.fref == 0) 0 else at(e.fref))
    } else {
      val w = prepareD(m._1, m._2, e.s1._3, e.s2._3)
      val x = mul(f, w.Ms)
      val xr = mul(e.fref, w.Ms)
      pure def at(y: int): int = absPN(w.eta, w.pn.c, w.pn.lg, cbrt(mul(PI, imin(y, MF_INS_PHASE)))) + absLate(w.eta, w.co, imax(y, MF_INS_PHASE))
      val tid = if (e.model == M_N) {
        val t = if (e.tilde) lambdas(e.l1, e.l2, m._1, m._2) else (e.l1, e.l2)
        val v = cbrt(mul(PI, x))
        abs(tidalPhase(kappaEff(m._1, m._2, t._1, t._2), e.eta, v)) + abs(spinPhase(m._1, m._2, e.s1._3, e.s2._3, t._1, t._2, v))
      } else 0
      val twist = if (e.model == M_P) {
        val chip = chiP(m._1, m._2, isqrt(e.s1._1 * e.s1._1 + e.s1._2 * e.s1._2), isqrt(e.s2._1 * e.s2._1 + e.s2._2 * e.s2._2))
        val c = angleCoeffs(m._1, m._2, div(chiEff(m._1, m._2, e.s1._3, e.s2._3), div(m._1, m._1 + m._2)), chip)
        pure def ang(z: int): int = { val g = mul(PI, z) val u = cbrt(g)
          div(abs(c[0]), g) + div(abs(c[1]), sq(u)) + div(abs(c[2]), u) + mul(abs(c[3]), abs(ln(g))) + mul(abs(c[4]), u) }
        4 * (ang(x) + ang(xr))
      } else 0
      ext + at(x) + at(xr) + tid + twist + mul(S + div(abs(x - xr), MF_INS_PHASE), at(MF_INS_PHASE) + at(w.f2) / 2)
    }
  }
}
