/// Where a waveform model changes formula, and the grid that looks closely there.
module edges_def {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import phenomd.* from "./phenomd"
  import phenomx.* from "./phenomx"
  import phenompv2.* from "./phenompv2"
  import nrtidal.* from "./nrtidal"

  /// internal region boundaries and the cutoff, in Hz
  type Edges = { inner: List[int], cut: int, scale: int, defined: bool }
  pure def hz(l: List[int], Ms: int): List[int] = l.foldl([], (a, x) => a.append(div(x, Ms)))
  pure def innerD(w: D): List[int] = hz([MF_INS_AMP, MF_INS_PHASE, w.f2, w.f4], w.Ms)
  /// m1 >= m2; spins as given to the model; l1, l2 per body; scale: amplitude of the leading order at 1 Mpc and M f = 1, roughly
  pure def edgesOf(model: str, m1: int, m2: int, s1: (int, int, int), s2: (int, int, int), l1: int, l2: int, taper: bool): Edges = {
    val Ms = mul(m1 + m2, MTSUN)
    if (model == "X") {
      val w = prepareX(m1, m2, s1._3, s2._3)
      { inner: hz([w.p1, w.p2, w.g1, w.g4], Ms), cut: div(X_CUT, Ms), scale: 0, defined: true }
    } else if (model == "P") {
      val chip = chiP(m1, m2, isqrt(s1._1 * s1._1 + s1._2 * s1._2), isqrt(s2._1 * s2._1 + s2._2 * s2._2))
      val w = prepareDWith(m1, m2, s1._3, s2._3, ringPrecessing(m1, m2, s1._3, s2._3, chip))
      { inner: innerD(w), cut: div(MF_CUT, Ms), scale: 0, defined: abs(finalSpinP(m1, m2, s1._3, s2._3, chip)) < d(999, 3) }
    } else {
      val w = prepareD(m1, m2, s1._3, s2._3)
      val fm = mergerFreq(m1, m2, kappaEff(m1, m2, l1, l2))
      if (model == "N" and taper) { inner: innerD(w).replaceAt(2, fm), cut: imin((12 * fm) / 10, div(MF_CUT, Ms)), scale: 0, defined: true }
      else { inner: innerD(w), cut: div(MF_CUT, Ms), scale: 0, defined: true }
    }
  }

  /// the close look at a boundary fb: three windows of six points, fb (1 + s delta)
  pure val DELTAS = [d(3, 4), d(3, 5), d(3, 6)]
  pure val STEPS = [-3, -2, -1, 1, 2, 3]
  pure def window(fb: int): List[int] =
    DELTAS.foldl([], (l, dl) => STEPS.foldl(l, (a, s) => a.append(fb + s * mul(fb, dl))))
  pure val NW = 18
  /// neighbouring doubles around fb, in units in the last place
  pure val ULPS = [-8192, -1024, -256, -64, -16, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 16, 64, 256, 1024, 8192]
  pure val NULP = 23
}
