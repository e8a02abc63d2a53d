/// Sine-Gaussian bursts (LALInferenceBurstRoutines).
module sinegauss {
  import fx.* from "./fx"

  type Burst = { q: int, f: int, hrss: int, phase: int, ecc: int }

  /// semi-major and semi-minor axes of the polarization ellipse, a^2 + b^2 = 1
  pure def axes(ecc: int): (int, int) = {
    val a = inv(sqrt(2 * S - sq(ecc)))
    (a, mul(a, sqrt(imax(0, S - sq(ecc)))))
  }
  /// integral of exp(-(2 pi f t / Q)^2) cos^2(2 pi f t) and sin^2 over all times
  pure def norms(b: Burst): (int, int) = {
    val n = div(b.q, mul(4 * b.f, sqrt(PI)))
    val e = exp(0 - sq(b.q))
    (mul(n, S + e), mul(n, S - e))
  }
  type Prep = { b: Burst, plus: int, cross: int }
  pure def prepareSG(b: Burst): Prep = {
    val ab = axes(b.ecc)
    val cs = cis(b.phase)
    val n = norms(b)
    { b: b, plus: div(mul(b.hrss, ab._1), sqrt(mul(n._1, sq(cs._1)) + mul(n._2, sq(cs._2)))),
      cross: div(mul(b.hrss, ab._2), sqrt(mul(n._1, sq(cs._2)) + mul(n._2, sq(cs._1)))) }
  }
  /// (plus, cross) at time t
  pure def burstAt(w: Prep, t: int): (int, int) = {
    val phi = mul3(TWO_PI, w.b.f, t)
    val env = exp(0 - sq(div(phi, w.b.q)) / 2)
    val cs = cis(phi - w.b.phase)
    (mul3(w.plus, env, cs._1), mul3(w.cross, env, cs._2))
  }

}
