/// Looking for the seams of the waveform models: for one binary after another, a wide scan of
/// frequencies (below, across and above the cutoff) and a close look at every place where the
/// model changes formula.  The exact neighbouring doubles of a boundary are filled in by the harness.
module edges {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import edges_def.* from "./edges_def"
  import session as ses from "./session"

  pure val NSCAN = 60
  type Look = { call: ses::Call, scan: List[int], inner: List[int], cut: int }
  var look: Look
  var act: str

  action begin(m: str): bool = all { look' = { call: ses::NONE.with("model", m), scan: [], inner: [], cut: 0 }, act' = "init" }
  action init_D = begin("D")
  action init_X = begin("X")
  action init_N = begin("N")
  action init_P = begin("P")

  /// M f from 5e-4 to 0.35, jittered; part of the looks lie entirely above the cutoff
  pure def scanOf(Ms: int, cut: int, kind: int, r: int): List[int] = {
    val lo = if (kind == 0) cut + mul(cut, d(1, 6)) else div(d(5, 4), Ms)
    val hi = imax(div(d(35, 2), Ms), 2 * lo)
    val step = div(ln(div(hi, lo)), i(NSCAN))
    range(0, NSCAN).foldl([], (l, k) => l.append(mul(lo, exp(mul(step, i(k) + ((r / 10^k) % 10^9) * 10^41)))))
  }
  action step = {
    nondet qs = oneOf(0.to(5))
    nondet ss = oneOf(0.to(11))
    nondet ls = oneOf(0.to(8))
    nondet es = oneOf(0.to(4))
    nondet fs = oneOf(1.to(4))
    nondet r = oneOf(1.to(ses::DRAW))
    nondet s = oneOf(1.to(10^80))
    nondet kind = oneOf(0.to(5))
    nondet taper = oneOf(Set(true, false, true))
    nondet tilde = oneOf(Set(true, false))
    val m = look.call.model
    val c = ses::drawCall(m, if (m == "P") "pol" else "h", "jit", tilde, taper, qs, ss, ls, es, fs, 1, r)
    val ms = toMasses(c.b.mc, c.b.eta)
    val t = if (c.tilde) lambdas(c.b.l1, c.b.l2, ms._1, ms._2) else (c.b.l1, c.b.l2)
    val e = edgesOf(m, ms._1, ms._2, c.b.s1, c.b.s2, t._1, t._2, c.taper)
    all {
      look' = { call: c, scan: scanOf(mul(ms._1 + ms._2, MTSUN), e.cut, kind, s), inner: e.inner, cut: e.cut },
      act' = "Look",
    }
  }
}
