/// Every waveform recorded in single precision is the one the specification defines for the very
/// same (single-precision) arguments, up to a small multiple of single-precision rounding of the
/// terms its phase is made of; and it has the type of the precision that was selected.
module trace_single {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import law.* from "./law"
  import phenomd.* from "./phenomd"
  import phenomx as px from "./phenomx"
  import nrtidal.* from "./nrtidal"
  import phenompv2.* from "./phenompv2"
  import waves.* from "./waves"
  import trace_data.* from "./trace_data"

  /// unit roundoff of single precision
  pure val EPS = S / 2^24
  /// rounding errors of the phase allowed per unit of the terms it is made of (the library makes up to 17)
  pure val KPHASE = 100
  /// in the ringdown the amplitude falls exponentially, at a rate that depends strongly on the remnant's spin
  pure def kAt(e: Ev, k: int): int = {
    val m = toMasses(e.mc, e.eta)
    if (e.model != M_T and mul3(e.f[k], m._1 + m._2, MTSUN) > d(7, 2)) 20 * KPHASE else KPHASE
  }

  /// the cutoff is decided only to single precision, and so are deformabilities close to 0 or to the joint of the
  /// universal relation at 1 when they are given through their combinations
  pure def decided(e: Ev, k: int): bool = {
    val m = toMasses(e.mc, e.eta)
    val x = mul3(e.f[k], m._1 + m._2, MTSUN)
    val cut = if (e.model == M_X) px::X_CUT else MF_CUT
    val t = if (e.tilde) lambdas(e.l1, e.l2, m._1, m._2) else (i(5), i(5))
    and { e.model == M_T or abs(x - cut) > mul(cut, d(1, 5)), imin(t._1, t._2) > imax(2 * S, imax(t._1, t._2) / 100) }
  }
  /// the taper is one minus something close to one: its tail is accurate relative to what it tapers
  pure def size_(e: Ev, k: int, w: W2): int =
    if (e.model != M_N or not(e.taper)) norm2(w) else {
      val m = toMasses(e.mc, e.eta)
      val t = if (e.tilde) lambdas(e.l1, e.l2, m._1, m._2) else (e.l1, e.l2)
      imax(norm2(w), abs(ampNR(prepareNR(m._1, m._2, e.s1._3, e.s2._3, t._1, t._2, false), e.f[k], e.dist)))
    }
  pure def judge(e: Ev, n: int): { bad: List[Bad], seen: List[int] } = {
    val w = wave(e)
    val bad = range(0, e.nf).foldl([], (l, k) => {
      if (not(finiteAt(e, k))) l.append({ ev: n, k: k, clause: "non-finite", got: 0, limit: 0 })
      else if (not(decided(e, k))) l
      else {
        val a = size_(e, k, w[k])
        val err = norm2((csub(obsA(e, k), w[k]._1), csub(obsB(e, k), w[k]._2)))
        val rel = mul(EPS, kAt(e, k) * phaseScale(e, e.f[k]))
        if (err <= mul(a, rel) + 10^10) l
        else l.append({ ev: n, k: k, clause: "single-precision", got: div(div(err, a), mul(EPS, phaseScale(e, e.f[k]))), limit: rel })
      }
    })
    { bad: if (e.flags == 0) bad else bad.append({ ev: n, k: -1, clause: "precision-of-the-result", got: i(e.flags), limit: 0 }),
      seen: range(0, 5).foldl([], (a, k) => a.append(if (e.model == k + 1) e.nf else 0)) }
  }

  var l: int
  var bad: List[Bad]
  var points: int
  var seen: List[int]
  action init = all { l' = 0, bad' = [], points' = 0, seen' = [0, 0, 0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = decode(EVENTS[l])
    val j = judge(e, l)
    all {
      l' = l + 1,
      bad' = bad.concat(j.bad),
      points' = points + e.nf,
      seen' = range(0, 5).foldl([], (a, k) => a.append(seen[k] + j.seen[k])),
    }
  }
}
