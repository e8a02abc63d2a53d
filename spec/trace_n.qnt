/// Every recorded IMRPhenomD_NRTidalv2 evaluation is the one the specification defines.
module trace_n {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import law.* from "./law"
  import phenomd.* from "./phenomd"
  import nrtidal.* from "./nrtidal"
  import trace_data.* from "./trace_data"

  /// points: before the taper, inside, after it, taper off, combined tides
  pure def judge(e: Ev, n: int): { bad: List[Bad], seen: List[int] } = {
    val m = toMasses(e.mc, e.eta)
    val t = if (e.tilde) lambdas(e.l1, e.l2, m._1, m._2) else (e.l1, e.l2)
    val w = prepareNR(m._1, m._2, e.s1._3, e.s2._3, t._1, t._2, e.taper)
    val w0 = w.with("taper", false)
    val tol = imax(TOL, tolOf(e.eta)) + ringTolD(m._1, m._2, e.s1._3, e.s2._3)
    val refs = range(0, e.nf).foldl([], (r, k) => {
      val x = mul(e.f[k], w.d.Ms)
      r.append(if (onEdge(x, MF_CUT)) { a: (0, 0), b: (0, 0), scale: -1 }
        else refAligned(e, strainNR(w, e.f[k], e.fref, e.dist, e.tc, e.phic), abs(ampNR(w0, e.f[k], e.dist))))
    })
    { bad: judgeWave(e, refs, n, tol, "strain"),
      seen: range(0, e.nf).foldl([0, 0, 0, 0, 0], (s, k) => {
        val r = if (e.tilde) 4 else if (not(e.taper)) 3 else if (10 * e.f[k] >= 12 * w.fm) 2 else if (e.f[k] > w.fm) 1 else 0
        s.replaceAt(r, s[r] + 1)
      }) }
  }

  var l: int
  var bad: List[Bad]
  var points: int
  var seen: List[int]
  action init = all { l' = 0, bad' = [], points' = 0, seen' = [0, 0, 0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = decode(EVENTS[l])
    val j = judge(e, l)
    all {
      l' = l + 1,
      bad' = bad.concat(j.bad),
      points' = points + e.nf,
      seen' = range(0, 5).foldl([], (a, k) => a.append(seen[k] + j.seen[k])),
    }
  }
}
