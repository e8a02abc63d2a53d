/// Every recorded IMRPhenomXAS evaluation is the one the specification defines.
module trace_x {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import law.* from "./law"
  import phenomx.* from "./phenomx"
  import trace_data.* from "./trace_data"

  /// points per region: inspiral, intermediate, merger-ringdown, above the cutoff, undecided
  pure def judge(e: Ev, n: int): { bad: List[Bad], seen: List[int] } = {
    val m = toMasses(e.mc, e.eta)
    val w = prepareX(m._1, m._2, e.s1._3, e.s2._3)
    val tol = imax(TOL, tolOf(e.eta))
    val refs = range(0, e.nf).foldl([], (r, k) => {
      val x = mul(e.f[k], w.Ms)
      r.append(if (onEdge(x, X_CUT)) { a: (0, 0), b: (0, 0), scale: -1 }
        else refAligned(e, strainX(w, e.f[k], e.fref, e.dist, e.tc, e.phic), ampX(w, x, e.dist)))
    })
    { bad: judgeWave(e, refs, n, tol, "strain"),
      seen: range(0, e.nf).foldl([0, 0, 0, 0, 0], (s, k) => {
        val x = mul(e.f[k], w.Ms)
        val r = if (onEdge(x, X_CUT)) 4 else if (x > X_CUT) 3 else if (x > w.p2) 2 else if (x > w.p1) 1 else 0
        s.replaceAt(r, s[r] + 1)
      }) }
  }

  var l: int
  var bad: List[Bad]
  var points: int
  var seen: List[int]
  action init = all { l' = 0, bad' = [], points' = 0, seen' = [0, 0, 0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = decode(EVENTS[l])
    val j = judge(e, l)
    all {
      l' = l + 1,
      bad' = bad.concat(j.bad),
      points' = points + e.nf,
      seen' = range(0, 5).foldl([], (a, k) => a.append(seen[k] + j.seen[k])),
    }
  }
}
