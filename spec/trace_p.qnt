/// Every recorded IMRPhenomPv2 evaluation is the one the specification defines.
module trace_p {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import law.* from "./law"
  import phenomd.* from "./phenomd"
  import phenompv2.* from "./phenompv2"
  import trace_data.* from "./trace_data"

  /// points per region: inspiral, intermediate, merger-ringdown, above the cutoff, undecided
  pure def judge(e: Ev, n: int): { bad: List[Bad], seen: List[int] } = {
    // called with component masses: those exact values are recorded too
    val m = if (e.fn == FN_MASS) (e.m1, e.m2) else toMasses(e.mc, e.eta)
    val eta = etaOf(m._1, m._2)
    val w = prepareP(m._1, m._2, vec(e.s1._1, e.s1._2, e.s1._3), vec(e.s2._1, e.s2._2, e.s2._3), e.fref, e.phic, e.iota)
    val af = finalSpinP(m._1, m._2, e.s1._3, e.s2._3, w.fr.chip)
    val tol = imax(TOL, tolOf(eta)) + ringTol(af)
    // beyond |a| = 1 the published model is undefined, and tabulation limits nearly extremal remnants
    pure def skip(x: int): bool = onEdge(x, MF_CUT) or abs(af) > d(999, 3)
    val refs = range(0, e.nf).foldl([], (r, k) => {
      if (skip(mul(e.f[k], w.D.Ms))) r.append({ a: (0, 0), b: (0, 0), scale: -1 })
      else { val h = strainP(w, e.f[k], e.dist, e.tc) r.append({ a: h._1, b: h._2, scale: ampP(w, e.f[k], e.dist) }) }
    })
    { bad: judgeWave(e, refs, n, tol, "polarizations"),
      seen: range(0, e.nf).foldl([0, 0, 0, 0, 0], (s, k) => {
        val x = mul(e.f[k], w.D.Ms)
        val r = if (skip(x)) 4 else if (x > MF_CUT) 3 else if (x > w.D.f2) 2 else if (x > MF_INS_PHASE) 1 else 0
        s.replaceAt(r, s[r] + 1)
      }) }
  }

  var l: int
  var bad: List[Bad]
  var points: int
  var seen: List[int]
  action init = all { l' = 0, bad' = [], points' = 0, seen' = [0, 0, 0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = decode(EVENTS[l])
    val j = judge(e, l)
    all {
      l' = l + 1,
      bad' = bad.concat(j.bad),
      points' = points + e.nf,
      seen' = range(0, 5).foldl([], (a, k) => a.append(seen[k] + j.seen[k])),
    }
  }
}
