/// Every recorded TaylorF2 evaluation is the one the specification defines.
module trace_t {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import law.* from "./law"
  import taylorf2.* from "./taylorf2"
  import trace_data.* from "./trace_data"

  /// points: per-body tides, combined tides, no tides, no reference frequency, unused
  pure def judge(e: Ev, n: int): { bad: List[Bad], seen: List[int] } = {
    val m = toMasses(e.mc, e.eta)
    val t = if (e.tilde) lambdas(e.l1, e.l2, m._1, m._2) else (e.l1, e.l2)
    val w = prepareTF2(m._1, m._2, e.s1._3, e.s2._3, t._1, t._2, e.dist, e.fref)
    val tol = imax(TOL, tolOf(e.eta))
    val refs = range(0, e.nf).foldl([], (r, k) => {
      val h = strainTF2(w, e.f[k], e.tc, e.phic)
      r.append(refAligned(e, h, cabs(h)))
    })
    { bad: judgeWave(e, refs, n, tol, "strain"),
      seen: [if (e.tilde) 0 else e.nf, if (e.tilde) e.nf else 0, if (e.l1 == 0 and e.l2 == 0) e.nf else 0, if (e.fref == 0) e.nf else 0, 0] }
  }

  var l: int
  var bad: List[Bad]
  var points: int
  var seen: List[int]
  action init = all { l' = 0, bad' = [], points' = 0, seen' = [0, 0, 0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = decode(EVENTS[l])
    val j = judge(e, l)
    all {
      l' = l + 1,
      bad' = bad.concat(j.bad),
      points' = points + e.nf,
      seen' = range(0, 5).foldl([], (a, k) => a.append(seen[k] + j.seen[k])),
    }
  }
}
