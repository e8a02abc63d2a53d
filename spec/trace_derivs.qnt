/// Every recorded automatic derivative is the derivative of the waveform the specification defines,
/// taken by central differences of step 10^-12 in its 50-digit arithmetic.
module trace_derivs {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import law.* from "./law"
  import phenomd.* from "./phenomd"
  import phenomx.* from "./phenomx"
  import taylorf2.* from "./taylorf2"
  import nrtidal.* from "./nrtidal"
  import phenompv2.* from "./phenompv2"
  import waves.* from "./waves"
  import trace_data.* from "./trace_data"

  pure def nParams(e: Ev): int = (if (e.model == M_P) 12 else if (e.model == M_T or e.model == M_N) 9 else 7) + (if (isPol(e) and e.model != M_P) 1 else 0) + 1
  /// parameter number j of the call moved by h (the last one is the frequency)
  pure def move(e: Ev, j: int, h: int): Ev = {
    val tid = e.model == M_T or e.model == M_N
    pure def ext(q: int): Ev =
      if (q == 0) e.with("dist", e.dist + h) else if (q == 1) e.with("tc", e.tc + h) else if (q == 2) e.with("phic", e.phic + h)
      else e.with("iota", e.iota + h)
    if (j == nParams(e) - 1) e.with("f", e.f.foldl([], (l, x) => l.append(x + h)))
    else if (e.model == M_P) {
      if (j == 0) (if (e.fn == FN_MASS) e.with("m1", e.m1 + h) else e.with("mc", e.mc + h))
      else if (j == 1) (if (e.fn == FN_MASS) e.with("m2", e.m2 + h) else e.with("eta", e.eta + h))
      else if (j == 2) e.with("s1", (e.s1._1 + h, e.s1._2, e.s1._3)) else if (j == 3) e.with("s1", (e.s1._1, e.s1._2 + h, e.s1._3))
      else if (j == 4) e.with("s1", (e.s1._1, e.s1._2, e.s1._3 + h)) else if (j == 5) e.with("s2", (e.s2._1 + h, e.s2._2, e.s2._3))
      else if (j == 6) e.with("s2", (e.s2._1, e.s2._2 + h, e.s2._3)) else if (j == 7) e.with("s2", (e.s2._1, e.s2._2, e.s2._3 + h))
      else ext(j - 8)
    }
    else if (j == 0) e.with("mc", e.mc + h) else if (j == 1) e.with("eta", e.eta + h)
    else if (j == 2) e.with("s1", (0, 0, e.s1._3 + h)) else if (j == 3) e.with("s2", (0, 0, e.s2._3 + h))
    else if (tid and j == 4) e.with("l1", e.l1 + h) else if (tid and j == 5) e.with("l2", e.l2 + h)
    else ext(j - (if (tid) 6 else 4))
  }
  pure def size_(e: Ev, j: int): int = imax(d(1, 3), if (j == 0) e.mc else if (j == nParams(e) - 1) e.f[0] else if (j == 1) e.eta else S)

  pure def obsD(e: Ev, j: int, k: int): W2 = {
    val c = if (isPol(e)) 4 else 2
    val o = (j * e.nf + k) * c
    ((e.obs[o], e.obs[o + 1]), if (isPol(e)) (e.obs[o + 2], e.obs[o + 3]) else (0, 0))
  }

  /// where a derivative of the waveform is asked about at all
  pure def planar(s: (int, int, int)): int = isqrt(s._1 * s._1 + s._2 * s._2)
  pure def interior(e: Ev): bool = e.model != M_P or (planar(e.s1) > d(1, 6) and planar(e.s2) > d(1, 6))
  /// where double precision decides it: unequal masses, deformabilities off the joint of the universal relation at 1,
  /// in-plane spins that are not tiny, remnants away from extremality
  pure def decided(e: Ev): bool = {
    val m = toMasses(e.mc, e.eta)
    val t = if (e.tilde) lambdas(e.l1, e.l2, m._1, m._2) else (e.l1, e.l2)
    and {
      deltaOf(e.eta) > d(3, 2),
      abs(t._1 - S) > d(1, 6) and abs(t._2 - S) > d(1, 6),
      e.model != M_P or and {
        imin(planar(e.s1), planar(e.s2)) > d(1, 4),
        abs(finalSpinP(m._1, m._2, e.s1._3, e.s2._3, chiP(m._1, m._2, planar(e.s1), planar(e.s2)))) < d(99, 2),
      },
    }
  }
  /// at the cutoff itself the strain has no derivative
  pure def edge(e: Ev, k: int): bool = {
    val m = toMasses(e.mc, e.eta)
    val x = mul3(e.f[k], m._1 + m._2, MTSUN)
    val c = if (e.model == M_X) X_CUT else MF_CUT
    e.model != M_T and abs(x - c) <= d(1, 9)
  }

  pure def judge(e: Ev, n: int): { bad: List[Bad], seen: List[int] } = {
    val np = nParams(e)
    val tol = d(1, 5)
    val w0 = wave(e)
    val bad = range(0, np).foldl([], (l, j) => {
      val h = mul(size_(e, j), d(1, 12))
      val hi = wave(move(e, j, h))
      val lo = wave(move(e, j, -h))
      val dw = range(0, e.nf).foldl([], (a, k) => a.append((cscale(div(S, 2 * h), csub(hi[k]._1, lo[k]._1)), cscale(div(S, 2 * h), csub(hi[k]._2, lo[k]._2)))))
      // relative derivative: largest over the grid
      val rel = range(0, e.nf).foldl(0, (m, k) => if (norm2(w0[k]) < 10^20) m else imax(m, (norm2(dw[k]) * S) / norm2(w0[k])))
      range(0, e.nf).foldl(l, (a, k) => {
        val o = obsD(e, j, k)
        if (edge(e, k) or not(interior(e))) a
        else if (not(finite(o._1._1) and finite(o._1._2) and finite(o._2._1) and finite(o._2._2))) a.append({ ev: n, k: 100 * j + k, clause: "non-finite-derivative", got: 0, limit: 0 })
        else {
          val err = norm2((csub(o._1, dw[k]._1), csub(o._2, dw[k]._2)))
          val lim = mul(norm2(dw[k]) + mul(norm2(w0[k]), rel), tol) + div(10^14, S)
          if (err <= lim or not(decided(e))) a else a.append({ ev: n, k: 100 * j + k, clause: "derivative", got: (err * S) / imax(1, norm2(dw[k]) + mul(norm2(w0[k]), rel)), limit: tol })
        }
      })
    })
    { bad: bad, seen: range(0, 5).foldl([], (a, k) => a.append(if (e.model == k + 1) np * e.nf else 0)) }
  }

  var l: int
  var bad: List[Bad]
  var points: int
  var seen: List[int]
  action init = all { l' = 0, bad' = [], points' = 0, seen' = [0, 0, 0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = decode(EVENTS[l])
    val j = judge(e, l)
    all {
      l' = l + 1,
      bad' = bad.concat(j.bad),
      points' = points + e.nf * nParams(e),
      seen' = range(0, 5).foldl([], (a, k) => a.append(seen[k] + j.seen[k])),
    }
  }
}
