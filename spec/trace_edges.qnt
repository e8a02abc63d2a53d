/// Accepts a recorded look at the seams exactly when the strain is finite everywhere, zero above
/// and non-zero below the cutoff, and continuous with continuous slope at every region boundary.
/// Needs no reference waveform: only where the boundaries are.
module trace_edges {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import law.* from "./law"
  import edges_def.* from "./edges_def"
  import phenomd as pd from "./phenomd"
  import trace_data.* from "./trace_data"

  pure val NSCAN = 60
  pure def nameOf(m: int): str = if (m == M_D) "D" else if (m == M_X) "X" else if (m == M_N) "N" else "P"

  pure def norm(e: Ev, k: int): int = imax(cabs(obsA(e, k)), cabs(obsB(e, k)))
  pure def zero(e: Ev, k: int): bool = obsA(e, k) == (0, 0) and obsB(e, k) == (0, 0)
  /// on which side of the cutoff: 1 above, -1 below, 0 undecided
  pure def side(f: int, cut: int): int = if (onEdge(f, cut)) 0 else if (f > cut) 1 else -1

  /// is the strain allowed to be zero (or tiny) here?  Inside the taper it fades to nothing
  pure def fading(e: Ev, g: Edges, f: int): bool = e.model == M_N and (not(e.taper) or f > g.inner[2])

  pure def judgePoint(e: Ev, g: Edges, k: int, n: int): List[Bad] = {
    val s = side(e.f[k], g.cut)
    if (not(finiteAt(e, k))) [{ ev: n, k: k, clause: "non-finite", got: e.f[k], limit: 0 }]
    // without the taper the tidal amplitude continues above the cutoff of the point-particle model
    else if (s > 0 and not(zero(e, k)) and (e.model != M_N or e.taper)) [{ ev: n, k: k, clause: "non-zero-above-cutoff", got: norm(e, k), limit: 0 }]
    else if (s < 0 and zero(e, k) and not(fading(e, g, e.f[k]))) [{ ev: n, k: k, clause: "zero-below-cutoff", got: e.f[k], limit: g.cut }]
    else []
  }

  /// value at fb extrapolated through three points (and its slope), Lagrange form, in units of the window width
  pure def lag(x: List[int]): List[(int, int)] =
    range(0, 3).foldl([], (l, i0) => {
      val a = x[(i0 + 1) % 3]
      val b = x[(i0 + 2) % 3]
      val den = mul(x[i0] - a, x[i0] - b)
      l.append((div(mul(a, b), den), div(0 - a - b, den)))
    })
  pure def comb(w: List[(int, int)], h: List[(int, int)]): ((int, int), (int, int)) =
    range(0, 3).foldl(((0, 0), (0, 0)), (acc, k) => (cadd(acc._1, cscale(w[k]._1, h[k])), cadd(acc._2, cscale(w[k]._2, h[k]))))

  /// jump and kink between the two sides of one window starting at grid position k0, in units of the window
  /// (the slope of the phase is taken out first)
  pure def seam(e: Ev, fb: int, delta: int, k0: int, slope: int, scale: int, second: bool): (int, int) = {
    pure def x(k: int): int = div(e.f[k0 + k] - fb, mul(fb, delta))
    pure def h(k: int): (int, int) = {
      val o = if (second) obsB(e, k0 + k) else obsA(e, k0 + k)
      cmul(((o._1 * S) / scale, (o._2 * S) / scale), cis(0 - mul(slope, e.f[k0 + k] - fb)))
    }
    val L = comb(lag([x(0), x(1), x(2)]), [h(0), h(1), h(2)])
    val R = comb(lag([x(3), x(4), x(5)]), [h(3), h(4), h(5)])
    (cabs(csub(R._1, L._1)), cabs(csub(R._2, L._2)))
  }
  /// For a smooth function both shrink with the cube of the window; a jump does not shrink, a kink only linearly.
  /// The widest window is 100 times the narrowest.
  pure def judgeSeam(e: Ev, fb: int, k0: int, slope: int, scale: int, second: bool, n: int): List[Bad] = {
    val wide = seam(e, fb, DELTAS[0], k0, slope, scale, second)
    val mid = seam(e, fb, DELTAS[1], k0 + 6, slope, scale, second)
    val thin = seam(e, fb, DELTAS[2], k0 + 12, slope, scale, second)
    // rounding of the time of coalescence's phase
    val floor = d(1, 9) + mul(mul3(TWO_PI, fb, abs(e.tc)) + 2 * abs(e.phic), d(4, 15))
    [(mid, d(1, 2)), (thin, d(1, 3))].foldl([], (l, q) => {
      val l0 = floor + wide._1 / 20
      val l1 = 3 * floor + mul(wide._2, q._2)
      l.concat(if (q._1._1 <= l0) [] else [{ ev: n, k: k0, clause: "jump", got: q._1._1, limit: l0 }])
       .concat(if (q._1._2 <= l1) [] else [{ ev: n, k: k0, clause: "kink", got: q._1._2, limit: l1 }])
    })
  }

  /// phase slope (radians per Hz) between two close grid positions, beyond that of the time of coalescence
  pure def slopeAt(e: Ev, k: int): int = {
    val o = if (cabs(obsA(e, k)) >= cabs(obsB(e, k))) (obsA(e, k), obsA(e, k + 1)) else (obsB(e, k), obsB(e, k + 1))
    val df = e.f[k + 1] - e.f[k]
    val tcs = 0 - mul(TWO_PI, e.tc)
    val a = o._1
    val b = cmul(o._2, cis(0 - mul(tcs, df)))
    tcs + div(atan2((b._2 * a._1 - b._1 * a._2) / 10^20, (b._1 * a._1 + b._2 * a._2) / 10^20), df)
  }

  pure def judge(e: Ev, n: int): { bad: List[Bad], seen: List[int] } = {
    val m = toMasses(e.mc, e.eta)
    val t = if (e.tilde) lambdas(e.l1, e.l2, m._1, m._2) else (e.l1, e.l2)
    val g = edgesOf(nameOf(e.model), m._1, m._2, e.s1, e.s2, t._1, t._2, e.taper)
    val Ms = mul(m._1 + m._2, MTSUN)
    val per = NULP + NW
    val pts = range(0, e.nf).foldl([], (l, k) => l.concat(judgePoint(e, g, k, n)))
    val seams = range(0, 4).foldl([], (l, j) => {
      val fb = g.inner[j]
      val k0 = NSCAN + j * per
      val kw = k0 + NULP
      val scale = imax(norm(e, k0), if (e.model == M_P) mul3(pd::leadingAmp(e.eta, mul(fb, Ms)), pd::scaleAmp(Ms, e.dist), S) else 0)
      // boundaries beyond the cutoff, or close to another one, are not looked at
      if (onEdge(e.f[k0 + 11], fb) and fb < mul(g.cut, d(99, 2)) and scale > 10^20 and
          0.to(3).forall(q => q == j or abs(g.inner[q] - fb) > mul(fb, d(1, 2)))) {
        val slope = slopeAt(e, kw + 12)
        // what the slope of the phase moves between doubles that far apart
        val near = d(1, 8) + mul(mul3(TWO_PI, fb, abs(e.tc)) + i(10000), d(3, 12))
        val ulps = range(0, NULP).foldl([], (a, q) =>
          if (imax(cabs(csub(obsA(e, k0 + q), obsA(e, k0 + 11))), cabs(csub(obsB(e, k0 + q), obsB(e, k0 + 11)))) <= mul(scale, near)) a
          else a.append({ ev: n, k: k0 + q, clause: "jump-between-neighbours", got: norm(e, k0 + q), limit: norm(e, k0 + 11) }))
        val win = judgeSeam(e, fb, kw, slope, scale, false, n).concat(if (isPol(e)) judgeSeam(e, fb, kw, slope, scale, true, n) else [])
        l.concat(ulps).concat(win)
      } else l
    })
    { bad: if (g.defined) pts.concat(seams) else pts,
      seen: [range(0, NSCAN).foldl(0, (a, k) => if (side(e.f[k], g.cut) < 0) a + 1 else a),
             range(0, NSCAN).foldl(0, (a, k) => if (side(e.f[k], g.cut) > 0) a + 1 else a),
             range(0, 4).foldl(0, (a, j) => if (onEdge(e.f[NSCAN + j * per + 11], g.inner[j]) and g.inner[j] < g.cut) a + 1 else a),
             if (g.defined) 0 else 1] }
  }

  var l: int
  var bad: List[Bad]
  var points: int
  var seen: List[int]
  action init = all { l' = 0, bad' = [], points' = 0, seen' = [0, 0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = decode(EVENTS[l])
    val j = judge(e, l)
    all {
      l' = l + 1,
      bad' = bad.concat(j.bad),
      points' = points + e.nf,
      seen' = range(0, 4).foldl([], (a, k) => a.append(seen[k] + j.seen[k])),
    }
  }
}
