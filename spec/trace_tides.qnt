/// Accepts recorded sweeps through the tidal building blocks exactly when every value is the specified
/// one and the sweeps are monotone, joined and bounded as the property says.
/// Event: kind, sid, lam, m1, m2, l1, l2, x, y, out1, out2
module trace_tides {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import nrtidal.* from "./nrtidal"
  import trace_data.* from "./trace_data"

  pure val HUGE = 3 * 10^59
  type Bad = { ev: int, k: int, clause: str, got: int, limit: int }
  pure def chk(n: int, c: str, got: int, want: int, lim: int): List[Bad] =
    if (abs(got) < HUGE and abs(got - want) <= lim) [] else [{ ev: n, k: 0, clause: c, got: if (abs(got) < HUGE) abs(got - want) else S, limit: lim }]
  pure def must(n: int, c: str, ok: bool, got: int): List[Bad] = if (ok) [] else [{ ev: n, k: 0, clause: c, got: got, limit: 0 }]

  /// derivative of the quadrupole and octupole parameters, by a central difference on one side of the joint
  pure def dquad(lam: int): (int, int) = {
    val h = d(1, 15)
    val c = if (lam < S) imax(imin(lam, S - 2 * h), 0) else imax(lam, S + 2 * h)
    val a = quadOct(if (c < h) 0 else c - h)
    val b = quadOct(if (c < h) 2 * h else c + h)
    (div(b._1 - a._1, 2 * h), div(b._2 - a._2, 2 * h))
  }
  pure def dplanck(x: int, y: int): int = {
    val h = mul(x, d(1, 15))
    div(planck(x + h, y) - planck(x - h, y), 2 * h)
  }

  pure def judge(e: List[int], p: List[int], n: int): List[Bad] = {
    val kind = e[0]
    val o1 = e[9]
    val o2 = e[10]
    // previous point of the same sweep
    val cont = n > 0 and p[1] == e[1]
    if (kind == 0) {
      val w = quadOct(e[2])
      chk(n, "quadparam", o1, w._1, mul(w._1, d(1, 12))).concat(chk(n, "octparam", o2, w._2, mul(w._2, d(1, 12))))
        .concat(must(n, "quadparam-zero", e[2] != 0 or o1 == S, o1))
        .concat(must(n, "never-decrease", not(cont) or e[2] < p[2] or and { o1 >= p[9] - mul(p[9], d(1, 13)), o2 >= p[10] - mul(p[10], d(1, 13)) }, o1 - p[9]))
    } else if (kind == 1) { val w = kappaEff(e[3], e[4], e[5], e[6]) chk(n, "kappa", o1, w, mul(w, d(1, 13)) + 10) }
    else if (kind == 2 or kind == 6) {
      val w = mergerFreq(e[3], e[4], kappaEff(e[3], e[4], e[5], e[6]))
      chk(n, "merger-frequency", o1, w, mul(w, d(1, 13)))
        .concat(must(n, "merger-decreases", not(cont) or kind == 6 or o1 <= p[9] + mul(p[9], d(1, 13)), o1 - p[9]))
        .concat(must(n, "merger-scales", not(cont) or kind == 2 or abs(mul(o1, e[3]) - mul(p[9], p[3])) <= mul(mul(o1, e[3]), d(1, 12)), 0))
    } else if (kind == 3) {
      val x = e[7]
      val y = e[8]
      val w = planck(x, y)
      // the exponent is ill-conditioned close to either end: rounding of x and y moves it by eps (y / distance)^2
      val dd = imax(imin(abs(x - y), abs(x - (12 * y) / 10)), mul(y, d(1, 15)))
      val z = mul(d(2, 15), mul(div(y, dd), div(y, dd)))
      val tol = imin(d(1, 6), mul(z, mul(w, S - w) + d(1, 12))) + d(1, 14)
      chk(n, "taper", o1, w, tol)
        .concat(must(n, "taper-start", x >= y or o1 == S, o1))
        .concat(must(n, "taper-end", 10 * x < 12 * y + mul(y, d(1, 14)) or o1 == 0, o1))
        .concat(must(n, "taper-range", o1 >= 0 and o1 <= S, o1))
        .concat(must(n, "taper-monotone", not(cont) or x < p[7] or o1 <= p[9] + d(1, 13), o1 - p[9]))
    } else if (kind == 4) {
      val w = dquad(e[2])
      chk(n, "quadparam-derivative", o1, w._1, mul(abs(w._1), d(1, 8)) + d(1, 11)).concat(chk(n, "octparam-derivative", o2, w._2, mul(abs(w._2), d(1, 8)) + d(1, 11)))
    } else if (kind == 5) {
      val x = e[7]
      val y = e[8]
      // too close to an end for the exponent to be representable: the derivative is 0 to all digits there
      val dd = imin(abs(x - y), abs(x - (12 * y) / 10))
      val w = if (dd < mul(y, d(1, 4))) 0 else dplanck(x, y)
      chk(n, "taper-derivative", mul(o1, x), mul(w, x), mul(abs(mul(w, x)), d(1, 6)) + d(1, 9))
    } else []
  }

  var l: int
  var bad: List[Bad]
  var points: int
  var seen: List[int]
  action init = all { l' = 0, bad' = [], points' = 0, seen' = [0, 0, 0, 0, 0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = EVENTS[l]
    all {
      l' = l + 1,
      bad' = bad.concat(judge(e, EVENTS[imax(0, l - 1)], l)),
      points' = points + 1,
      seen' = seen.replaceAt(e[0], seen[e[0]] + 1),
    }
  }
}
