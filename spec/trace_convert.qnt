/// Accepts a recorded history of conversions exactly when every answer of the library is the
/// conversion of what it was given and the binary never changes along the history.
/// Event: act, sid, mode, k, in1, in2, in3, in4, out1, out2
///   mass conversions: in = (x, y, chi1, chi2); tidal: in = (u, v, m1, m2)
module trace_convert {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import convert_sys.* from "./convert_sys"
  import trace_data.* from "./trace_data"

  pure val HUGE = 3 * 10^59
  type Bad = { ev: int, k: int, clause: str, got: int, limit: int }
  /// rounding of eta acts on masses through sqrt(1 - 4 eta)
  pure def tolEta(eta: int): int = d(2, 13) + imin(d(2, 7), div(d(1, 14), imax(deltaOf(eta), d(1, 20))))
  pure def nameOf(a: int): str =
    if (a == A_TOMCETA) "ms_to_Mc_eta" else if (a == A_TOMS) "Mc_eta_to_ms" else if (a == A_CHIEFF) "get_chi_eff"
    else if (a == A_ISCO) "get_f_isco" else if (a == A_TILDE) "lambdas_to_lambda_tildes" else if (a == A_TILDEQ) "lambdas_to_lambda_tildes_from_q"
    else if (a == A_BACK) "lambda_tildes_to_lambdas" else if (a == A_BACKQ) "lambda_tildes_to_lambdas_from_q" else "history"

  var l: int
  var st: Sys                  // the exact system the specification has reached
  var prev: (int, int)         // last observed value of the representation under conversion
  var bad: List[Bad]
  var points: int
  var seen: List[int]

  action init = all { l' = 0, st' = { mrep: 0, x: S, y: S, trep: 0, u: 0, v: 0, c1: 0, c2: 0 }, prev' = (0, 0), bad' = [], points' = 0,
    seen' = range(0, 11).foldl([], (a, _k) => a.append(0)) }

  pure def chk(n: int, c: str, got: int, want: int, lim: int): List[Bad] =
    if (abs(got) < HUGE and abs(got - want) <= lim) [] else [{ ev: n, k: 0, clause: c, got: if (abs(got) < HUGE) abs(got - want) else S, limit: lim }]

  /// judges one event against the call's own inputs and against the exact system s reached after it
  pure def judge(e: List[int], s0: Sys, s: Sys, n: int): List[Bad] = {
    val a = e[0]
    val o1 = e[8]
    val o2 = e[9]
    val c = nameOf(a)
    if (a == A_TOMCETA) {
      val w = toMcEta(e[4], e[5])
      chk(n, c, o1, w._1, mul(w._1, d(1, 13))).concat(chk(n, c, o2, w._2, mul(w._2, d(1, 13))))
        .concat(chk(n, "history", o1, s.x, mul(s.x, d(1, 11)))).concat(chk(n, "history", o2, s.y, mul(s.y, d(1, 11)) + mul(d(1, 11), s.y)))
    } else if (a == A_TOMS) {
      val w = toMasses(e[4], e[5])
      val t = mul(tolEta(e[5]), w._1)
      chk(n, c, o1, w._1, t).concat(chk(n, c, o2, w._2, t))
        .concat(if (o1 >= o2) [] else [{ ev: n, k: 0, clause: "larger-first", got: o2 - o1, limit: 0 }])
        .concat(if (o2 > 0) [] else [{ ev: n, k: 0, clause: "positive", got: o2, limit: 0 }])
        .concat(chk(n, "history", o1, s.x, 20 * t)).concat(chk(n, "history", o2, s.y, 20 * t))
    } else if (a == A_CHIEFF) chk(n, c, o1, chiEff(e[4], e[5], e[6], e[7]), d(1, 14)).concat(chk(n, "history", o1, chiEff(s.x, s.y, s.c1, s.c2), d(1, 6)))
    else if (a == A_ISCO) { val w = fIsco(e[4]) chk(n, c, o1, w, mul(w, d(1, 13))) }
    else if (a == A_TILDE or a == A_TILDEQ) {
      val eta = etaOf(e[6], e[7])
      val w = lambdaTildesEta(e[4], e[5], eta)
      val t = mul(tolEta(eta), abs(e[4]) + abs(e[5])) + d(1, 14)
      chk(n, c, o1, w._1, t).concat(chk(n, c, o2, w._2, t))
        .concat(chk(n, "history", o1, s.u, 20 * t)).concat(chk(n, "history", o2, s.v, 20 * t))
    } else if (a == A_BACK or a == A_BACKQ) {
      val eta = etaOf(e[6], e[7])
      val w = lambdasEta(e[4], e[5], eta)
      // the combination is nearly singular in places: errors of the parameters grow with the inverse determinant
      val dl = deltaOf(eta)
      val det = mul(tA(eta), tD(eta)) - mul(sq(dl), mul(tB(eta), tC(eta)))
      val t = div(mul(20 * tolEta(eta), abs(e[4]) + abs(e[5])), imax(abs(det), d(1, 8))) + d(1, 14)
      chk(n, c, o1, w._1, t).concat(chk(n, c, o2, w._2, t))
        .concat(chk(n, "history", o1, s.u, 40 * t)).concat(chk(n, "history", o2, s.v, 40 * t))
    } else []
  }
  action step = all {
    l < EVENTS.length(),
    val e = EVENTS[l]
    val a = e[0]
    val s1 = if (a == A_NEW) { mrep: 0, x: e[8], y: e[9], trep: 0, u: e[4], v: e[5], c1: e[6], c2: e[7] } else apply(st, a, e[3])
    // the library is always given what it returned last
    val follows = a == A_NEW or a == A_UNIT or a == A_SWAP or (e[4] == prev._1 and e[5] == prev._2)
    all {
      l' = l + 1,
      st' = s1,
      prev' = if (a == A_NEW) (if (TOL == 1) (e[4], e[5]) else (e[8], e[9])) else if (a == A_CHIEFF or a == A_ISCO) prev else (e[8], e[9]),
      bad' = bad.concat(if (not(follows)) [{ ev: l, k: 0, clause: "not-a-history", got: 0, limit: 0 }] else judge(e, st, s1, l)),
      points' = points + (if (a == A_NEW) 0 else 1),
      seen' = seen.replaceAt(a, seen[a] + 1),
    }
  }
}
