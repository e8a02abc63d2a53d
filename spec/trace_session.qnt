/// Accepts a recorded session of the real library exactly when it is a behaviour of the
/// session machine (session.qnt) whose observations obey the laws (law.qnt).
module trace_session {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import law.* from "./law"
  import trace_data.* from "./trace_data"

  // action codes, as recorded
  pure val A_NEW = 0   pure val A_DIST = 1  pure val A_TC = 2   pure val A_PHIC = 3  pure val A_IOTA = 4
  pure val A_FN = 5    pure val A_FREF = 6  pure val A_SCALE = 7 pure val A_SWAP = 8 pure val A_MODE = 9
  pure val A_GRID = 10 pure val A_DENSE = 11 pure val A_INTER = 12

  pure def clauseOf(a: int): str =
    if (a == A_DIST) "distance" else if (a == A_TC) "coalescence-time" else if (a == A_PHIC) "coalescence-phase"
    else if (a == A_IOTA) "inclination" else if (a == A_FN) "polarizations" else if (a == A_FREF) "reference-frequency"
    else if (a == A_SCALE) "total-mass-scaling" else if (a == A_SWAP) "body-exchange" else if (a == A_MODE) "evaluation-mode"
    else if (a == A_GRID) "frequency-grid" else if (a == A_DENSE) "dense-grid" else if (a == A_INTER) "history" else "new"

  pure def feq(a: int, b: int): bool = abs(a - b) <= mul(imax(abs(a), abs(b)), d(1, 14))
  pure def feq3(a: (int, int, int), b: (int, int, int)): bool = a._1 == b._1 and a._2 == b._2 and a._3 == b._3

  /// the recorded request is the one the session machine reaches from the previous request p by its action
  pure def stepOk(e: Ev, p: Ev): bool = {
    val a = e.act
    and {
      e.sid == p.sid,
      e.model == p.model,
      feq(e.eta, p.eta),
      e.tilde == p.tilde,
      e.taper == p.taper,
      a == A_SCALE or feq(e.mc, p.mc),
      a == A_DIST or a == A_SCALE or feq(e.dist, p.dist),
      a == A_TC or a == A_SCALE or feq(e.tc, p.tc),
      a == A_PHIC or e.phic == p.phic,
      a == A_IOTA or e.iota == p.iota,
      a == A_FREF or a == A_SCALE or feq(e.fref, p.fref),
      if (a == A_SWAP) and { feq3(e.s1, p.s2), feq3(e.s2, p.s1), feq(4 * e.eta, S),
          if (e.tilde) and { e.l1 == p.l1, feq(e.l2, 0 - p.l2) } else and { e.l1 == p.l2, e.l2 == p.l1 } }
        else and { feq3(e.s1, p.s1), feq3(e.s2, p.s2), e.l1 == p.l1, e.l2 == p.l2 },
      a != A_SCALE or { val s = div(e.mc, p.mc) and { feq(e.dist, mul(p.dist, s)), feq(mul(e.fref, s), p.fref), abs(e.tc - mul(p.tc, s)) <= mul(abs(e.tc), d(1, 14)) } },
    }
  }

  // ------------------------------------------------------------------ the monitor
  var l: int                   // events consumed
  var base: int                // first event of the current session
  var bad: List[Bad]
  var points: int              // compared strain values
  var seen: List[int]          // events per action

  action init = all { l' = 0, base' = 0, bad' = [], points' = 0, seen' = range(0, 13).foldl([], (a, _k) => a.append(0)) }
  action step = all {
    l < EVENTS.length(),
    val e = decode(EVENTS[l])
    val p = decode(EVENTS[imax(0, l - 1)])
    val b = decode(EVENTS[base])
    val tol = imax(tolOf(e.eta), TOL)
    val verdict =
      if (e.act == A_NEW) (if (0.to(e.nf - 1).forall(k => finiteAt(e, k))) [] else [{ ev: l, k: -1, clause: "non-finite", got: 0, limit: 0 }])
      else if (not(stepOk(e, p)) or not(gridOk(e, b))) [{ ev: l, k: -1, clause: "not-a-session-step", got: 0, limit: 0 }]
      else if (e.flags != 0) [{ ev: l, k: -1, clause: "argument-modified", got: 0, limit: 0 }]
      else judgeLaw(e, b, l, tol, clauseOf(e.act))
    all {
      l' = l + 1,
      base' = if (e.act == A_NEW) l else base,
      bad' = bad.concat(verdict).concat(judgePhase(e, l, tol)),
      points' = points + (if (e.act == A_NEW) 0 else e.nf),
      seen' = seen.replaceAt(e.act, seen[e.act] + 1),
    }
  }
}
