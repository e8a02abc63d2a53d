/// Accepts a recorded session of the precessing model exactly when turning and mirroring the binary does to the
/// polarizations what the geometry says: nothing but one constant phase, and the sign of the cross polarization.
module trace_turns {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import law.* from "./law"
  import trace_data.* from "./trace_data"

  pure val A_NEW = 0   pure val A_TURN = 15   pure val A_HALF = 16   pure val A_FULL = 17   pure val A_MIRROR = 18
  pure def clauseOf(a: int): str =
    if (a == A_TURN) "turned-about-orbital-axis" else if (a == A_HALF) "same-line-of-sight" else if (a == A_FULL) "full-turn-of-inclination" else "mirror-image"
  pure def closeTo(a: int, b: int): bool = abs(a - b) <= d(1, 13)
  pure def turned(v: (int, int, int), w: (int, int, int), c: (int, int)): bool =
    closeTo(w._1, mul(v._1, c._1) - mul(v._2, c._2)) and closeTo(w._2, mul(v._1, c._2) + mul(v._2, c._1)) and v._3 == w._3

  pure def stepOk(e: Ev, p: Ev): bool = and {
    e.sid == p.sid, e.model == p.model, e.fn == p.fn, e.mc == p.mc, e.eta == p.eta, e.dist == p.dist, e.tc == p.tc, e.fref == p.fref, e.nf == p.nf,
    if (e.act == A_TURN) and { e.iota == p.iota, turned(p.s1, e.s1, cis(p.phic - e.phic)), turned(p.s2, e.s2, cis(p.phic - e.phic)) }
    else if (e.act == A_HALF) and { closeTo(e.iota, 0 - p.iota), closeTo(abs(e.phic - p.phic), PI), turned(p.s1, e.s1, (S, 0)), turned(p.s2, e.s2, (S, 0)) }
    else if (e.act == A_FULL) and { e.phic == p.phic, closeTo(abs(e.iota - p.iota), TWO_PI), turned(p.s1, e.s1, (S, 0)), turned(p.s2, e.s2, (S, 0)) }
    else and { e.act == A_MIRROR, e.phic == p.phic, closeTo(e.iota + p.iota, PI), turned(p.s1, e.s1, (-S, 0)), turned(p.s2, e.s2, (-S, 0)) }
  }
  /// observation of e from the first observation b of the session, sign of the cross polarization s
  pure def judgeTurn(e: Ev, b: Ev, s: int, n: int, tol: int): List[Bad] =
    range(0, e.nf).foldl([], (l, k) =>
      if (not(finiteAt(e, k) and finiteAt(b, k))) l.append({ ev: n, k: k, clause: "non-finite", got: 0, limit: 0 })
      else {
        val w = cis(2 * (e.phic - b.phic))
        val sc = imax(cabs(obsA(b, k)), cabs(obsB(b, k)))
        val err = imax(cabs(csub(obsA(e, k), cmul(w, obsA(b, k)))), cabs(csub(obsB(e, k), cscale(s * S, cmul(w, obsB(b, k))))))
        if (err <= mul(sc, tol) + 10^12) l
        else l.append({ ev: n, k: k, clause: clauseOf(e.act), got: if (sc == 0) S else (err * S) / sc, limit: tol })
      })

  var l: int
  var base: int
  var parity: int
  var bad: List[Bad]
  var points: int
  var seen: List[int]
  action init = all { l' = 0, base' = 0, parity' = 1, bad' = [], points' = 0, seen' = [0, 0, 0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = decode(EVENTS[l])
    val p = decode(EVENTS[imax(0, l - 1)])
    val b = decode(EVENTS[base])
    val s = if (e.act == A_NEW) 1 else if (e.act == A_MIRROR) 0 - parity else parity
    val slot = if (e.act == A_NEW) 0 else e.act - A_TURN + 1
    val verdict =
      if (e.act == A_NEW) []
      else if (not(stepOk(e, p))) [{ ev: l, k: -1, clause: "not-a-session-step", got: 0, limit: 0 }]
      else if (e.flags != 0) [{ ev: l, k: -1, clause: "argument-modified", got: 0, limit: 0 }]
      else judgeTurn(e, b, s, l, tolOf(e.eta))
    all { l' = l + 1, base' = if (e.act == A_NEW) l else base, parity' = s, bad' = bad.concat(verdict),
          points' = points + e.nf, seen' = seen.replaceAt(slot, seen[slot] + 1) }
  }
}
