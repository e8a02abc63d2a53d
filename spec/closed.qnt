/// The loop closed inside the specification: the user of session.qnt asks the waveforms of waves.qnt, and the monitors
/// (trace_session.qnt, trace_turns.qnt) judge the answers.  They must accept every session, and far more closely than
/// they accept the library: the models as specified obey the laws to twelve digits.
/// `wrong` replaces the specified library by one with a mistake, which the monitors must notice.
module closed {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import law.* from "./law"
  import waves.* from "./waves"
  import session.* from "./session"
  import trace_session as ts from "./trace_session"
  import trace_turns as tt from "./trace_turns"

  pure val NOEV: Ev = decode(range(0, HDR).foldl([], (l, _k) => l.append(0)))
  pure val ACTS = Map("New" -> 0, "SetDist" -> 1, "SetTc" -> 2, "SetPhic" -> 3, "SetIota" -> 4, "SetFn" -> 5, "SetFref" -> 6, "Rescale" -> 7,
    "Swap" -> 8, "SetMode" -> 9, "SetGrid" -> 10, "SetDense" -> 11, "Interlude" -> 12, "Turn" -> 15, "HalfTurn" -> 16, "FullTurn" -> 17, "Mirror" -> 18)
  pure val MODELS = Map("D" -> M_D, "X" -> M_X, "T" -> M_T, "N" -> M_N, "P" -> M_P)

  var wrong: int
  var prev: Ev
  var base: Ev
  var parity: int
  var bad: List[Bad]
  var judged: int

  /// the library of the specification, with one of the mistakes
  pure def library(e: Ev, w: int, b: Ev): List[int] = {
    val q = if (w == 1) e.with("tc", -(e.tc)) else if (w == 2) e.with("phic", e.phic / 2) else if (w == 3) e.with("dist", sq(e.dist))
      else if (w == 4 and e.act == 7) e.with("fref", b.fref) else if (w == 5) e.with("iota", abs(e.iota)) else if (w == 6) e.with("s1", (e.s1._1, abs(e.s1._2), e.s1._3))
      else if (w == 7 and e.act == 8) e.with("s2", b.s2) else if (w == 8) e.with("iota", imin(e.iota, PI / 2)) else e
    val f0 = e.f.foldl(0, (a, x) => imax(a, x))
    // a mistake that depends on the grid: the last of several frequencies is cut off
    range(0, e.nf).foldl([], (l, k) => {
      val h = wave(q.with("f", [e.f[k]]).with("nf", 1))[0]
      val z = w == 9 and e.f[k] == f0 and e.nf < 8
      val o = if (z) ((0, 0), (0, 0)) else h
      if (isPol(e)) l.concat([o._1._1, o._1._2, o._2._1, o._2._2]) else l.concat([o._1._1, o._1._2])
    })
  }
  pure def event(c: Call, a: str, s: int, w: int, first: Ev): Ev = {
    val m = toMasses(c.b.mc, c.b.eta)
    val fn = if (c.fn == "mass") FN_MASS else if (c.fn == "pol" or c.model == "P") FN_POL else FN_H
    val e: Ev = { act: ACTS.get(a), sid: s, model: MODELS.get(c.model), fn: fn, mode: 0, tilde: c.tilde, taper: c.taper, nf: c.grid.length(),
      mc: c.b.mc, eta: c.b.eta, s1: c.b.s1, s2: c.b.s2, l1: c.b.l1, l2: c.b.l2, dist: c.b.dist, tc: c.b.tc, phic: c.b.phic, iota: c.b.iota,
      fref: c.b.fref, m1: m._1, m2: m._2, idx: c.grid, f: c.grid.foldl([], (l, k) => l.append(div(c.univ[k], c.sc))), obs: [], flags: 0 }
    e.with("obs", library(e, w, first))
  }
  pure val CLOSE = d(1, 12)
  /// judge the request the machine has just reached, and remember it
  action observe(turns: bool): bool =
    if (sid == 0) all { wrong' = wrong, prev' = prev, base' = base, parity' = parity, bad' = bad, judged' = judged }
    else {
      val e = event(call, act, sid, wrong, base)
      val new = act == "New"
      val par = if (new) 1 else if (act == "Mirror") -parity else parity
      val verdict = if (new) judgePhase(e, judged, CLOSE)
        else if (turns) (if (tt::stepOk(e, prev)) tt::judgeTurn(e, base, par, judged, CLOSE) else [{ ev: judged, k: -1, clause: "not-a-session-step", got: 0, limit: 0 }])
        else if (not(ts::stepOk(e, prev)) or not(gridOk(e, base))) [{ ev: judged, k: -1, clause: "not-a-session-step", got: 0, limit: 0 }]
        else judgeLaw(e, base, judged, CLOSE, act).concat(judgePhase(e, judged, CLOSE))
      all { wrong' = wrong, prev' = e, base' = if (new) e else base, parity' = par, bad' = bad.concat(verdict), judged' = judged + 1 }
    }
  action initWith(w: int): bool = all { init, wrong' = w, prev' = NOEV, base' = NOEV, parity' = 1, bad' = [], judged' = 0 }
  action begin0 = initWith(0)
  action begin1 = initWith(1)
  action begin2 = initWith(2)
  action begin3 = initWith(3)
  action begin4 = initWith(4)
  action begin5 = initWith(5)
  action begin6 = initWith(6)
  action begin7 = initWith(7)
  action begin8 = initWith(8)
  action begin9 = initWith(9)
  action loop_C09 = all { step_C09, observe(false) }
  action loop_C10 = all { step_C10, observe(false) }
  action loop_C11 = all { step_C11, observe(false) }
  action loop_C12 = all { step_C12, observe(false) }
  action loop_C23 = all { step_C23, observe(false) }
  action loop_C24 = all { step_C24, observe(true) }
  val accepted = bad.length() == 0
}
