/// A user's session with the waveform library, as a state machine.
///
/// The state is the current request: which model and which of its functions, in which
/// evaluation mode, for which binary and which frequencies.  Actions are what a user does
/// between two evaluations: describe a new binary, move it (distance, time, phase,
/// inclination), rescale it, exchange its bodies, change the reference frequency, the
/// frequency grid, the evaluation mode, or the model.  Every reachable state is one call of
/// the real library; `quint run` enumerates behaviours, which the harness replays.
///
/// Numbers are fixed point (fx).  Frequencies are in Hz, masses in solar masses, distances in Mpc.
module session {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import phenomd.* from "./phenomd"
  import phenomx.* from "./phenomx"
  import nrtidal.* from "./nrtidal"

  type V3 = (int, int, int)
  type Binary = { mc: int, eta: int, s1: V3, s2: V3, l1: int, l2: int, dist: int, tc: int, phic: int, iota: int, fref: int }
  /// model: D, X, T (TaylorF2), N (NRTidalv2), P (Pv2); fn: h (strain) or pol (polarizations) or
  /// mass (polarizations from component masses, P only); mode: how the call is made
  type Call = { model: str, fn: str, mode: str, tilde: bool, taper: bool, b: Binary, univ: List[int], sc: int, grid: List[int], dense: int }

  // ------------------------------------------------------------------ drawing
  /// k-th uniform number in [0, 1) of the draw r
  pure def uni(r: int, k: int): int = ((r / 10^(9 * k)) % 10^9) * 10^41
  pure def lerp(lo: int, hi: int, u: int): int = lo + mul(hi - lo, u)
  pure def geo(lo: int, hi: int, u: int): int = exp(lerp(ln(lo), ln(hi), u))
  pure def pick(l: List[int], u: int): int = l[(u * l.length()) / S]
  pure def sign(u: int): int = if (u < S / 2) -1 else 1

  pure val DRAW = 10^270      // thirty uniform numbers

  type Range = { mc0: int, mc1: int, eta0: int, smax: int, lmax: int, x0: int, x1: int }
  pure def rangeOf(model: str): Range =
    if (model == "D" or model == "X") { mc0: S, mc1: i(100), eta0: d(4, 2), smax: d(99, 2), lmax: 0, x0: d(1, 4), x1: d(35, 2) }
    else if (model == "T") { mc0: d(8, 1), mc1: i(10), eta0: d(1, 1), smax: d(9, 1), lmax: i(5000), x0: 0, x1: 0 }
    else if (model == "N") { mc0: d(8, 1), mc1: i(4), eta0: d(15, 2), smax: d(7, 1), lmax: i(5000), x0: 0, x1: 0 }
    else { mc0: i(2), mc1: i(60), eta0: d(6, 2), smax: d(95, 2), lmax: 0, x0: d(1, 4), x1: d(22, 2) }

  /// mass ratio stratum: 0 equal, 1 nearly equal, 2 generic, 3 most asymmetric
  pure def drawEta(g: Range, qs: int, u: int): int =
    if (qs == 0) S / 4
    else if (qs == 1) S / 4 - div(S, powi(i(10), 4 + (u * 6) / S))
    else if (qs == 3) g.eta0
    else lerp(g.eta0, S / 4, u)

  /// aligned spin stratum: corners of the spin square, zeros, equal spins, generic
  pure def drawAligned(g: Range, ss: int, u: int, v: int): (int, int) = {
    val a = lerp(-(g.smax), g.smax, u)
    val b = lerp(-(g.smax), g.smax, v)
    if (ss == 1) (0, 0)
    else if (ss == 2) (g.smax, g.smax)
    else if (ss == 3) (-(g.smax), -(g.smax))
    else if (ss == 4) (g.smax, -(g.smax))
    else if (ss == 5) (-(g.smax), g.smax)
    else if (ss == 6) (a, 0)
    else if (ss == 7) (0, b)
    else if (ss == 8) (a, a)
    else if (ss == 9) (a, -a)
    else if (ss == 10) (mul(a, d(1, 7)), mul(b, d(1, 5)))
    else (a, b)
  }
  /// precessing spin stratum: 0,1 generic, 2 aligned, 3 purely in-plane, 4 nearly aligned, 5 only one body in-plane, 6 equal and opposite in-plane
  pure def drawVec(g: Range, u: int, v: int, w: int): V3 = {
    val r = mul(g.smax, cbrt(u + 10^41))
    val z = lerp(-S, S, v)
    val q = sqrt(S - sq(z))
    val c = cis(mul(TWO_PI, w))
    (mul3(r, q, c._1), mul3(r, q, c._2), mul(r, z))
  }
  /// the primary spin that leaves a remnant of spin a
  pure def spinFor(eta: int, c2: int, a: int): int = {
    val x = toMasses(S, eta)
    val m1 = div(x._1, x._1 + x._2)
    val st = range(0, 12).foldl(a, (v, _) => v + a - finalSpin(eta, v))
    div(st - mul(sq(S - m1), c2), sq(m1))
  }
  pure def clip(x: int, m: int): int = imax(-m, imin(m, x))
  pure def drawSpins(g: Range, prec: bool, ss: int, eta: int, r: int): (V3, V3) =
    // a remnant that hardly rotates, either way
    if (ss == 12) {
      val c2 = lerp(-(g.smax), g.smax, uni(r, 4))
      val c1 = clip(spinFor(eta, c2, lerp(-d(4, 2), d(4, 2), uni(r, 3))), g.smax)
      val e = geo(d(1, 3), d(1, 1), uni(r, 9))
      ((if (prec) e else 0, 0, c1), (0, if (prec) e / 2 else 0, c2))
    }
    else if (not(prec)) { val a = drawAligned(g, ss, uni(r, 3), uni(r, 4)) ((0, 0, a._1), (0, 0, a._2)) }
    else {
      val a = drawVec(g, uni(r, 3), uni(r, 4), uni(r, 5))
      val b = drawVec(g, uni(r, 6), uni(r, 7), uni(r, 8))
      if (ss == 2) ((0, 0, a._3), (0, 0, b._3))
      else if (ss == 3) ((a._1, a._2, 0), (b._1, b._2, 0))
      else if (ss == 4) { val e = geo(d(1, 12), d(1, 2), uni(r, 9)) ((mul(a._1, e), mul(a._2, e), a._3), (mul(b._1, e), mul(b._2, e), b._3)) }
      else if (ss == 5) ((a._1, a._2, a._3), (0, 0, b._3))
      else if (ss == 6) ((0, 0, a._3), (b._1, b._2, b._3))
      else if (ss == 7) ((a._1, 0, a._3), (0, b._2, b._3))
      else (a, b)
    }
  pure def drawLambdas(g: Range, ls: int, u: int, v: int): (int, int) =
    if (g.lmax == 0 or ls == 0) (0, 0)
    else if (ls == 1) (u, v)
    else if (ls == 2) (S, S)
    else if (ls == 3) (g.lmax, g.lmax)
    else if (ls == 4) (0, mul(g.lmax, v))
    else if (ls == 5) (mul(g.lmax, u), 0)
    else if (ls == 6) (geo(d(1, 2), i(100), u), geo(d(1, 2), i(100), v))
    else (mul(g.lmax, u), mul(g.lmax, v))

  /// total mass in seconds
  pure def massSec(b: Binary): int = mul(div(b.mc, powr(b.eta, 3, 5)), MTSUN)

  /// region boundaries of a model in Hz
  pure def boundaries(model: str, b: Binary, taper: bool): List[int] = {
    val m = toMasses(b.mc, b.eta)
    val Ms = massSec(b)
    pure def hz(l: List[int]): List[int] = l.foldl(List(), (a, x) => a.append(div(x, Ms)))
    if (model == "X") {
      val w = prepareX(m._1, m._2, b.s1._3, b.s2._3)
      hz([w.p1, w.p2, w.g1, w.g4, X_CUT])
    } else if (model == "T") [div(d(2, 2), Ms)]
    else {
      val w = prepareD(m._1, m._2, b.s1._3, b.s2._3)
      val t = hz([MF_INS_AMP, MF_INS_PHASE, w.f2, w.f4, MF_CUT])
      if (model == "N" and taper) {
        val fm = mergerFreq(m._1, m._2, kappaEff(m._1, m._2, b.l1, b.l2))
        [t[0], t[1], fm, (12 * fm) / 10, (11 * fm) / 10]
      } else t
    }
  }
  /// lowest and highest frequency of interest
  pure def band(model: str, g: Range, Ms: int): (int, int) =
    if (model == "T") (i(10), i(2000)) else if (model == "N") (i(10), imin(i(8000), div(d(199, 3), Ms)))
    else (div(g.x0, Ms), div(g.x1, Ms))

  /// n frequencies: log-uniform over the band, or close to a region boundary
  pure def drawUniverse(lo: int, hi: int, top: int, bd: List[int], n: int, r: int): List[int] =
    range(0, n).foldl(List(), (l, k) => {
      val u = uni(r, 12 + k)
      val w = (u * 10) % S                     // decorrelated from u's leading digit
      val f = if (u < (6 * S) / 10) geo(lo, hi, w)
        else {
          val b = pick(bd, w)
          val e = div(S, powi(i(10), 1 + (((w * 10) % S) * 8) / S))
          mul(b, if ((w * 100) % S < S / 2) S - e else S + e)
        }
      l.append(imax(lo, imin(f, top)))
    })

  pure def drawExtrinsic(b: Binary, es: int, r: int): Binary =
    b.with("dist", if (es == 3) geo(d(1, 2), i(100000), uni(r, 20)) else geo(S, i(10000), uni(r, 20)))
     .with("tc", if (es == 0) 0 else if (es == 1) lerp(-10 * S, 10 * S, uni(r, 21)) else if (es == 4) lerp(-100 * S, 100 * S, uni(r, 21)) else lerp(-S / 10, S / 10, uni(r, 21)))
     .with("phic", if (es == 0) 0 else if (es == 4) lerp(-100 * S, 100 * S, uni(r, 22)) else lerp(-7 * S, 7 * S, uni(r, 22)))
     .with("iota", if (es == 0) 0 else if (es == 2) pick([PI / 2, PI, PI / 3, -PI / 4, 2 * PI], uni(r, 23)) else mul(PI, uni(r, 23)))

  pure def drawFref(model: str, b: Binary, bd: List[int], lo: int, hi: int, fs: int, u: int): int =
    if (fs == 0 and model == "T") 0
    else if (fs == 1) pick(bd.slice(0, if (model == "T") 1 else if (model == "N") 2 else 4), u)
    else if (fs == 2) lo
    else geo(lo, mul(hi, d(55, 2)), u)

  pure def drawCall(model: str, fn: str, mode: str, tilde: bool, taper: bool, qs: int, ss: int, ls: int, es: int, fs: int, n: int, r: int): Call = {
    val g = rangeOf(model)
    val eta = drawEta(g, qs, uni(r, 1))
    val sp = drawSpins(g, model == "P", ss, eta, r)
    val la = drawLambdas(g, ls, uni(r, 9), uni(r, 10))
    // the tidal parameters as given to the model: per body, or the two combined ones
    val asTilde = tilde and (model == "T" or model == "N")
    val lg = if (asTilde) lambdaTildesEta(la._1, la._2, eta) else la
    val b0 = { mc: geo(g.mc0, g.mc1, uni(r, 0)), eta: eta, s1: sp._1, s2: sp._2, l1: la._1, l2: la._2,
               dist: S, tc: 0, phic: 0, iota: 0, fref: 0 }
    val bd = boundaries(model, b0, taper)
    val bn = band(model, g, massSec(b0))
    val b = drawExtrinsic(b0, es, r)
    val bf = b.with("fref", drawFref(model, b, bd, bn._1, bn._2, fs, uni(r, 11))).with("l1", lg._1).with("l2", lg._2)
    { model: model, fn: fn, mode: mode, tilde: asTilde, taper: taper, b: bf,
      univ: drawUniverse(bn._1, bn._2, if (model == "N" and not(taper)) bn._2 else (3 * bn._2) / 2, bd, n, r), sc: S, grid: range(0, n), dense: 0 }
  }

  // ------------------------------------------------------------------ the machine
  var call: Call
  var act: str
  var sid: int

  pure val NU = 8
  pure val NONE: Call = { model: "none", fn: "h", mode: "jit", tilde: false, taper: false,
    b: { mc: 0, eta: 0, s1: (0, 0, 0), s2: (0, 0, 0), l1: 0, l2: 0, dist: 0, tc: 0, phic: 0, iota: 0, fref: 0 }, univ: [], sc: S, grid: [], dense: 0 }

  /// what this user works with: some of the models, and for the tidal ones one way of giving the
  /// deformabilities and of tapering (none: any)
  type Focus = { models: Set[str], tapers: Set[bool], tildes: Set[bool] }
  var focus: Focus

  action begin(f: Focus): bool = all { call' = NONE, act' = "init", sid' = 0, focus' = f }
  action init = begin({ models: Set("D", "X", "T", "N", "P"), tapers: Set(true, false), tildes: Set(true, false) })
  action initOne(model: str): bool = {
    nondet taper = oneOf(Set(true, false))
    nondet tilde = oneOf(Set(true, false))
    begin({ models: Set(model), tapers: Set(taper), tildes: Set(tilde) })
  }
  action init_D = initOne("D")
  action init_X = initOne("X")
  action init_T = initOne("T")
  action init_N = initOne("N")
  action init_P = initOne("P")

  action become(a: str, c: Call): bool = all { call' = c, act' = a, sid' = sid, focus' = focus }
  action start(c: Call): bool = all { call' = c, act' = "New", sid' = sid + 1, focus' = focus }
  pure def setB(c: Call, b: Binary): Call = c.with("b", b)

  /// describe a new binary
  action newBinary(models: Set[str], fns: Set[str], modes: Set[str], qss: Set[int], tapers: Set[bool]): bool = {
    nondet model = oneOf(models)
    nondet fn = oneOf(fns)
    nondet mode = oneOf(modes)
    nondet tilde = oneOf(focus.tildes)
    nondet taper = oneOf(tapers.intersect(focus.tapers))
    nondet qs = oneOf(qss)
    nondet ss = oneOf(0.to(12))
    nondet ls = oneOf(0.to(8))
    nondet es = oneOf(0.to(4))
    nondet fs = oneOf(0.to(4))
    nondet r = oneOf(1.to(DRAW))
    // TaylorF2 compares its reference frequency in Python: under jit it is a constant of the compiled program
    start(drawCall(model, fn, if (model == "T" and mode == "jit") "eager" else mode, tilde, taper, qs, ss, ls, es, fs, NU, r))
  }
  action setDist = { nondet u = oneOf(1.to(10^9)) become("SetDist", setB(call, call.b.with("dist", geo(d(1, 2), i(100000), u * 10^41)))) }
  action setTc = { nondet u = oneOf(1.to(10^9)) nondet z = oneOf(0.to(3))
    become("SetTc", setB(call, call.b.with("tc", if (z == 0) 0 else if (z == 1) lerp(-100 * S, 100 * S, u * 10^41) else lerp(-5 * S, 5 * S, u * 10^41)))) }
  action setPhic = { nondet u = oneOf(1.to(10^9)) nondet z = oneOf(0.to(3))
    become("SetPhic", setB(call, call.b.with("phic", if (z == 0) 0 else if (z == 1) lerp(-100 * S, 100 * S, u * 10^41) else lerp(-7 * S, 7 * S, u * 10^41)))) }
  action setIota = { nondet u = oneOf(1.to(10^9)) nondet z = oneOf(0.to(5))
    become("SetIota", setB(call, call.b.with("iota", if (z == 0) 0 else if (z == 1) PI / 2 else if (z == 2) PI else if (z == 3) mul(2 * PI, 2 * u * 10^41 - S) else mul(PI, u * 10^41))).with("fn", "pol")) }
  action setFn(fns: Set[str]): bool = { nondet fn = oneOf(fns) become("SetFn", call.with("fn", fn)) }
  action setFref = {
    nondet u = oneOf(1.to(10^9))
    nondet z = oneOf(0.to(4))
    val lo = call.univ.foldl(call.univ[0], (a, f) => imin(a, f))
    val Ms = div(massSec(call.b), call.sc)
    // every region of the model, from the start of the band to the ringdown
    val f = if (z == 0 and call.model == "T") 0
      else if (z == 1 or z == 2) call.univ[(u * call.univ.length()) / (10^9 + 1)]
      else if (call.model == "T") geo(i(10), i(2000), u * 10^41)
      else geo(lo, div(d(19, 2), Ms), u * 10^41)
    become("SetFref", setB(call, call.b.with("fref", div(imin(f, if (call.model == "T") i(3000) else div(d(199, 3), Ms)), call.sc))))
  }
  /// rescale the binary: masses, distance and time by s, frequencies by 1/s
  action rescale = {
    nondet u = oneOf(1.to(10^9))
    nondet z = oneOf(0.to(3))
    val s = if (z == 0) 2 * S else if (z == 1) S / 2 else if (z == 2) geo(d(2, 1), i(5), u * 10^41) else geo(d(1, 3), i(1000), u * 10^41)
    val b = call.b
    become("Rescale", setB(call, b.with("mc", mul(b.mc, s)).with("dist", mul(b.dist, s)).with("tc", mul(b.tc, s)).with("fref", div(b.fref, s)))
      .with("sc", mul(call.sc, s)))
  }
  /// exchange the two bodies
  action swap = become("Swap", setB(call, call.b.with("s1", call.b.s2).with("s2", call.b.s1)
      .with("l1", if (call.tilde) call.b.l1 else call.b.l2).with("l2", if (call.tilde) -(call.b.l2) else call.b.l1)))
  /// turn the spins about the orbital axis and the coalescence phase back by as much: the same binary, later in its orbit
  action turn = {
    nondet u = oneOf(1.to(10^9))
    nondet z = oneOf(0.to(7))
    val a = if (z == 0) PI else if (z == 1) PI / 2 else if (z == 2) 2 * PI else if (z == 3) -PI / 2 else if (z == 4) geo(d(1, 9), d(1, 2), u * 10^41) else mul(TWO_PI, u * 10^41)
    val c = cis(a)
    pure def rot(v: V3): V3 = (mul(v._1, c._1) - mul(v._2, c._2), mul(v._1, c._2) + mul(v._2, c._1), v._3)
    become("Turn", setB(call, call.b.with("s1", rot(call.b.s1)).with("s2", rot(call.b.s2)).with("phic", call.b.phic - a)))
  }
  /// the same line of sight, written with the opposite inclination; or a full turn of the inclination
  action halfTurn = become("HalfTurn", setB(call, call.b.with("iota", -(call.b.iota)).with("phic", if (call.b.phic > 0) call.b.phic - PI else call.b.phic + PI)))
  action fullTurn = become("FullTurn", setB(call, call.b.with("iota", if (call.b.iota > 0) call.b.iota - TWO_PI else call.b.iota + TWO_PI)))
  /// the mirror image in the orbital plane: spins are axial vectors
  action mirror = become("Mirror", setB(call, call.b.with("iota", PI - call.b.iota)
      .with("s1", (-(call.b.s1._1), -(call.b.s1._2), call.b.s1._3)).with("s2", (-(call.b.s2._1), -(call.b.s2._2), call.b.s2._3))))
  action setMode(modes: Set[str]): bool = { nondet m = oneOf(modes) become("SetMode", call.with("mode", m)) }
  action setGrid(kinds: Set[int]): bool = {
    nondet g = oneOf(kinds)
    nondet a = oneOf(0.to(7))
    nondet d = oneOf(1.to(10^9))
    val n = call.univ.length()
    val grid =
      if (g == 0) [a % n]                                                            // a single point
      else if (g == 1) range(0, n).foldl(List(), (l, k) => l.append(n - 1 - k))      // reversed
      else if (g == 2) range(0, n).foldl(List(), (l, k) => l.append((5 * k + a) % n)) // permuted
      else if (g == 3) range(0, n).foldl(List(), (l, k) => l.append((a + k / 2) % n)) // repetitions
      else if (g == 4) range(0, n / 2).foldl(List(), (l, k) => l.append((a + k) % n)) // a part
      else if (g == 5) range(0, 2 * n).foldl(List(), (l, k) => l.append((3 * k + a) % n)) // concatenation
      else range(0, n)
    become("SetGrid", call.with("grid", grid).with("dense", 0))
  }
  /// embed the grid in a long regular one (some models could look at neighbours or at the ends)
  action setDense = {
    nondet z = oneOf(0.to(5))
    val g = List(50, 3000, 4097, 20001, 20001, 130000)[z]   // odd: a regular grid from 0 Hz on
    val m = if (Set("jit", "eager", "numpy").contains(call.mode)) call.mode else if (call.model == "T") "eager" else "jit"
    become("SetDense", call.with("grid", range(0, call.univ.length())).with("dense", g).with("mode", m))
  }
  /// the same request for a binary that differs a little (a new binary, asked for in the same way)
  action nudge = {
    nondet k = oneOf(0.to(3))
    nondet e = oneOf(2.to(9))
    nondet u = oneOf(1.to(10^9))
    val x = S + mul(div(S, powi(i(10), e)), u * 10^41)
    val b = call.b
    start(setB(call, if (k == 0) b.with("mc", mul(b.mc, x)) else if (k == 1) b.with("eta", div(b.eta, x))
      else if (k == 2) b.with("s1", (mul(b.s1._1, x), mul(b.s1._2, x), div(b.s1._3, x)))
      else b.with("s2", (mul(b.s2._1, x), mul(b.s2._2, x), div(b.s2._3, x))).with("l1", mul(b.l1, x))).with("grid", range(0, call.univ.length())).with("dense", 0))
  }
  /// the other models are evaluated for the same binary, then the same request is repeated
  action interlude = become("Interlude", call)

  // ------------------------------------------------------------------ behaviours per property
  pure val ALIGNED = Set("D", "X", "T", "N")
  pure val ALL = Set("D", "X", "T", "N", "P")
  pure val QS = Set(0, 1, 2, 3, 4, 5)
  pure val JIT = Set("jit")

  // wave-form fidelity: one fresh binary after another
  action step_C01 = newBinary(Set("D"), Set("h", "pol"), Set("jit"), QS, Set(false))
  action step_C02 = newBinary(Set("X"), Set("h", "pol"), Set("jit"), QS, Set(false))
  action step_C03 = newBinary(Set("T"), Set("h", "pol"), Set("eager"), QS, Set(false))
  action step_C04 = newBinary(Set("N"), Set("h", "pol"), Set("jit"), QS, Set(true, false))
  action step_C05 = newBinary(Set("P"), Set("pol", "mass"), Set("jit"), QS, Set(false))

  action fresh(models: Set[str], qss: Set[int]): bool = newBinary(models.intersect(focus.models), Set("h"), JIT, qss, Set(true, false))
  // extrinsic laws
  action step_C09 = if (sid == 0) fresh(ALL, QS) else {
    nondet z = oneOf(0.to(11))
    if (z == 0) fresh(ALL, QS)
    else if (z <= 2) setDist
    else if (z <= 5) setTc
    else if (call.model == "P") (if (z <= 8) setDist else setTc)
    else if (z <= 8) setPhic
    else if (z <= 10) setIota
    else setFn(Set("h", "pol"))
  }
  // total-mass scaling
  action step_C10 = if (sid == 0) fresh(ALL, QS) else {
    nondet z = oneOf(0.to(5))
    if (z <= 1) fresh(ALL, QS) else if (call.sc > 10000 * S or call.sc < S / 10000) fresh(ALL, QS) else rescale
  }
  // pointwise, stateless, mode independent
  // (a new grid length or mode of IMRPhenomXAS costs a long compilation: those are rationed)
  action step_C11 = if (sid == 0) fresh(ALL, QS) else {
    nondet z = oneOf(0.to(13))
    val x = call.model == "X"
    if (z <= 2) fresh(ALL, QS)
    else if (z <= 6) setGrid(if (x) Set(0, 1, 2, 3, 6) else 0.to(6))
    else if (z <= 8) (if (x) setGrid(Set(1, 2)) else setDense)
    else if (z <= 11) setMode(
        if (x) (if (call.grid.length() == NU) Set("jit", "jitvmap", "elem") else Set("jit"))
        else if (call.model == "T") (if (call.dense > 0) Set("eager", "numpy", "threads") else Set("eager", "vmap", "elem", "numpy", "scalar", "fvmap", "threads"))
        else if (call.dense > 0) Set("jit", "eager", "numpy", "threads") else Set("jit", "eager", "vmap", "jitvmap", "elem", "numpy", "scalar", "fvmap", "threads"))
    else if (z == 12) (if (x) become("SetMode", call.with("mode", "jit")) else setFn(if (call.model == "P") Set("pol", "mass") else Set("h", "pol")))
    else interlude
  }
  /// binaries that differ a little, evaluated one after the other, in one mode and then another
  action step_C11n =
    if (sid == 0) fresh(ALL, QS)
    else if (act == "New" and call.mode == "jit") setMode(Set("eager", "numpy"))
    else if (act == "New") setMode(if (call.model == "T") Set("vmap") else Set("jit"))
    else if (call.mode == "jit" or call.mode == "vmap") { nondet z = oneOf(0.to(3)) if (z == 0 or call.model == "X") fresh(ALL, QS) else setMode(Set("eager", "numpy")) }
    else nudge
  /// the rationed forms
  action step_C11s = {
    nondet z = oneOf(0.to(1))
    if (sid == 0 or act == "SetMode" or act == "SetDense" or act == "SetGrid") fresh(ALL, QS)
    else if (call.model == "X") (if (sid % 4 == 1) setDense else if (sid % 4 == 2) setGrid(Set(4, 5)) else setMode(Set("eager", "numpy", "vmap", "scalar", "fvmap", "threads")))
    else setMode(if (call.model == "T") Set("jit", "jitvmap") else Set("jitfref"))
  }
  // equal-mass exchange
  action step_C12 = if (act == "New") swap else fresh(ALL, Set(0))
  // reference frequency
  action step_C23 = if (sid == 0) fresh(ALIGNED, QS) else {
    nondet z = oneOf(0.to(4))
    if (z == 0) fresh(ALIGNED, QS) else if (z == 1 and call.sc == S) rescale else setFref
  }
  // rotations and reflections of a precessing binary
  action step_C24 = {
    nondet z = oneOf(0.to(9))
    if (sid == 0 or z == 0) newBinary(Set("P"), Set("pol", "mass"), JIT, QS, Set(true, false))
    else if (z <= 5) turn else if (z == 6) halfTurn else if (z == 7) fullTurn else mirror
  }
  // precision of the arithmetic
  action step_C21 = newBinary(focus.models, Set("h", "pol"), Set("jit", "eager", "numpy"), INTERIOR, Set(true, false))

  // derivatives, in one of the ways of asking for them; away from equal masses
  pure val INTERIOR = Set(2, 3, 4, 5)
  action step_C14f = newBinary(focus.models, if (focus.models.contains("P")) Set("pol") else Set("h"), Set("jacfwd"), INTERIOR, Set(true, false))
  action step_C14r = newBinary(focus.models, if (focus.models.contains("P")) Set("pol") else Set("h"), Set("jacrev"), INTERIOR, Set(true, false))
  action step_C14v = newBinary(focus.models, if (focus.models.contains("P")) Set("pol") else Set("h"), Set("vjacfwd"), INTERIOR, Set(true, false))
  action step_C14w = newBinary(focus.models, if (focus.models.contains("P")) Set("pol") else Set("h"), Set("vjacrev"), INTERIOR, Set(true, false))

  // limits: the same binary through a richer model, then with a little of what makes it richer
  action enrich(model: str, b: Binary, tilde: bool, taper: bool): bool =
    become("Enrich", setB(call, b).with("model", model).with("fn", if (model == "P") "pol" else "h").with("taper", taper).with("tilde", tilde))
  action step_C20 = {
    nondet model = oneOf(Set("N", "P"))
    nondet z = oneOf(0.to(3))
    nondet taper = oneOf(Set(true, false))
    nondet u = oneOf(1.to(10^9))
    nondet v = oneOf(1.to(10^9))
    val b = call.b
    // a deformability (or an in-plane spin) tending to zero
    val small = geo(d(1, 12), d(1, 1), u * 10^41)
    val l = lerp(0, 2 * small, v * 10^41)
    if (act == "init" or act == "Tide" or (call.model == "P" and z <= 1) or (call.model == "N" and z == 0)) newBinary(Set("D", "T"), Set("h"), JIT, QS, Set(true, false))
    else if (call.model == "T") become("Tide", setB(call, b.with("l1", if (z == 0) 0 else small).with("l2", if (z == 0 or z == 1) 0 else l)).with("tilde", false))
    else if (call.model == "D") enrich(model, b, false, taper)
    else if (call.model == "N") become("Enrich", setB(call, b.with("l1", if (z == 1) 0 else small).with("l2", if (z == 2) 0 else l)))
    else {
      val c = cis(mul(TWO_PI, v * 10^41))
      val t = geo(d(1, 14), d(1, 9), u * 10^41)
      become("Enrich", setB(call, b.with("s1", (mul(t, c._1), mul(t, c._2), b.s1._3)).with("s2", if (z == 2) (0, 0, b.s2._3) else (mul(t, c._2), 0, b.s2._3))))
    }
  }
}
