/// The session machine (session.qnt) and the laws (law.qnt) with the waveform abstracted away: amplitudes are
/// logarithms, phases and frequencies integers, the strain of a binary an arbitrary table.  Small enough to be checked
/// exhaustively, it answers two questions about the specification itself:
///
///  * soundness: can a monitor that compares every observation with the *first* one of its session ever reject a library
///    that obeys the laws, whatever the order of the actions?   (invariant `accepted` with fault = 0; Apalache)
///  * sensitivity: is there, for every kind of fault a stateful or mis-scaled library can have, a behaviour of the
///    session machine that makes the monitor reject it?          (`accepted` is violated for every fault 1..13)
module session_abs {
  /// distance, tc, phic, cosine of the inclination (in halves), reference frequency, scale; all but the cosine logarithms or plain integers
  type Req = { d: int, t: int, p: int, c: int, r: int, s: int, grid: List[int], mode: int }
  type Obs = { amp: int, ph: int, plus: int, cross: int }
  pure val REFS = 0.to(3)
  pure val GRIDS = Set([1, 2, 3], [3, 2, 1], [2], [1, 1, 2], [2, 3], [3, 1, 2, 2, 3, 1])

  var fault: int
  var amp0: int -> int         // the binary: log amplitude and phase at each frequency 1..3, and phase offset of each reference frequency
  var ph0: int -> int
  var ref0: int -> int
  var req: Req                 // current request and the first one of the session
  var base: Req
  var obs: List[Obs]
  var obsBase: List[Obs]
  var memo: { set: bool, req: Req, obs: List[Obs] }   // what a faulty library remembers
  var foreign: bool            // another model was evaluated since
  var act: str

  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def maxOf(g: List[int]): int = g.foldl(0, (m, k) => if (k > m) k else m)

  /// one frequency through the library
  pure def strain(q: Req, k: int, pos: int, f: int, a: int -> int, h: int -> int, rf: int -> int, other: bool): Obs = {
    val t = if (f == 2) -(q.t) else if (f == 3) q.t % 4 else q.t
    val p = if (f == 4) q.p else 2 * q.p
    val c = if (f == 5 and q.c < 0) -(q.c) else q.c
    val s = if (f == 7) imin(q.s, 2) else q.s
    val kk = if (f == 11) imin(k, pos + 1) else k
    { amp: a.get(kk) + s - q.d + (if (f == 8 and maxOf(q.grid) < 3) 1 else 0) + (if (f == 10 and q.mode == 2) 1 else 0) + (if (f == 12 and other) 1 else 0),
      ph: h.get(kk) - k * t + p + rf.get(q.r) + (if (f == 6) q.r * k else 0), plus: 4 + c * c, cross: c }
  }
  pure def library(q: Req, f: int, a: int -> int, h: int -> int, rf: int -> int, m: { set: bool, req: Req, obs: List[Obs] }, other: bool): List[Obs] = {
    val hit = m.set and if (f == 1) m.req.with("d", 0) == q.with("d", 0) else if (f == 13) m.req == q else f == 9 and m.req.grid.length() == q.grid.length() and m.req.mode == q.mode
    if (hit) m.obs else (
      q.grid.foldl([], (l, k) => l.append(strain(q, k, l.length(), f, a, h, rf, other))))
  }

  /// the law: the observation predicted from the first one of the session, but for one phase when the reference frequency differs
  pure def predict(q: Req, b: Req, o: List[Obs], k: int): Obs = {
    val j = k - 1      // the first grid of a session is [1, 2, 3]
    { amp: o[j].amp + (q.s - b.s) - (q.d - b.d), ph: o[j].ph - k * (q.t - b.t) + 2 * (q.p - b.p), plus: 4 + q.c * q.c, cross: q.c }
  }
  pure def accepts(q: Req, b: Req, o: List[Obs], ob: List[Obs]): bool = {
    val shift = if (q.r == b.r) 0 else o[0].ph - predict(q, b, ob, q.grid[0]).ph
    o.length() == q.grid.length() and o.indices().forall(j => {
      val w = predict(q, b, ob, q.grid[j])
      o[j].amp == w.amp and o[j].ph == w.ph + shift and o[j].plus == w.plus and o[j].cross == w.cross
    })
  }
  val accepted = accepts(req, base, obs, obsBase)

  pure val FIRST: Req = { d: 0, t: 0, p: 0, c: 2, r: 0, s: 0, grid: [1, 2, 3], mode: 0 }
  action initWith(f: int): bool = {
    nondet a = oneOf(1.to(3).setOfMaps(Set(0, 3, 5)))
    nondet h = oneOf(1.to(3).setOfMaps(Set(0, 1, 7)))
    nondet rf = oneOf(REFS.setOfMaps(Set(0, 2)))
    val o = library(FIRST, f, a, h, rf, { set: false, req: FIRST, obs: [] }, false)
    all { fault' = f, amp0' = a, ph0' = h, ref0' = rf, req' = FIRST, base' = FIRST, obs' = o, obsBase' = o,
          memo' = { set: true, req: FIRST, obs: o }, foreign' = false, act' = "New" }
  }
  action become(n: str, q: Req, other: bool): bool = {
    val o = library(q, fault, amp0, ph0, ref0, memo, other)
    all { fault' = fault, amp0' = amp0, ph0' = ph0, ref0' = ref0, req' = q, base' = base, obs' = o, obsBase' = obsBase,
          memo' = { set: true, req: q, obs: o }, foreign' = other, act' = n }
  }
  /// another binary: a new session; whatever the library remembers of the old one, it keeps
  action newBinary = {
    nondet a = oneOf(1.to(3).setOfMaps(Set(0, 3, 5)))
    nondet h = oneOf(1.to(3).setOfMaps(Set(0, 1, 7)))
    nondet rf = oneOf(REFS.setOfMaps(Set(0, 2)))
    val o = library(FIRST, fault, a, h, rf, memo, foreign)
    all { fault' = fault, amp0' = a, ph0' = h, ref0' = rf, req' = FIRST, base' = FIRST, obs' = o, obsBase' = o,
          memo' = { set: true, req: FIRST, obs: o }, foreign' = foreign, act' = "New" }
  }
  action step = any {
    newBinary,
    { nondet x = oneOf((0 - 3).to(3)) become("SetDist", req.with("d", x), foreign) },
    { nondet x = oneOf((0 - 6).to(6)) become("SetTc", req.with("t", x), foreign) },
    { nondet x = oneOf((0 - 3).to(3)) become("SetPhic", req.with("p", x), foreign) },
    { nondet x = oneOf((0 - 2).to(2)) become("SetIota", req.with("c", x), foreign) },
    { nondet x = oneOf(REFS) become("SetFref", req.with("r", x), foreign) },
    { nondet x = oneOf((0 - 3).to(3)) become("Rescale", req.with("s", req.s + x).with("d", req.d + x), foreign) },
    { nondet x = oneOf(0.to(2)) become("SetMode", req.with("mode", x), foreign) },
    { nondet g = oneOf(GRIDS) become("SetGrid", req.with("grid", g), foreign) },
    become("Interlude", req, true),
  }
  action init = initWith(0)
  /// any request whatever of any binary whatever (integers of any size): the law itself, without bounds
  action initAnyWith(f: int): bool = {
    nondet a1 = oneOf(Int)
    nondet a2 = oneOf(Int)
    nondet a3 = oneOf(Int)
    nondet h1 = oneOf(Int)
    nondet h2 = oneOf(Int)
    nondet h3 = oneOf(Int)
    nondet r0 = oneOf(Int)
    nondet r1 = oneOf(Int)
    nondet d = oneOf(Int)
    nondet t = oneOf(Int)
    nondet p = oneOf(Int)
    nondet s = oneOf(Int)
    nondet bd = oneOf(Int)
    nondet bt = oneOf(Int)
    nondet bp = oneOf(Int)
    nondet c = oneOf(Set(-2, -1, 0, 1, 2))
    nondet r = oneOf(Set(0, 1))
    nondet m = oneOf(0.to(2))
    nondet g = oneOf(GRIDS)
    val a = Map(1 -> a1, 2 -> a2, 3 -> a3)
    val h = Map(1 -> h1, 2 -> h2, 3 -> h3)
    val rf = Map(0 -> r0, 1 -> r1, 2 -> r0, 3 -> r1)
    val q = { d: d, t: t, p: p, c: c, r: r, s: s, grid: g, mode: m }
    val b = { d: bd, t: bt, p: bp, c: 2, r: 0, s: 0, grid: [1, 2, 3], mode: 0 }
    val none = { set: false, req: FIRST, obs: [] }
    all { fault' = f, amp0' = a, ph0' = h, ref0' = rf, req' = q, base' = b, obs' = library(q, f, a, h, rf, none, false),
          obsBase' = library(b, f, a, h, rf, none, false), memo' = none, foreign' = false, act' = "Any" }
  }
  action initAny = initAnyWith(0)
  action initAny_2 = initAnyWith(2)
  action init_1 = initWith(1)
  action init_2 = initWith(2)
  action init_3 = initWith(3)
  action init_4 = initWith(4)
  action init_5 = initWith(5)
  action init_6 = initWith(6)
  action init_7 = initWith(7)
  action init_8 = initWith(8)
  action init_9 = initWith(9)
  action init_10 = initWith(10)
  action init_11 = initWith(11)
  action init_12 = initWith(12)
  action init_13 = initWith(13)
}
