/// Accepts what the library says about merger remnants exactly when it is the published fits, physical,
/// and obeys scaling, exchange and monotonicity along the history.
/// Event: act, sid, m1, m2, c1, c2, chip, then fifteen observations (see NAMES)
module trace_remnant {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import phenomd.* from "./phenomd"
  import phenomd_tables.QA from "./phenomd_tables"
  import phenomx.* from "./phenomx"
  import phenompv2.* from "./phenompv2"
  import trace_data.* from "./trace_data"

  pure val HUGE = 3 * 10^59
  pure val ABSENT = -4 * 10^59   // the library no longer offers this number under that name
  pure val OUT = 7
  pure val NAMES = List("final-spin", "radiated-energy", "ringdown", "damping", "final-spin-in-plane", "ringdown-in-plane", "damping-in-plane",
    "ringdown-x", "damping-x", "minimum-energy-orbit", "innermost-stable-orbit", "phase-join-1", "phase-join-2", "amplitude-join-1", "amplitude-peak")
  type Bad = { ev: int, k: int, clause: str, got: int, limit: int }
  pure def must(n: int, k: int, c: str, ok: bool, got: int): List[Bad] = if (ok) [] else [{ ev: n, k: k, clause: c, got: got, limit: 0 }]

  pure def inTable(a: int): bool = at(QA, 0) <= a and a <= at(QA, KNOTS - 1)
  /// what the library should say; a negative tolerance leaves the number undecided
  type Want = { v: int, tol: int }
  pure def wanted(e: List[int]): List[Want] = {
    val m1 = e[2]
    val m2 = e[3]
    val eta = etaOf(m1, m2)
    val Ms = mul(m1 + m2, MTSUN)
    val t = d(1, 12) + imin(d(1, 7), div(d(4, 15), imax(deltaOf(eta), d(1, 9))))
    val st = div(mul(sq(m1), e[4]) + mul(sq(m2), e[5]), sq(m1 + m2))
    val a = finalSpin(eta, st)
    val er = eradSpins(eta, e[4], e[5])
    val r = ringdown(a, er)
    val ap = finalSpinP(m1, m2, e[4], e[5], e[6])
    val rp = ringdown(ap, er)
    val s = spinsX(eta, e[4], e[5])
    val ax = finalSpinX(s)
    val rx = ringX(ax)
    val ex = S - eradX(s)
    val f4 = peakFreq(fits(eta, e[4], e[5]), r._1, r._2)
    pure def tb(x: int): int = if (inTable(x)) t + ringTol(x) / 50 else -S
    List({ v: a, tol: t }, { v: er, tol: t }, { v: div(r._1, Ms), tol: tb(a) }, { v: div(r._2, Ms), tol: tb(a) },
      { v: ap, tol: t }, { v: div(rp._1, Ms), tol: tb(ap) }, { v: div(rp._2, Ms), tol: tb(ap) },
      // near an extremal remnant the damping frequency tends to zero
      { v: div(rx._1, ex), tol: 10 * t + div(d(1, 12), S - imin(abs(ax), d(9999999, 7))) }, { v: div(rx._2, ex), tol: 10 * t + div(d(1, 12), S - imin(abs(ax), d(9999999, 7))) },
      { v: mecoX(s), tol: 10 * t }, { v: iscoX(ax), tol: 10 * t + div(d(1, 13), S - imin(abs(ax), d(9999999, 7))) },
      { v: div(MF_INS_PHASE, Ms), tol: t }, { v: div(r._1, 2 * Ms), tol: tb(a) }, { v: div(MF_INS_AMP, Ms), tol: t }, { v: div(f4, Ms), tol: if (inTable(a)) 10 * tb(a) else -S })
  }

  pure def judge(e: List[int], p: List[int], n: int): List[Bad] = {
    val w = wanted(e).foldl([], (l, x) => l.append(if (e[OUT + l.length()] == ABSENT or p[OUT + l.length()] == ABSENT) x.with("tol", -S) else x))
    pure def has(k: int): bool = e[OUT + k] != ABSENT
    val values = range(0, 15).foldl([], (l, k) => {
      val g = e[OUT + k]
      if (w[k].tol < 0 or (abs(g) < HUGE and abs(g - w[k].v) <= mul(imax(abs(w[k].v), if (k == 0 or k == 4) d(1, 1) else 0), w[k].tol) + 10)) l
      else l.append({ ev: n, k: k, clause: NAMES[k], got: if (abs(g) < HUGE) abs(g - w[k].v) else S, limit: mul(abs(w[k].v), w[k].tol) })
    })
    val physical = must(n, 0, "physical", and { has(0) implies abs(e[OUT]) <= d(101, 2), has(1) implies e[OUT + 1] > 0 and e[OUT + 1] < d(2, 1), Set(2, 3, 7, 8).forall(k => has(k) implies e[OUT + k] > 0) }, e[OUT])
    val cont = n > 0 and p[1] == e[1] and e[0] != 0
    // two correct answers may differ by twice the rounding of either
    pure def same(k: int, x: int): bool = w[k].tol < 0 or abs(e[OUT + k] - x) <= mul(imax(abs(x), if (k == 0 or k == 4) S else 0), 2 * w[k].tol + d(1, 11)) + d(1, 12)
    val laws = if (not(cont)) []
      else if (e[0] == 1) {
        // frequencies scale inversely with mass, the rest does not change
        val f = div(p[2], e[2])
        range(0, 15).foldl([], (l, k) =>
          if (Set(2, 3, 5, 6, 11, 12, 13, 14).contains(k)) l.concat(must(n, k, "scales-with-mass", same(k, mul(p[OUT + k], f)), e[OUT + k]))
          else l.concat(must(n, k, "unit-of-mass", same(k, p[OUT + k]), e[OUT + k])))
      } else if (e[0] == 2) range(0, 15).foldl([], (l, k) => l.concat(must(n, k, "exchange", same(k, p[OUT + k]), e[OUT + k])))
      else if (e[0] == 3) must(n, 0, "spin-up", not(has(0)) or e[OUT] >= p[OUT] - d(1, 13), e[OUT] - p[OUT]).concat(must(n, 4, "chirality", not(has(0)) or not(has(4)) or (e[OUT + 4] >= 0) == (e[OUT] >= 0), 0))
      else must(n, 4, "tilt", not(has(4)) or abs(e[OUT + 4]) >= abs(p[OUT + 4]) - d(1, 13), e[OUT + 4]).concat(must(n, 0, "tilt-aligned", e[OUT] == p[OUT], 0))
    values.concat(physical).concat(must(n, 4, "no-tilt", e[6] != 0 or not(has(0)) or same(4, e[OUT]), e[OUT + 4])).concat(laws)
  }

  var l: int
  var bad: List[Bad]
  var points: int
  var seen: List[int]
  action init = all { l' = 0, bad' = [], points' = 0, seen' = [0, 0, 0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = EVENTS[l]
    all { l' = l + 1, bad' = bad.concat(judge(e, EVENTS[imax(0, l - 1)], l)), points' = points + 15, seen' = seen.replaceAt(e[0], seen[e[0]] + 1) }
  }
}
