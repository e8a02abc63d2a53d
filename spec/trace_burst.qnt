/// Accepts recorded bursts exactly when they are the specified ones.
/// Event: kind (0 points, 1 whole burst, 2 axes), sid, q, f, hrss, phase, ecc, n, dt, then n times, n plus, n cross
module trace_burst {
  import fx.* from "./fx"
  import sinegauss.* from "./sinegauss"
  import trace_data.* from "./trace_data"

  pure val HUGE = 3 * 10^59
  type Bad = { ev: int, k: int, clause: str, got: int, limit: int }
  pure def chk(n: int, k: int, c: str, got: int, want: int, lim: int): List[Bad] =
    if (abs(got) < HUGE and abs(got - want) <= lim) [] else [{ ev: n, k: k, clause: c, got: if (abs(got) < HUGE) abs(got - want) else S, limit: lim }]

  pure def judge(e: List[int], at: int): List[Bad] = {
    val b = { q: e[2], f: e[3], hrss: e[4], phase: e[5], ecc: e[6] }
    val n = e[7]
    val w = prepareSG(b)
    if (e[0] == 2) { val ab = axes(b.ecc)
      chk(at, 0, "axes", e[9], ab._1, d(1, 14)).concat(chk(at, 0, "axes", e[10], ab._2, d(1, 14) + imin(d(1, 7), div(d(1, 15), imax(ab._2, d(1, 30))))))
    } else if (e[0] == 0) range(0, n).foldl([], (l, k) => {
      val t = e[9 + k]
      val h = burstAt(w, t)
      val phi = abs(mul3(TWO_PI, b.f, t)) + abs(b.phase) + S
      // rounding of the phase and, for nearly linear polarization, of 1 - e^2
      val r = d(1, 13) + mul(d(1, 15), phi + 10 * sq(div(mul3(TWO_PI, b.f, t), b.q)))
      val rb = r + imin(S, div(d(1, 15), imax(S - sq(b.ecc), d(1, 25))))
      l.concat(chk(at, k, "plus", e[9 + n + k], h._1, mul(w.plus, r) + 10))
       .concat(chk(at, k, "cross", e[9 + 2 * n + k], h._2, mul(w.cross, rb) + mul(mul(b.hrss, d(1, 7)), if (S - sq(b.ecc) < d(1, 14)) div(w.plus, b.hrss) else 0) + 10))
    })
    else {
      val ab = axes(b.ecc)
      // integral over time of the squares, in units of hrss^2
      val s = range(0, n).foldl((0, 0), (acc, k) => {
        val p = div(e[9 + n + k], b.hrss)
        val c = div(e[9 + 2 * n + k], b.hrss)
        (acc._1 + sq(p), acc._2 + sq(c))
      })
      val ip = mul(s._1, e[8])
      val ic = mul(s._2, e[8])
      chk(at, -1, "hrss", ip + ic, S, d(1, 9)).concat(chk(at, -1, "hrss-plus", ip, sq(ab._1), d(1, 9))).concat(chk(at, -1, "hrss-cross", ic, sq(ab._2), d(1, 9)))
    }
  }

  var l: int
  var bad: List[Bad]
  var points: int
  var seen: List[int]
  action init = all { l' = 0, bad' = [], points' = 0, seen' = [0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = EVENTS[l]
    all { l' = l + 1, bad' = bad.concat(judge(e, l)), points' = points + e[7], seen' = seen.replaceAt(e[0], seen[e[0]] + 1) }
  }
}
