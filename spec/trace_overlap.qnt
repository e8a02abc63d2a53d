/// Accepts recorded overlaps exactly when they are the defined ones and obey their laws along the history.
/// Event: act, sid, k0, n, df, t, ip, match, ip of callables, match of callables, then n frequencies,
///        n noise values (0: infinite), n times 4 numbers (h1, h2); strains and noise in units of powers of ten
module trace_overlap {
  import fx.* from "./fx"
  import overlap_def.* from "./overlap_def"
  import trace_data.* from "./trace_data"

  pure val HUGE = 3 * 10^59
  type Bad = { ev: int, k: int, clause: str, got: int, limit: int }
  pure def chk(n: int, c: str, got: int, want: int, lim: int): List[Bad] =
    if (abs(got) < HUGE and abs(got - want) <= lim) [] else [{ ev: n, k: 0, clause: c, got: if (abs(got) < HUGE) abs(got - want) else S, limit: lim }]
  pure def must(n: int, c: str, ok: bool, got: int): List[Bad] = if (ok) [] else [{ ev: n, k: 0, clause: c, got: got, limit: 0 }]

  pure def judge(e: List[int], p: List[int], at: int): List[Bad] = {
    val k0 = e[2]
    val n = e[3]
    val N = 2 * (k0 + n - 1) - 1
    val f = e.slice(10, 10 + n)
    val w = range(0, n).foldl([], (l, k) => l.append(inv(e[10 + n + k])))
    pure def vec(o: int): List[C] = range(0, n).foldl([], (l, k) => { val q = 10 + 2 * n + 4 * k + o l.append((e[q], e[q + 1])) })
    val h1 = vec(0)
    val h2 = vec(2)
    val ip = innerAt(f, w, h1, h2, e[5])
    val mt = matchOf(k0, N, w, h1, h2)
    val tol = d(1, 11)
    val cont = at > 0 and p[1] == e[1] and e[0] != 0
    chk(at, "inner-product", e[6], ip, tol).concat(chk(at, "match", e[7], mt, tol))
      .concat(chk(at, "inner-product-of-models", e[8], ip, tol)).concat(chk(at, "match-of-models", e[9], mt, tol))
      .concat(must(at, "range", and { e[6] >= 0, e[6] <= S + tol, e[7] >= 0, e[7] <= S + tol }, imax(e[6], e[7])))
      .concat(must(at, "match-at-least-inner", e[5] != 0 or e[7] >= e[6] - tol, e[6] - e[7]))
      .concat(must(at, "self", e[0] != 6 or and { abs(e[6] - S) <= tol, abs(e[7] - S) <= tol }, e[6]))
      .concat(must(at, "invariant-inner", not(cont and (e[0] == 1 or e[0] == 2 or e[0] == 3)) or abs(e[6] - p[6]) <= tol, e[6] - p[6]))
      .concat(must(at, "symmetric-inner", not(cont and e[0] == 4 and e[5] == 0) or abs(e[6] - p[6]) <= tol, e[6] - p[6]))
      .concat(must(at, "invariant-match", not(cont and (e[0] <= 5 or e[0] == 7)) or abs(e[7] - p[7]) <= tol, e[7] - p[7]))
  }

  var l: int
  var bad: List[Bad]
  var points: int
  var seen: List[int]
  action init = all { l' = 0, bad' = [], points' = 0, seen' = [0, 0, 0, 0, 0, 0, 0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = EVENTS[l]
    all { l' = l + 1, bad' = bad.concat(judge(e, EVENTS[imax(0, l - 1)], l)), points' = points + 4, seen' = seen.replaceAt(e[0], seen[e[0]] + 1) }
  }
}
