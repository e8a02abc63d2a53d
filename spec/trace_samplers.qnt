/// Accepts recorded draws exactly when they are in range, ordered, uniform and determined by their key.
/// Event: action, kind, lo1, hi1, lo2, hi2, seed, form, n, jit; observed: rows (-1: raised), columns, 64-bit floats,
///        distinct rows, least and greatest of column 0, of column 1, least of column 0 - column 1, binned,
///        number of rows that follow, the rows, then (if binned) three histograms of B x B counts
module trace_samplers {
  import fx.* from "./fx"
  import samplers_def.* from "./samplers_def"
  import trace_data.* from "./trace_data"
  type Bad = { ev: int, k: int, clause: str, got: int, limit: int }
  type Memo = { q: Req, rows: List[int] }
  pure def must(n: int, c: str, ok: bool, got: int, lim: int): List[Bad] = if (ok) [] else [{ ev: n, k: 0, clause: c, got: got, limit: lim }]
  pure val ROWS = 21
  pure def reqOf(e: List[int]): Req = { s: { kind: e[1], lo1: e[2], hi1: e[3], lo2: e[4], hi2: e[5] }, seed: e[6], form: e[7], n: e[8], jit: e[9] == 1 }
  pure def rowsOf(e: List[int]): List[int] = e.slice(ROWS, ROWS + 2 * e[ROWS - 1])
  /// rounding of the ends of a range
  pure def slack(s: Sampler): int = mul(imax(imax(abs(s.lo1), abs(s.hi1)), imax(abs(s.lo2), abs(s.hi2))), d(4, 16))
  pure def isIn(x: int, lo: int, hi: int, t: int): bool = lo - t <= x and x <= hi + t

  pure def range2(e: List[int], s: Sampler, at: int): List[Bad] = {
    val t = slack(s)
    must(at, "range-0", e[14] >= colLo(s, 0) - t and e[15] <= colHi(s, 0) + t, e[14], e[15])
      .concat(must(at, "range-1", e[16] >= colLo(s, 1) - t and e[17] <= colHi(s, 1) + t, e[16], e[17]))
  }
  pure def isRow(s: Sampler, a: int, b: int, t: int): bool =
    if (s.kind == 0) isIn(a, s.lo1, s.hi1, t) and isIn(b, s.lo2, s.hi2, t)
    else a >= b and ((isIn(a, s.lo1, s.hi1, t) and isIn(b, s.lo2, s.hi2, t)) or (isIn(b, s.lo1, s.hi1, t) and isIn(a, s.lo2, s.hi2, t)))
  /// Pearson's statistic over the bins with at least five expected counts; (statistic, bins, counts where none can be)
  pure def chi2(s: Sampler, c: List[int], n: int): (int, int, int) =
    0.to(B - 1).fold((0, 0, 0), (acc, x) => 0.to(B - 1).fold(acc, (a, y) => {
      val w = n * prob(s, x, y)
      val o = c[x * B + y]
      if (w == 0) (a._1, a._2, a._3 + o)
      else if (w < 5 * S) a
      else (a._1 + div(sq(o * S - w), w), a._2 + 1, a._3)
    }))
  /// far beyond any plausible fluctuation: mean k, deviation sqrt(2 k)
  pure def limit(k: int): int = k * S + 12 * sqrt(i(2 * k)) + i(40)
  pure def sum(c: List[int]): int = c.foldl(0, (a, x) => a + x)
  pure def bins(e: List[int], s: Sampler, at: int): List[Bad] = if (e[19] == 0) [] else
    range(0, 3).foldl([], (l, g) => {
      val o = ROWS + 2 * e[ROWS - 1] + g * B * B
      val c = e.slice(o, o + B * B)
      val x = chi2(s, c, sum(c))
      l.concat(must(at, "uniform", x._1 <= limit(x._2), x._1, limit(x._2))).concat(must(at, "impossible-region", x._3 == 0, x._3 * S, 0))
    })
  pure def same(a: List[int], b: List[int], t: int): bool = a.length() == b.length() and a.indices().forall(k => abs(a[k] - b[k]) <= t)
  pure def judge(e: List[int], at: int, memo: List[Memo]): List[Bad] = {
    val q = reqOf(e)
    val s = q.s
    val r = rowsOf(e)
    if (e[10] != q.n or e[11] != 2) must(at, if (e[10] < 0) "raised" else "count", false, e[10] * S, q.n * S)
    else if (q.n == 0) []
    else must(at, "double-precision", e[12] == 1, 0, 0)
      .concat(must(at, "distinct", e[13] == q.n, e[13] * S, q.n * S))
      .concat(must(at, "larger-first", s.kind == 0 or e[18] >= 0, e[18], 0))
      .concat(range2(e, s, at))
      .concat(must(at, "row", range(0, e[ROWS - 1]).foldl(true, (ok, k) => ok and isRow(s, r[2 * k], r[2 * k + 1], slack(s))), 0, 0))
      .concat(bins(e, s, at))
      .concat(memo.foldl([], (l, m) =>
        if (m.q.s != s or m.q.n != q.n) l
        else if (keyId(m.q) == keyId(q)) l.concat(must(at, "same-key", same(m.rows, r, slack(s)), m.q.seed, q.seed))
        else l.concat(must(at, "different-keys", not(same(m.rows, r, 10 * slack(s))), m.q.seed, q.seed))))
  }
  var l: int
  var bad: List[Bad]
  var points: int
  var memo: List[Memo]
  var seen: List[int]
  action init = all { l' = 0, bad' = [], points' = 0, memo' = [], seen' = [0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = EVENTS[l]
    all { l' = l + 1, bad' = bad.concat(judge(e, l, memo)), points' = points + e[8],
      memo' = if (e[8] > 0 and e[10] == e[8]) memo.append({ q: reqOf(e), rows: rowsOf(e) }) else memo,
      seen' = seen.replaceAt(e[0], seen[e[0]] + 1) }
  }
}
