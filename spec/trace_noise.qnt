/// Accepts recorded readings of one noise curve exactly when they are its table's.
/// Event: kind, n, then n frequencies, n rows, n values (units of 10^-40 / Hz; INF: infinite)
module trace_noise {
  import fx.* from "./fx"
  import noise_table.* from "./noise_table"
  import noise_def.* from "./noise_def"
  import trace_data.* from "./trace_data"
  type Bad = { ev: int, k: int, clause: str, got: int, limit: int }
  pure val INF = 45 * 10^58
  pure val NANV = 4 * 10^59
  pure def must(n: int, k: int, c: str, ok: bool, got: int, lim: int): List[Bad] = if (ok) [] else [{ ev: n, k: k, clause: c, got: got, limit: lim }]

  /// kinds of reading: outside, at a node, between nodes, formula
  pure def kindOf(f: int, row: int): int =
    if (not(inside(f))) 0 else if (CURVE == 0) 3 else { val k = rowOf(f, row) if (k >= 0 and (f == freq(k) or f == freq(k + 1))) 1 else 2 }
  /// so close to x that, as a double, it may be x itself
  pure def beside(f: int, x: int): bool = f != x and abs(f - x) <= mul(x, d(3, 16))
  pure def judgeAt(f: int, row: int, o: int, at: int, j: int): List[Bad] = {
    // next to an end of the range or of an infinite row: either side
    val k = if (CURVE == 0) 0 else rowOf(f, row)
    val edge = beside(f, F_LOW) or beside(f, F_HIGH) or (CURVE != 0 and k >= 0 and ((infiniteRow(k) and beside(f, freq(k + 1))) or (infiniteRow(k + 1) and beside(f, freq(k)))))
    val isInf = or { not(inside(f)),
      CURVE != 0 and k >= 0 and ((infiniteRow(k) and (f != freq(k + 1) or infiniteRow(k + 1))) or (infiniteRow(k + 1) and f != freq(k))) }
    if (o == NANV) must(at, j, "not-a-number", false, f, 0)
    else if (edge and o == INF) []
    else if (isInf) must(at, j, "infinite-outside", o == INF or edge, f, 0)
    else if (o == INF) must(at, j, "finite-inside", false, f, 0)
    else if (CURVE == 0) { val w = ligoI(f) must(at, j, "formula", f > F_HIGH or abs(o - w) <= mul(w, d(1, 12)), abs(o - w), mul(w, d(1, 12))) }
    else if (k < 0) must(at, j, "row-not-found", false, f, 0)
    else if (infiniteRow(k) or infiniteRow(k + 1)) { val w = if (infiniteRow(k)) power(k + 1) else power(k) must(at, j, "node", abs(o - w) <= mul(w, d(2, 13)), abs(o - w), mul(w, d(2, 13))) }
    else {
      val w = between(k, f)
      // rounding of the frequencies is magnified by the slope of the row
      val t = mul(w, d(2, 13)) + mul(d(4, 16), mul(abs(power(k + 1) - power(k)), div(f, freq(k + 1) - freq(k))))
      must(at, j, if (kindOf(f, row) == 1) "node" else "interpolation", abs(o - w) <= t, abs(o - w), t)
    }
  }
  pure def judge(e: List[int], at: int): List[Bad] = {
    val n = e[1]
    if (e[0] == 1) must(at, 0, "range-low", abs(e[2 + 2 * n] - F_LOW) <= mul(F_LOW, d(2, 16)), e[2 + 2 * n], F_LOW)
      .concat(must(at, 1, "range-high", abs(e[3 + 2 * n] - F_HIGH) <= mul(F_HIGH, d(2, 16)), e[3 + 2 * n], F_HIGH))
    else range(0, n).foldl([], (l, j) => l.concat(judgeAt(e[2 + j], e[2 + n + j], e[2 + 2 * n + j], at, j)))
  }
  var l: int
  var bad: List[Bad]
  var points: int
  var seen: List[int]
  action init = all { l' = 0, bad' = [], points' = 0, seen' = [0, 0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = EVENTS[l]
    all { l' = l + 1, bad' = bad.concat(judge(e, l)), points' = points + e[1],
      seen' = if (e[0] == 1) seen else range(0, e[1]).foldl(seen, (s, j) => { val k = kindOf(e[2 + j], e[2 + e[1] + j]) s.replaceAt(k, s[k] + 1) }) }
  }
}
