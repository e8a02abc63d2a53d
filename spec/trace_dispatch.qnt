/// Accepts recorded requests to dispatchers exactly when each is answered by the model named, as if asked directly.
/// Event: action, dispatcher, name (index into NAMES, or -1 - index into UNKNOWN), request identity (draw), change, outcome
///        (0 answered, 1 ValueError naming the model, 2 ValueError not naming it, 3 anything else), asked directly, number of values,
///        the answer, then (if asked directly) the direct answer
module trace_dispatch {
  import fx.* from "./fx"
  import dispatch_def.* from "./dispatch_def"
  import trace_data.* from "./trace_data"
  type Bad = { ev: int, k: int, clause: str, got: int, limit: int }
  type Memo = { name: int, req: int, tw: int, v: List[int] }
  pure def must(n: int, c: str, ok: bool, got: int, lim: int): List[Bad] = if (ok) [] else [{ ev: n, k: 0, clause: c, got: got, limit: lim }]
  pure val H = 8
  pure val HUGE = 3 * 10^59
  /// the same waveform: equal up to rounding at every frequency (an expected undefined value is not compared)
  pure def far(a: List[int], b: List[int]): int = a.indices().fold(0, (m, k) =>
    if (abs(b[k]) >= HUGE) (if (abs(a[k]) >= HUGE) m else HUGE) else imax(m, abs(a[k] - b[k])))
  pure def magnitude(b: List[int]): int = b.foldl(0, (m, x) => if (abs(x) >= HUGE) m else imax(m, abs(x)))
  pure def agree(at: int, c: str, a: List[int], b: List[int]): List[Bad] =
    if (a.length() != b.length()) must(at, c, false, a.length(), b.length())
    else { val t = mul(magnitude(b), d(1, 12)) + 10^6 must(at, c, far(a, b) <= t, far(a, b), t) }
  pure def judge(e: List[int], at: int, made: int, memo: List[Memo]): List[Bad] =
    if (e[2] < 0) must(at, if (e[5] == 0) "unknown-name-answered" else "unknown-name-error", e[5] == 1, e[5], 1)
    else if (e[5] != 0) must(at, "known-name-refused", false, e[5], 0)
    else {
      val v = e.slice(H, H + e[7])
      (if (e[6] == 1) agree(at, "named-model", v, e.slice(H + e[7], H + 2 * e[7])) else [])
        .concat(memo.foldl([], (l, m) => if (m.name == e[2] and m.req == e[3] and m.tw == e[4]) l.concat(agree(at, "same-request", v, m.v)) else l))
        .concat(must(at, "owner", e[1] < made, e[1], made))
    }
  var l: int
  var bad: List[Bad]
  var points: int
  var memo: List[Memo]
  var made: int
  var seen: List[int]
  action init = all { l' = 0, bad' = [], points' = 0, memo' = [], made' = 0, seen' = [0, 0, 0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = EVENTS[l]
    all { l' = l + 1, bad' = if (e[0] == 0) bad else bad.concat(judge(e, l, made, memo)), points' = points + (if (e[0] == 0) 0 else e[7]),
      made' = if (e[0] == 0) made + 1 else made,
      memo' = if (e[0] != 0 and e[2] >= 0 and e[5] == 0 and e[6] == 1) memo.append({ name: e[2], req: e[3], tw: e[4], v: e.slice(H, H + e[7]) }) else memo,
      seen' = seen.replaceAt(e[0], seen[e[0]] + 1) }
  }
}
