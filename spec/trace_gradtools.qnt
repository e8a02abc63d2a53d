/// Every recorded automatic derivative of a tool is the derivative of the function the specification
/// defines, taken by central differences of relative step 10^-12 in 50-digit arithmetic.
/// Event: kind, sid, mode, six arguments, two values, then d(first)/d(argument) x 6, d(second)/d(argument) x 6, these in units of 2^20
module trace_gradtools {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import tooldefs.* from "./tooldefs"
  import trace_data.* from "./trace_data"

  pure val HUGE = 3 * 10^59
  pure val GHUGE = HUGE * 10^8
  type Bad = { ev: int, k: int, clause: str, got: int, limit: int }
  pure val NAMES = List("ms_to_Mc_eta", "Mc_eta_to_ms", "lambdas_to_lambda_tildes", "lambdas_to_lambda_tildes_from_q", "lambda_tildes_to_lambdas",
    "lambda_tildes_to_lambdas_from_q", "get_chi_eff", "get_f_isco", "multipoles", "kappa", "merger-frequency", "taper", "sine-gaussian")
  pure def outs(k: int): int = if (Set(T_CHIEFF, T_ISCO, T_KAPPA, T_MERGER, T_TAPER).contains(k)) 1 else 2

  /// the symmetric mass ratio the tool works with
  pure def etaUsed(k: int, a: List[int]): int =
    if (k == T_MCETA) etaOf(a[0], a[1]) else if (k == T_MASSES) a[1]
    else if (k == T_TILDES or k == T_LAMBDAS) etaOf(a[2], a[3]) else if (k == T_TILDESQ or k == T_LAMBDASQ) etaOfQ(a[2]) else 0
  /// away from the joint of the universal relation, and from the ends of the taper
  pure def decided(k: int, a: List[int]): bool =
    if (k == T_QUAD) abs(a[0] - S) > d(1, 6)
    else if (k == T_TAPER) { val y = div(a[0], a[1]) abs(y - S) > d(1, 3) and abs(y - d(12, 1)) > d(1, 3) }
    else true

  pure def judge(e: List[int], n: int): List[Bad] = {
    val k = e[0]
    val na = ARITY[k]
    val a = e.slice(3, 3 + na)
    val w = tool(k, a)
    val rows = range(0, na).foldl([], (l, j) => {
      val sc = scaleOf(k, a, j)
      val h = imax(mul(sc, d(1, 12)), 10^8)
      // one-sided where the argument may not become negative
      val low = k == T_QUAD and a[j] < h
      val hi = tool(k, a.replaceAt(j, a[j] + (if (low) 2 * h else h)))
      val lo = tool(k, a.replaceAt(j, a[j] - (if (low) 0 else h)))
      // derivative per scale of the argument
      l.append(((mul(div(hi._1 - lo._1, 2 * h), sc)), (mul(div(hi._2 - lo._2, 2 * h), sc))))
    })
    val big = rows.foldl((abs(w._1), abs(w._2)), (m, r) => (imax(m._1, abs(r._1)), imax(m._2, abs(r._2))))
    val del = deltaOf(etaUsed(k, a))
    val tol = d(1, 9) + div(d(1, 14), imax(sq(del), d(1, 9)))
    if (not(decided(k, a))) []
    else range(0, na).foldl([], (l, j) => {
      val g1 = if (abs(e[11 + j]) < HUGE) 2^20 * e[11 + j] else e[11 + j] * 10^9
      val g2 = if (abs(e[17 + j]) < HUGE) 2^20 * e[17 + j] else e[17 + j] * 10^9
      val sc = scaleOf(k, a, j)
      val ok1 = abs(g1) < GHUGE and abs(mul(g1, sc) - rows[j]._1) <= mul(big._1, tol) + 10^12
      val ok2 = outs(k) == 1 or abs(g2) < GHUGE and abs(mul(g2, sc) - rows[j]._2) <= mul(big._2, tol) + 10^12
      if (ok1 and ok2) l
      else l.append({ ev: n, k: j, clause: NAMES[k], got: if (ok1) (if (abs(g2) < GHUGE) abs(mul(g2, sc) - rows[j]._2) else S) else if (abs(g1) < GHUGE) abs(mul(g1, sc) - rows[j]._1) else S, limit: mul(imax(big._1, big._2), tol) })
    })
  }

  var l: int
  var bad: List[Bad]
  var points: int
  var seen: List[int]
  action init = all { l' = 0, bad' = [], points' = 0, seen' = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = EVENTS[l]
    all { l' = l + 1, bad' = bad.concat(judge(e, l)), points' = points + ARITY[e[0]] * outs(e[0]), seen' = seen.replaceAt(e[0], seen[e[0]] + 1) }
  }
}
