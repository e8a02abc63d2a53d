/// Accepts recorded padding calls exactly when they follow the machine in pads.qnt.
/// Event: action, sid, k0, k1, spacing, how, bump, offset, first, last, spacing value,
///        low, high, non-zero entries, warned uneven, warned misaligned, raised
module trace_pads {
  import fx.* from "./fx"
  import pads_def.* from "./pads_def"
  import trace_data.* from "./trace_data"
  type Bad = { ev: int, k: int, clause: str, got: int, limit: int }
  pure def must(n: int, c: str, ok: bool, got: int): List[Bad] = if (ok) [] else [{ ev: n, k: 0, clause: c, got: got, limit: 0 }]

  pure def judge(e: List[int], at: int): List[Bad] = {
    val g = { k0: e[2], k1: e[3], spacing: e[4], how: e[5], bump: e[6], offset: e[7] == 1 }
    val off = if (g.offset) e[10] / 2 else 0
    // the grid really is the one described (single precision: to its rounding)
    val slack = mul(e[9], if (g.how == 4) d(1, 6) else d(1, 12)) + 10
    val honest = abs(e[8] - off - g.k0 * e[10]) <= slack and abs(e[9] - off - g.k1 * e[10]) <= slack
    if (not(honest)) must(at, "not-a-grid", false, e[8])
    else if (g.offset) must(at, "misaligned-warning", e[15] == 1, 0).concat(must(at, "raised", e[16] == 0, 0))
    else if (not(even(g))) must(at, "uneven-warning", e[14] == 1, 0).concat(must(at, "raised", e[16] == 0, 0))
    else must(at, "raised", e[16] == 0, 0).concat(must(at, "low-pad", e[11] == low(g), e[11] * S)).concat(must(at, "high-pad", e[12] == high(g), e[12] * S))
      .concat(must(at, "zeros", e[13] == 0, e[13]))
      .concat(must(at, "spurious-warning", not(exact(g.spacing)) or (e[14] == 0 and e[15] == 0), 0))
  }
  var l: int
  var bad: List[Bad]
  var points: int
  var seen: List[int]
  action init = all { l' = 0, bad' = [], points' = 0, seen' = [0, 0, 0, 0, 0, 0, 0, 0] }
  action step = all {
    l < EVENTS.length(),
    val e = EVENTS[l]
    all { l' = l + 1, bad' = bad.concat(judge(e, l)), points' = points + 1, seen' = seen.replaceAt(e[0], seen[e[0]] + 1) }
  }
}
