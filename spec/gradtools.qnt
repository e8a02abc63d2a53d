/// A user of gradients who differentiates the library's tools: conversions, tidal parameters, tapers, bursts.
/// The state is the point of differentiation, moved one argument at a time.
module gradtools {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import tooldefs.* from "./tooldefs"

  pure def uni(r: int, k: int): int = ((r / 10^(9 * k)) % 10^9) * 10^41
  pure def lerp(lo: int, hi: int, u: int): int = lo + mul(hi - lo, u)
  pure def geo(lo: int, hi: int, u: int): int = exp(lerp(ln(lo), ln(hi), u))
  pure def frac(u: int, k: int): int = (u * 10^k) % S
  pure def deform(u: int, v: int): int =
    if (u < d(1, 1)) 0 else if (u < d(3, 1)) geo(d(1, 4), d(9, 1), v) else if (u < d(4, 1)) S + div(S, powi(i(10), 1 + (v * 4) / S)) else geo(S, i(10000), v)

  var kind: int
  var args: List[int]
  var mode: int      // 0 forward, 1 reverse, 2 forward compiled and batched, 3 reverse compiled
  var sid: int
  var len: int
  pure def draw(k: int, r: int): List[int] = {
    val m1 = geo(d(8, 1), i(200), uni(r, 0))
    // nearly equal down to one part in a thousand
    val m2 = mul(m1, if (uni(r, 1) < S / 4) S - div(S, powi(i(10), 1 + (frac(uni(r, 1), 1) * 2) / S)) else geo(d(2, 2), d(99, 2), uni(r, 1)))
    val l1 = deform(uni(r, 2), uni(r, 3))
    val l2 = deform(uni(r, 4), uni(r, 5))
    val c1 = if (uni(r, 6) < d(1, 1)) 0 else lerp(-d(99, 2), d(99, 2), uni(r, 6))
    val c2 = if (uni(r, 7) < d(1, 1)) 0 else lerp(-d(99, 2), d(99, 2), uni(r, 7))
    // either order of the bodies where the tool does not prescribe one
    val sw = uni(r, 8) < S / 3
    val ma = if (sw) m2 else m1
    val mb = if (sw) m1 else m2
    if (k == T_MCETA) [ma, mb]
    else if (k == T_MASSES) { val x = toMcEta(m1, m2) [x._1, x._2] }
    else if (k == T_TILDES) [l1, l2, m1, m2]
    else if (k == T_TILDESQ) [l1, l2, div(m2, m1)]
    else if (k == T_LAMBDAS) { val t = lambdaTildes(l1, l2, m1, m2) [t._1, t._2, m1, m2] }
    else if (k == T_LAMBDASQ) { val t = lambdaTildes(l1, l2, m1, m2) [t._1, t._2, div(m2, m1)] }
    else if (k == T_CHIEFF) [ma, mb, c1, c2]
    else if (k == T_ISCO) [m1]
    else if (k == T_QUAD) [l1]
    else if (k == T_KAPPA or k == T_MERGER) [m1, imax(m2, m1 / 6), l1, l2]
    else if (k == T_TAPER) { val y = geo(i(100), i(4000), uni(r, 3)) [mul(y, lerp(d(9, 1), d(13, 1), uni(r, 4))), y] }
    else {
      val q = geo(d(5, 1), i(30), uni(r, 2))
      val f = geo(i(10), i(4000), uni(r, 3))
      val e = if (uni(r, 5) < d(1, 1)) 0 else mul(d(99, 2), uni(r, 5))
      val ph = if (uni(r, 4) < d(1, 1)) 0 else lerp(-7 * S, 14 * S, uni(r, 4))
      [q, f, geo(d(1, 23), d(1, 18), uni(r, 6)), ph, e, if (uni(r, 7) < d(1, 1)) 0 else mul(div(q, mul(TWO_PI, f)), lerp(-4 * S, 4 * S, uni(r, 7)))]
    }
  }
  action init = all { kind' = -1, args' = [], mode' = 0, sid' = 0, len' = 0 }
  action begin = {
    nondet k = oneOf(0.to(TOOLS - 1))
    nondet r = oneOf(1.to(10^90))
    nondet md = oneOf(0.to(3))
    all { kind' = k, args' = draw(k, r), mode' = md, sid' = sid + 1, len' = 0 }
  }
  /// another point that differs in one argument only, or another way to differentiate
  action change = {
    nondet r = oneOf(1.to(10^90))
    nondet j = oneOf(0.to(5))
    nondet md = oneOf(0.to(3))
    val y = draw(kind, r)
    // the masses move together: the tools are defined for ordered bodies
    val z = if (j < ARITY[kind] and (kind == T_CHIEFF and j >= 2 or kind == T_KAPPA and j >= 2 or kind == T_MERGER and j >= 2 or kind == T_BURST and j != 0 and j != 1 or (kind == T_TILDES or kind == T_TILDESQ) and j < 2))
        args.replaceAt(j, y[j]) else y
    all { kind' = kind, args' = z, mode' = md, sid' = sid, len' = len + 1 }
  }
  action step = { nondet z = oneOf(0.to(2)) if (sid == 0 or len >= 6 or z == 0) begin else change }
}
