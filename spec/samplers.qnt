/// A user makes several samplers and draws from them, again and again, with new and old keys.
module samplers {
  import fx.* from "./fx"
  import samplers_def.* from "./samplers_def"
  var pool: List[Sampler]
  var hist: List[Req]
  var req: Req
  var act: str
  pure val NONE = { s: { kind: 0, lo1: 0, hi1: S, lo2: 0, hi2: S }, seed: 0, form: 0, n: 0, jit: false }
  pure def uni(r: int, k: int): int = ((r / 10^(9 * k)) % 10^9) * 10^41
  pure def geo(a: int, b: int, u: int): int = exp(ln(a) + mul(ln(b) - ln(a), u))

  pure def drawSampler(z: int, r: int): Sampler = {
    val a = geo(d(1, 1), i(100), uni(r, 0))
    val wa = geo(d(1, 2), i(100), uni(r, 1))
    val b = geo(d(1, 1), i(100), uni(r, 2))
    val wb = geo(d(1, 2), i(100), uni(r, 3))
    if (z == 0) { kind: 0, lo1: a, hi1: a + wa, lo2: mul(d(20, 2), uni(r, 4)), hi2: d(25, 2) }        // chirp mass and mass ratio
    else if (z == 1) { kind: 0, lo1: b, hi1: b + wb, lo2: d(1, 2), hi2: d(1, 2) + mul(d(24, 2), uni(r, 4)) }
    else if (z == 2) { kind: 1, lo1: a, hi1: a + wa, lo2: a, hi2: a + wa }                               // equal ranges
    else if (z == 3) { kind: 1, lo1: a, hi1: a + wa, lo2: a + wa / 3, hi2: a + wa + wb }                 // overlapping
    else if (z == 4) { kind: 1, lo1: a, hi1: a + wa, lo2: a + 2 * wa, hi2: a + 2 * wa + wb }             // first below second
    else if (z == 5) { kind: 1, lo1: b + 2 * wb, hi1: b + 3 * wb, lo2: b, hi2: b + wb }                  // first above second
    else if (z == 6) { kind: 1, lo1: a, hi1: a + wa, lo2: a + wa / 4, hi2: a + wa / 2 }                  // nested
    else if (z == 8) { kind: 0, lo1: a, hi1: a + wa, lo2: mul(d(9, 1), uni(r, 4)), hi2: S }              // mass ratio
    else if (z == 9) { kind: 0, lo1: -wa, hi1: a, lo2: b, hi2: b + wb }                                  // two parameters of any kind
    else if (z == 10) { kind: 0, lo1: div(a, i(10^5)), hi1: div(a + wa, i(10^5)), lo2: b * 10^4, hi2: (b + wb) * 10^4 }  // tiny and huge
    else if (z == 11) { kind: 1, lo1: b * 10^4, hi1: (b + wb) * 10^4, lo2: div(a, i(10^5)), hi2: (b + wb) * 10^4 }
    else { kind: 1, lo1: -a, hi1: wa, lo2: -b, hi2: wb }                                                 // any two parameters
  }
  pure def drawN(z: int): int = List(0, 1, 2, 3, 8, 50, 301, 4096, 4096, 6000, 20000, 150000)[z % 12]
  action make = {
    nondet z = oneOf(0.to(12))
    nondet r = oneOf(1.to(10^60))
    nondet j = oneOf(0.to(2))
    val s = drawSampler(z, r)
    all { pool' = if (pool.length() < 3) pool.append(s) else pool.replaceAt(j, s), hist' = hist, req' = req, act' = "Make" }
  }
  action ask(a: str, q: Req): bool = all { pool' = pool, hist' = if (hist.length() < 12) hist.append(q) else hist.tail().append(q), req' = q, act' = a }
  action draw = {
    nondet j = oneOf(0.to(99))
    nondet kz = oneOf(0.to(5))
    nondet k = oneOf(0.to(62))
    nondet r = oneOf(0.to(2^63 - 1))
    nondet f = oneOf(0.to(3))
    nondet z = oneOf(0.to(11))
    nondet c = oneOf(0.to(3))
    val seed = if (kz == 0) k else if (kz == 1) (req.seed + 1) % 2^63 else if (kz <= 3) (req.seed + 2^k) % 2^63 else if (kz == 4) r % 2^32 else r
    ask("Draw", { s: pool[j % pool.length()], seed: seed, form: f, n: drawN(z), jit: c == 0 })
  }
  /// the same request as before, perhaps compiled this time, whatever happened in between
  action again = {
    nondet j = oneOf(0.to(99))
    nondet c = oneOf(0.to(3))
    ask("Again", hist[j % hist.length()].with("jit", c == 0))
  }
  /// the key and the count of the last request, made differently or for a neighbouring seed
  action vary = {
    nondet z = oneOf(0.to(4))
    nondet k = oneOf(0.to(62))
    ask("Vary", if (z == 0) req.with("form", (req.form + 1) % 4) else if (z == 1) req.with("form", (req.form + 2) % 4)
      else if (z == 2) req.with("seed", (req.seed + 2^k) % 2^63) else if (z == 3) req.with("seed", (req.seed + 2^32) % 2^63) else req.with("seed", (req.seed + 1) % 2^63))
  }
  action init = all { pool' = [], hist' = [], req' = NONE, act' = "init" }
  action step = {
    nondet z = oneOf(0.to(9))
    if (pool.length() == 0 or z == 0) make else if (hist.length() == 0 or z <= 4) draw else if (z <= 6) again else vary
  }
  /// the bins' probabilities always add up to one and every column range is inside the box
  val normalised = pool.indices().forall(k => { val s = pool[k] and {
    abs(total(s) - S) <= 10^3, colLo(s, 0) <= colHi(s, 0), colLo(s, 1) <= colHi(s, 1), boxLo(s, 0) <= colLo(s, 0), colHi(s, 1) <= boxHi(s, 1) } })
  val invariant = normalised and hist.length() <= 12 and pool.length() <= 3
}
