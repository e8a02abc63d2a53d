/// A user reads a detector's noise curve at nodes, between them, at the ends and outside.
module noise {
  import fx.* from "./fx"
  import noise_table.* from "./noise_table"
  import noise_def.* from "./noise_def"
  pure def uni(r: int, k: int): int = ((r / 10^(9 * k)) % 10^9) * 10^41

  var fs: List[int]        // frequencies asked for
  var rows: List[int]      // the rows they were drawn from
  var act: int             // 0 read, 1 advertised range
  var mode: int            // array, one by one, compiled, batched
  pure def draw(r: int, j: int): (int, int) = {
    val u = uni(r, 3 * j)
    val v = uni(r, 3 * j + 1)
    val z = (uni(r, 3 * j + 2) * 16) / S
    if (CURVE == 0) {
      val f = if (z == 0) i(40) else if (z == 1) i(40) + div(S, powi(i(10), (v * 12) / S)) else if (z == 2) i(40) - div(S, powi(i(10), (v * 12) / S))
        else if (z == 3) mul(i(40), v) + 1 else exp(ln(i(40)) + mul(ln(i(10000)) - ln(i(40)), v))
      (f, 0)
    } else {
      val k = (u * (ROWS - 1)) / S
      // rows at the ends are drawn often
      val kk = if (z <= 1) 0 else if (z <= 3) ROWS - 2 else k
      val a = freq(kk)
      val b = freq(kk + 1)
      val f = if (z == 0) a - (if (v < S / 2) div(S, powi(i(10), (v * 24) / S)) else mul(a, v - S / 2))
        else if (z == 1 or z == 4 or z == 5) a
        else if (z == 2) b
        else if (z == 3) b + (if (v < S / 2) div(S, powi(i(10), (v * 24) / S)) else mul(b, v))
        else if (z == 6) (a + b) / 2
        else if (z == 7) a + (b - a) / 10^9
        else a + mul(b - a, v)
      (imax(f, 1), kk)
    }
  }
  action init = all { fs' = [], rows' = [], act' = -1, mode' = 0 }
  action read = {
    nondet r = oneOf(1.to(10^440))
    nondet m = oneOf(0.to(3))
    val l = range(0, 16).foldl(([], []), (acc, j) => { val x = draw(r, j) (acc._1.append(x._1), acc._2.append(x._2)) })
    all { fs' = l._1, rows' = l._2, act' = 0, mode' = m }
  }
  action step = if (act == -1) all { fs' = [], rows' = [], act' = 1, mode' = 0 } else read
}
