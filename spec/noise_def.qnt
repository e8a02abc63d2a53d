/// Detector noise: what a curve is between, at and beyond the rows of its table.
/// Power densities are in units of 10^-40 / Hz; a zero entry of the table stands for an infinite one.
module noise_def {
  import fx.* from "./fx"
  import noise_table.* from "./noise_table"

  /// frequency and power density of row k
  pure def freq(k: int): int = ((CHUNKS[k / 64] / 10^(60 * (k % 64))) % 10^30) * 10^30
  pure def power(k: int): int = {
    val v = (CHUNKS[k / 64] / 10^(60 * (k % 64) + 30)) % 10^30
    // (v 10^-44)^2 or v 10^-66, times 10^40, as fixed point
    if (ASD) v * v * 100 else v * 10^24
  }
  pure val F_LOW = if (CURVE == 0) i(40) else freq(0)
  pure val F_HIGH = if (CURVE == 0) i(10000) else freq(ROWS - 1)

  pure def ligoI(f: int): int = {
    val x = f / 150
    mul(d(9, 6), inv(powi(mul(d(449, 2), x), 56)) + div(d(16, 2), powr(x, 452, 100)) + d(52, 2) + mul(d(32, 2), sq(x)))
  }
  /// is f inside the curve's range?
  pure def inside(f: int): bool = if (CURVE == 0) f > F_LOW else f >= F_LOW and f <= F_HIGH
  /// linear interpolation between rows k and k + 1
  pure def between(k: int, f: int): int =
    power(k) + ((power(k + 1) - power(k)) * (f - freq(k))) / (freq(k + 1) - freq(k))
  pure def infiniteRow(k: int): bool = CURVE != 0 and power(k) == 0
  /// the row f lies in, searched next to a guess
  pure def rowOf(f: int, guess: int): int =
    List(-2, -1, 0, 1, 2).foldl(-1, (r, j) => { val k = guess + j if (r >= 0 or k < 0 or k > ROWS - 2) r else if (freq(k) <= f and f <= freq(k + 1)) k else r })
}
}
