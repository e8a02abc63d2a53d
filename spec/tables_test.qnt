module tables_test {
  import fx.* from "./fx"
  import phenomd_tables.* from "./phenomd_tables"
  pure def at(t: List[List[int]], k: int): int = t[k / 118][k % 118]
  pure val N = 1003
  /// the spline equations h M[k-1] + 2 (h + h') M[k] + h' M[k+1] = 6 (slope' - slope)
  pure def residual(y: List[List[int]], m: List[List[int]], k: int): int = {
    val h0 = at(QA, k) - at(QA, k - 1)
    val h1 = at(QA, k + 1) - at(QA, k)
    mul(h0, at(m, k - 1)) + 2 * mul(h0 + h1, at(m, k)) + mul(h1, at(m, k + 1))
      - 6 * (div(at(y, k + 1) - at(y, k), h1) - div(at(y, k) - at(y, k - 1), h0))
  }
  pure def notAKnot(m: List[List[int]], k: int): int = {
    val h0 = at(QA, k) - at(QA, k - 1)
    val h1 = at(QA, k + 1) - at(QA, k)
    mul(h1, at(m, k) - at(m, k - 1)) - mul(h0, at(m, k + 1) - at(m, k))
  }
  pure val tol = d(1, 40)
  run splineTest = all {
    assert(range(1, N - 1).foldl(true, (b, k) => b and abs(residual(QR, QR2, k)) < tol)),
    assert(range(1, N - 1).foldl(true, (b, k) => b and abs(residual(QD, QD2, k)) < tol)),
    assert(abs(notAKnot(QR2, 1)) < tol and abs(notAKnot(QR2, N - 2)) < tol),
    assert(abs(notAKnot(QD2, 1)) < tol and abs(notAKnot(QD2, N - 2)) < tol),
    assert(range(1, N).foldl(true, (b, k) => b and at(QA, k) > at(QA, k - 1))),
  }
}
