module fx_test {
  import fx.* from "./fx"
  var n: int
  pure val u = 10^8   // 1e-42
  run expLnTest = { n' = 0 }.then(all {
    assert(range(1, 60).foldl(true, (b, k) => and { b,
      near(ln(exp(rat(7 * k - 200, 13))), rat(7 * k - 200, 13), u),
      close(exp(ln(rat(k * k * k, 17))), rat(k * k * k, 17), d(1, 42), 0) })),
    assert(near(exp(S), 271828182845904523536028747135266249775724709369996, 10^5)),
    assert(near(ln(i(10)), 230258509299404568401799145468436420760110148862877, 10^5)),
    n' = 1 })
  run rootTest = { n' = 0 }.then(all {
    assert(range(1, 80).foldl(true, (b, k) => and { b,
      close(sq(sqrt(rat(k * k * k, 10^k))), rat(k * k * k, 10^(k)), d(1, 20), 10),
      close(cube(cbrt(rat(k * k * 10^k, 7))), rat(k * k * 10^k, 7), d(1, 45), 10) })),
    assert(near(sqrt(i(2)), 141421356237309504880168872420969807856967187537694, 10)),
    assert(near(powr(i(2), 1, 3), cbrt(i(2)), 10^6)),
    n' = 1 })
  run trigTest = { n' = 0 }.then(all {
    assert(range(-60, 60).foldl(true, (b, k) => {
      val x = rat(37 * k, 11)
      val c = cis(x)
      and { b, near(cabs2(c), S, 1000),
        near(atan2(c._2, c._1), x - TWO_PI * ((x + (if (x < 0) -PI else PI)) / TWO_PI), 10000) } })),
    assert(near(atan(S), PI / 4, 100)), assert(near(cos(PI / 3), S / 2, 100)),
    assert(near(sin(-(PI) / 6), -(S) / 2, 100)), assert(near(acos(-(S) / 2), 2 * PI / 3, 1000)),
    n' = 1 })
  run solveTest = { n' = 0 }.then(all {
    assert({ val x = solve(List(List(0, i(2), i(1), i(7)), List(i(1), i(1), i(1), i(6)), List(i(3), 0, i(-1), 0)))
      and { near(x[0], S, 100), near(x[1], 2 * S, 100), near(x[2], 3 * S, 100) } }),
    n' = 1 })
  action init = n' = 0
  action step = n' = n
}
