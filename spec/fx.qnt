// -*- mode: Bluespec; -*-
/// Fixed-point real arithmetic over Quint's unbounded integers.
///
/// A real number r is represented by the integer nearest to r * 10^50, so every
/// reference value of the specification carries about 45 significant decimal digits
/// (double precision has 16).  Everything below is total: arguments outside the
/// mathematical domain give 0 (ln, div) instead of an evaluation error, so that
/// a trace is always judged and never crashes the checker.
module fx {
  pure val S = 10^50
  pure val PI  = 314159265358979323846264338327950288419716939937511
  pure val LN2 = 69314718055994530941723212145817656807550013436026
  pure val TWO_PI = 2 * PI

  /// the decimal literal n * 10^-k
  pure def d(n: int, k: int): int = if (k <= 50) n * 10^(50 - k) else n / 10^(k - 50)
  /// the integer n as a real
  pure def i(n: int): int = n * S
  /// the rational n/m as a real
  pure def rat(n: int, m: int): int = (n * S) / m

  pure def abs(x: int): int = if (x < 0) -x else x
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b
  pure def sgn(x: int): int = if (x < 0) -1 else if (x > 0) 1 else 0

  pure def mul(a: int, b: int): int = (a * b) / S
  pure def div(a: int, b: int): int = if (b == 0) 0 else (a * S) / b
  pure def inv(a: int): int = div(S, a)
  pure def sq(a: int): int = mul(a, a)
  pure def cube(a: int): int = mul(a, mul(a, a))
  pure def mul3(a: int, b: int, c: int): int = mul(a, mul(b, c))
  pure def powi(a: int, n: int): int = range(0, n).foldl(S, (acc, _k) => mul(acc, a))

  /// Horner evaluation of c[0] + c[1] x + c[2] x^2 + ...
  pure def poly(c: List[int], x: int): int =
    range(0, c.length()).foldl(0, (acc, k) => mul(acc, x) + c[c.length() - 1 - k])

  /// number of binary digits of n >= 0 (at most 2047)
  pure def bits(n: int): int =
    List(1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1)
      .foldl((n, 0), (acc, s) => if (acc._1 >= 2^s) (acc._1 / 2^s, acc._2 + s) else acc)._2

  /// integer square root (exact to one unit)
  pure def isqrt(n: int): int =
    if (n <= 0) 0 else range(0, 10).foldl(2^(bits(n) / 2 + 1), (g, _k) => (g + n / g) / 2)
  pure def sqrt(x: int): int = isqrt(x * S)

  pure def cbrt(x: int): int =
    if (x == 0) 0 else {
      val n = abs(x) * S * S
      val r = range(0, 14).foldl(2^(bits(n) / 3 + 1), (g, _k) => (2 * g + n / (g * g)) / 3)
      if (x < 0) -r else r
    }

  /// (saturates far outside the range of doubles, so that it is total)
  pure def exp(arg: int): int = {
    val x = imax(-2000 * S, imin(2000 * S, arg))
    val k = x / LN2
    val z = (x - k * LN2) / 256
    val t = range(0, 17).foldl(S, (acc, j) => S + mul(z, acc) / (17 - j))
    val e = range(0, 8).foldl(t, (a, _k) => mul(a, a))
    if (k >= 0) e * 2^k else e / 2^(-k)
  }

  pure val LN_TAB = List(
    3077165866675368837102820759677216409169673995889, 8961215868968713261995146937848452878518541204910,
    14518200984449789728193506374056432352257691536636, 19782574332991988036257207119696146907525783078168,
    24783616390458125678060276574652474799890979759803, 29546421289383587638668190605496419518163551308028,
    34092658697059321030508919978035620844308179811274, 38441169891033203973479006248129086851854983021895,
    42608439531090006312454487959547661889666878736245, 46608972992459922455861924750476939985819289860722,
    50455601075239528705830853173817492998247708110994, 54159728243274437157654230390043409896980753640466,
    57731536503482360431811206151949640150736914732060, 61180154110599290352988976642881478368584611752918,
    64513796137358470166522849613473190593818107127998, 67739882359180614080968260999734829855456517342608)

  pure def lnGe1(x: int): int = {
    val mk = List(512, 256, 128, 64, 32, 16, 8, 4, 2, 1)
      .foldl((x, 0), (acc, s) => if (acc._1 >= S * 2^s) (acc._1 / 2^s, acc._2 + s) else acc)
    // one more halving when the loop stopped at m >= 2
    val m = mk._1
    val j = imin(15, ((m - S) * 16) / S)
    val c = S + (2 * j + 1) * (S / 32)
    val z = div(m - c, m + c)
    val z2 = mul(z, z)
    val series = range(0, 15).foldl(0, (acc, q) => mul(acc, z2) + S / (2 * (14 - q) + 1))
    mk._2 * LN2 + LN_TAB[j] + 2 * mul(z, series)
  }
  pure def ln(x: int): int =
    if (x <= 0) 0 else if (x >= S) lnGe1(x) else -lnGe1((S * S) / x)

  /// x^(n/m) for x > 0
  pure def powr(x: int, n: int, m: int): int = if (x <= 0) 0 else exp((n * ln(x)) / m)
  /// x^y for x > 0
  pure def pow(x: int, y: int): int = if (x <= 0) 0 else exp(mul(y, ln(x)))

  pure val ATAN_TAB = List(
    3123983343026827625371174489249097703249566372540, 9347678115858946350452719331206047882316494677436,
    15499674192394098230371437493349219105560612064909, 21535769969773804802445962716648965049901905319307,
    27416745111965879759937189834217580155419630096432, 33109607670413209494433878775694454546857032459624,
    38588266939807377589769548460723141175404423975824, 43833655985795780544561604921477133002913420943593,
    48833395105640552386716496074706483735842892355161, 53581123796046370026908506870769140709890052453945,
    58075635356767039920327447500150086209864126588767, 62319932993406593099247534906037459508738841568185,
    66320299270609325536325431023827587326325604711573, 70085440788445017245795128178675126809014041263578,
    73625742898142813174283527108914666283196790068719, 76952648040565826040682003598565401886847943010664,
    80078156517804346054903241602845257456391290844778)

  pure def atan01(x: int): int = {
    val j = imin(16, (x * 16) / S)
    val c = (2 * j + 1) * (S / 32)
    val z = div(x - c, S + mul(x, c))
    val z2 = mul(z, z)
    val series = range(0, 18).foldl(0, (acc, q) => {
      val n = 17 - q
      val t = S / (2 * n + 1)
      (if (n % 2 == 0) t else -t) + mul(acc, z2)
    })
    ATAN_TAB[j] + mul(z, series)
  }
  pure def atanPos(x: int): int = if (x <= S) atan01(x) else PI / 2 - atan01((S * S) / x)
  pure def atan(x: int): int = if (x < 0) -atanPos(-x) else atanPos(x)
  /// the angle of the vector (x, y), in (-pi, pi]; 0 for the null vector
  pure def atan2(y: int, x: int): int =
    if (x == 0 and y == 0) 0
    else if (abs(x) >= abs(y))
      (if (x > 0) atan(div(y, x)) else if (y >= 0) PI + atan(div(y, x)) else atan(div(y, x)) - PI)
    else
      (if (y > 0) PI / 2 - atan(div(x, y)) else -(PI / 2) - atan(div(x, y)))
  pure def acos(x: int): int = atan2(sqrt(S - mul(x, x)), x)

  /// (cos x, sin x)
  pure def cis(x: int): (int, int) = {
    val q = x / (PI / 2) + (if (x < 0) -1 else 0)
    val r = (x - (q * PI) / 2) / 16
    val r2 = mul(r, r)
    val c0 = range(0, 15).foldl(S, (acc, j) => { val n = 15 - j S - mul(r2, acc) / ((2 * n - 1) * (2 * n)) })
    val s0 = mul(r, range(0, 15).foldl(S, (acc, j) => { val n = 15 - j S - mul(r2, acc) / ((2 * n) * (2 * n + 1)) }))
    val cs = range(0, 4).foldl((c0, s0), (a, _k) => (mul(a._1, a._1) - mul(a._2, a._2), 2 * mul(a._1, a._2)))
    val m = ((q % 4) + 4) % 4
    if (m == 0) (cs._1, cs._2)
    else if (m == 1) (-(cs._2), cs._1)
    else if (m == 2) (-(cs._1), -(cs._2))
    else (cs._2, -(cs._1))
  }
  pure def cos(x: int): int = cis(x)._1
  pure def sin(x: int): int = cis(x)._2

  // complex numbers: (re, im)
  pure def cadd(a: (int, int), b: (int, int)): (int, int) = (a._1 + b._1, a._2 + b._2)
  pure def csub(a: (int, int), b: (int, int)): (int, int) = (a._1 - b._1, a._2 - b._2)
  pure def cmul(a: (int, int), b: (int, int)): (int, int) =
    (mul(a._1, b._1) - mul(a._2, b._2), mul(a._1, b._2) + mul(a._2, b._1))
  pure def cscale(s: int, a: (int, int)): (int, int) = (mul(s, a._1), mul(s, a._2))
  pure def cconj(a: (int, int)): (int, int) = (a._1, -(a._2))
  pure def cabs2(a: (int, int)): int = mul(a._1, a._1) + mul(a._2, a._2)
  /// modulus without loss of precision for tiny (strain-sized) numbers
  pure def cabs(a: (int, int)): int = isqrt(a._1 * a._1 + a._2 * a._2)
  /// largest absolute component of a complex difference: cheap norm used in comparisons
  pure def cdist(a: (int, int), b: (int, int)): int = imax(abs(a._1 - b._1), abs(a._2 - b._2))
  pure def carg(a: (int, int)): int = atan2(a._2, a._1)

  /// |a - b| <= tol with tol a real
  pure def near(a: int, b: int, tol: int): bool = abs(a - b) <= tol
  /// |a - b| <= rel * max(|a|,|b|) + absTol
  pure def close(a: int, b: int, rel: int, absTol: int): bool =
    abs(a - b) <= mul(rel, imax(abs(a), abs(b))) + absTol

  // -------------------------------------------------------------- linear systems
  /// Gaussian elimination with partial pivoting; rows are [a_1 .. a_n, b]
  pure def solve(rows: List[List[int]]): List[int] = {
    val n = rows.length()
    val tri = range(0, n).foldl(rows, (m, k) => {
      val p = range(k, n).foldl(k, (best, r) => if (abs(m[r][k]) > abs(m[best][k])) r else best)
      val sw = m.replaceAt(k, m[p]).replaceAt(p, m[k])
      val prow = sw[k]
      range(k + 1, n).foldl(sw, (m2, r) => {
        val f = div(m2[r][k], prow[k])
        m2.replaceAt(r, range(0, n + 1).foldl(List(), (l, c) => l.append(m2[r][c] - mul(f, prow[c]))))
      })
    })
    range(0, n).foldl(range(0, n).foldl(List(), (l, _k) => l.append(0)), (xs, q) => {
      val r = n - 1 - q
      val s = range(r + 1, n).foldl(tri[r][n], (acc, c) => acc - mul(tri[r][c], xs[c]))
      xs.replaceAt(r, div(s, tri[r][r]))
    })
  }
}
