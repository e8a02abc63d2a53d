/// Parameter conversions as a state machine: one physical binary, held in one of several
/// representations; actions convert it, change the mass unit, exchange the labels of the bodies,
/// or ask for a derived quantity.  Whatever the order of the actions, the binary stays the same.
module convert_sys {
  import fx.* from "./fx"
  import binary.* from "./binary"

  /// mass representation: 0 component masses, 1 chirp mass and symmetric mass ratio
  /// tidal representation: 0 per body, 1 combined
  type Sys = { mrep: int, x: int, y: int, trep: int, u: int, v: int, c1: int, c2: int }

  pure def uni(r: int, k: int): int = ((r / 10^(9 * k)) % 10^9) * 10^41
  pure def lerp(lo: int, hi: int, u: int): int = lo + mul(hi - lo, u)
  pure def geo(lo: int, hi: int, u: int): int = exp(lerp(ln(lo), ln(hi), u))

  // ---------------------------------------------------------------- actions on the exact system
  pure val A_NEW = 0  pure val A_TOMCETA = 1  pure val A_TOMS = 2  pure val A_UNIT = 3  pure val A_SWAP = 4
  pure val A_CHIEFF = 5  pure val A_ISCO = 6  pure val A_TILDE = 7  pure val A_TILDEQ = 8  pure val A_BACK = 9  pure val A_BACKQ = 10

  /// (m1, m2) of a system, as held
  pure def massesOf(s: Sys): (int, int) = if (s.mrep == 0) (s.x, s.y) else toMasses(s.x, s.y)
  pure def etaSys(s: Sys): int = if (s.mrep == 0) etaOf(s.x, s.y) else s.y

  pure def apply(s: Sys, a: int, k: int): Sys =
    if (a == A_TOMCETA) { val r = toMcEta(s.x, s.y) s.with("mrep", 1).with("x", r._1).with("y", r._2) }
    else if (a == A_TOMS) { val r = toMasses(s.x, s.y) s.with("mrep", 0).with("x", r._1).with("y", r._2) }
    else if (a == A_UNIT) s.with("x", mul(s.x, k)).with("y", if (s.mrep == 0) mul(s.y, k) else s.y)
    else if (a == A_SWAP) s.with("x", s.y).with("y", s.x).with("c1", s.c2).with("c2", s.c1)
    else if (a == A_TILDE or a == A_TILDEQ) { val r = lambdaTildesEta(s.u, s.v, etaSys(s)) s.with("trep", 1).with("u", r._1).with("v", r._2) }
    else if (a == A_BACK or a == A_BACKQ) { val r = lambdasEta(s.u, s.v, etaSys(s)) s.with("trep", 0).with("u", r._1).with("v", r._2) }
    else s
  /// what the call returns
  pure def answer(s: Sys, a: int): (int, int) =
    if (a == A_CHIEFF) (chiEff(s.x, s.y, s.c1, s.c2), 0)
    else if (a == A_ISCO) (fIsco(s.x), 0)
    else (0, 0)

  /// actions possible in a system (body labels of the tidal parameters are fixed by the masses: no exchange there)
  pure def possible(s: Sys, tidal: bool): Set[int] =
    if (tidal) (if (s.trep == 0) Set(A_TILDE, A_TILDEQ) else Set(A_BACK, A_BACKQ))
    else if (s.mrep == 0) Set(A_TOMCETA, A_UNIT, A_SWAP, A_CHIEFF, A_ISCO) else Set(A_TOMS, A_UNIT)

}
