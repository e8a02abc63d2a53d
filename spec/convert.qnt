/// The machine of parameter conversions: see convert_sys.qnt for the states and what each action does.
module convert {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import convert_sys.* from "./convert_sys"

  // ---------------------------------------------------------------- the machine
  var sys: Sys
  var act: int
  var k: int          // unit factor of the last change of unit
  var mode: int       // 0 array, 1 tuple of floats, 2 arrays of several binaries, 3 compiled
  var sid: int
  var len: int

  action init = all { sys' = { mrep: 0, x: 0, y: 0, trep: 0, u: 0, v: 0, c1: 0, c2: 0 }, act' = -1, k' = S, mode' = 0, sid' = 0, len' = 0 }

  pure def drawSys(tidal: bool, qs: int, ls: int, r: int): Sys = {
    val lo = if (tidal) d(5, 1) else d(1, 3)
    val hi = if (tidal) i(3) else i(1000)
    val a = geo(lo, hi, uni(r, 0))
    // equal, nearly equal, moderate, extreme mass ratio
    val q = if (qs == 0) S
      else if (qs == 1) S - geo(d(1, 15), d(1, 7), uni(r, 2))
      else if (qs >= 5) S - geo(d(1, 8), d(2, 1), uni(r, 2))   // nearly equal, but told apart by double precision
      else if (qs == 2 and not(tidal)) geo(d(1, 4), d(1, 1), uni(r, 1))
      else lerp(if (tidal) d(3, 1) else d(1, 1), S, uni(r, 1))
    val b = mul(a, q)
    val sw = not(tidal) and uni(r, 3) > S / 2
    val l1 = if (ls == 0) 0 else if (ls == 1) S else mul(i(5000), sq(uni(r, 4)))
    val l2 = if (ls == 0 or ls == 2) 0 else if (ls == 3) l1 else mul(i(5000), sq(uni(r, 5)))
    { mrep: 0, x: if (sw) b else a, y: if (sw) a else b, trep: 0, u: l1, v: l2, c1: lerp(-S, S, uni(r, 6)), c2: lerp(-S, S, uni(r, 7)) }
  }
  action fresh(tidal: bool): bool = {
    nondet qs = oneOf(0.to(6))
    nondet ls = oneOf(0.to(5))
    nondet r = oneOf(1.to(10^90))
    all { sys' = drawSys(tidal, qs, ls, r), act' = A_NEW, k' = S, mode' = mode, sid' = sid + 1, len' = 0 }
  }
  action go(tidal: bool): bool = {
    nondet a = oneOf(possible(sys, tidal))
    nondet u = oneOf(1.to(10^9))
    nondet z = oneOf(0.to(2))
    nondet md = oneOf(0.to(3))
    // unit: powers of two, the solar mass in seconds or in 10^30 kg, anything
    val kk = if (a != A_UNIT) S else if (z == 0) 2 * S else if (z == 1) S / 2 else geo(d(2, 1), i(5), u * 10^41)
    all { sys' = apply(sys, a, kk), act' = a, k' = kk, mode' = md, sid' = sid, len' = len + 1 }
  }
  action step_C07 = if (sid == 0 or len >= 9 or sys.x > i(10^5) or sys.x < d(1, 5)) fresh(false) else go(false)
  action step_C08 = if (sid == 0 or len >= 8) fresh(true) else go(true)

  /// whatever happened, the machine still holds a binary with positive masses, larger first once converted
  val invariant = or { sid == 0, sys.x > 0 and sys.y > 0 }
}
