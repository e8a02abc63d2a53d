/// A user builds a frequency grid, extends it, changes its spacing, or spoils it, and asks for the
/// zero padding that makes it ready for an inverse FFT.
module pads {
  import pads_def.* from "./pads_def"

  var g: Grid
  var act: str
  var sid: int
  action init = all { g' = { k0: 1, k1: 3, spacing: 0, how: 0, bump: -1, offset: false }, act' = "init", sid' = 0 }
  action grow(a: str, x: Grid): bool = all { valid(x), g' = x, act' = a, sid' = if (a == "New") sid + 1 else sid }
  action begin(maxk: int, maxn: int): bool = {
    nondet k0 = oneOf(0.to(maxk))
    nondet n = oneOf(2.to(maxn))
    nondet s = oneOf(0.to(SPACINGS - 1))
    nondet h = oneOf(0.to(HOWS - 1))
    grow("New", { k0: k0, k1: if (k0 + n - 1 < 2) 2 else k0 + n - 1, spacing: s, how: h, bump: -1, offset: false })
  }
  action extendTop(m: int): bool = { nondet k = oneOf(1.to(m)) grow("ExtendTop", g.with("k1", g.k1 + k)) }
  action extendBottom = all { g.k0 > 0, grow("ExtendBottom", g.with("k0", g.k0 - 1)) }
  action respace = { nondet s = oneOf(0.to(SPACINGS - 1)) grow("Respace", g.with("spacing", s)) }
  action rewrite = { nondet h = oneOf(0.to(HOWS - 1)) grow("Rewrite", g.with("how", h)) }
  /// move one interior sample by a fifth of the spacing
  action spoil = { nondet j = oneOf(0.to(10^6)) all { g.k1 - g.k0 >= 2, grow("Spoil", g.with("bump", g.k0 + 1 + j % (g.k1 - g.k0 - 1))) } }
  action repair = grow("Repair", g.with("bump", -1).with("offset", false))
  /// move the whole grid by half a spacing
  action misalign = grow("Misalign", g.with("offset", true).with("bump", -1))

  action change(m: int): bool = any { extendTop(m), extendBottom, respace, respace, rewrite, spoil, repair, repair, misalign }
  action step = {
    nondet z = oneOf(0.to(9))
    if (sid == 0 or z <= 1 or g.k1 > 40) begin(8, 12) else if (not(even(g)) or g.offset) repair else change(3)
  }
  action step_large = {
    nondet z = oneOf(0.to(9))
    if (sid == 0 or z <= 2 or g.k1 > 20000) begin(3000, 5000) else if (not(even(g)) or g.offset) repair else change(1000)
  }

  /// the padded grid has 2 k1 - 1 points: every frequency from zero to twice the last, less one step
  val padded = low(g) + (g.k1 - g.k0 + 1) + high(g) == 2 * g.k1 - 1
  val nonNegative = low(g) >= 0 and high(g) >= 0
  val invariant = padded and nonNegative
}
