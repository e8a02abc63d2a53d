/// Uniform frequency grids in units of their spacing, and what padding them must give.
module pads_def {
  type Grid = { k0: int, k1: int, spacing: int, how: int, bump: int, offset: bool }
  // spacing: index into SPACINGS; 0..3 exactly representable in binary, the rest not
  pure val SPACINGS = 12
  pure def exact(s: int): bool = s < 4
  // how: the ways a user writes a uniform grid (multiples, linspace, arange, running sum, single precision)
  pure val HOWS = 5

  pure def even(x: Grid): bool = x.bump < 0
  pure def valid(x: Grid): bool = x.k0 >= 0 and x.k1 > x.k0 and x.k1 >= 2
  /// lengths of the two pads
  pure def low(x: Grid): int = x.k0
  pure def high(x: Grid): int = x.k1 - 2
  pure def warnsUneven(x: Grid): bool = not(even(x))

}
