/// The first-generation curve is a formula: no table.
module noise_table {
  pure val CURVE = 0
  pure val ASD = false
  pure val ROWS = 1
  pure val CHUNKS: List[int] = [0]
}
