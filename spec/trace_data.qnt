// placeholder; the harness writes the recorded events here (in a scratch copy of this directory)
module trace_data {
  pure val EVENTS: List[List[int]] = []
  pure val TOL = 0
}
