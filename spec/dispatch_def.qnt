/// The dispatcher of frequency-domain models: what each advertised name stands for.
module dispatch_def {
  /// advertised names, in the order of the models they stand for
  pure val NAMES = ["XAS", "D", "D_NRTidalv2", "Pv2"]
  /// model and function each name stands for (codes of calls.py: model, 1 polarizations, 2 polarizations from component masses)
  pure def target(name: str): (str, str) =
    if (name == "XAS") ("X", "pol") else if (name == "D") ("D", "pol") else if (name == "D_NRTidalv2") ("N", "pol")
    else if (name == "Pv2") ("P", "mass") else ("none", "none")
  pure def known(name: str): bool = target(name)._1 != "none"
  /// names nobody advertised: near misses of the real ones, full names, nonsense
  pure val UNKNOWN = ["", "d", "D ", "xas", "XP", "IMRPhenomD", "IMRPhenomPv2", "Pv3", "D_NRTidal", "TaylorF2", "NRTidalv2", "gen_IMRPhenomD_hphc"]
}
