/// The differentiable tools of the library as functions of a list of numbers.
module tooldefs {
  import fx.* from "./fx"
  import binary.* from "./binary"
  import nrtidal.* from "./nrtidal"
  import sinegauss.* from "./sinegauss"

  pure val T_MCETA = 0  pure val T_MASSES = 1  pure val T_TILDES = 2  pure val T_TILDESQ = 3  pure val T_LAMBDAS = 4  pure val T_LAMBDASQ = 5
  pure val T_CHIEFF = 6  pure val T_ISCO = 7  pure val T_QUAD = 8  pure val T_KAPPA = 9  pure val T_MERGER = 10  pure val T_TAPER = 11  pure val T_BURST = 12
  pure val TOOLS = 13
  pure val ARITY = List(2, 2, 4, 3, 4, 3, 4, 1, 1, 4, 4, 2, 6)
  pure def tool(k: int, a: List[int]): (int, int) =
    if (k == T_MCETA) toMcEta(a[0], a[1])
    else if (k == T_MASSES) toMasses(a[0], a[1])
    else if (k == T_TILDES) lambdaTildes(a[0], a[1], a[2], a[3])
    else if (k == T_TILDESQ) lambdaTildesQ(a[0], a[1], a[2])
    else if (k == T_LAMBDAS) lambdas(a[0], a[1], a[2], a[3])
    else if (k == T_LAMBDASQ) lambdasEta(a[0], a[1], etaOfQ(a[2]))
    else if (k == T_CHIEFF) (chiEff(a[0], a[1], a[2], a[3]), 0)
    else if (k == T_ISCO) (fIsco(a[0]), 0)
    else if (k == T_QUAD) quadOct(a[0])
    else if (k == T_KAPPA) (kappaEff(a[0], a[1], a[2], a[3]), 0)
    else if (k == T_MERGER) (mergerFreq(a[0], a[1], kappaEff(a[0], a[1], a[2], a[3])), 0)
    else if (k == T_TAPER) (planck(a[0], a[1]), 0)
    else burstAt(prepareSG({ q: a[0], f: a[1], hrss: a[2], phase: a[3], ecc: a[4] }), a[5])
  /// the scale on which an argument varies
  pure def scaleOf(k: int, a: List[int], j: int): int =
    if (k == T_BURST and j >= 3) (if (j == 5) div(a[0], mul(TWO_PI, a[1])) else S)
    else if (k == T_CHIEFF and j >= 2) S
    else if (k == T_BURST) a[j]
    else imax(abs(a[j]), if ((k == T_TILDES or k == T_TILDESQ or k == T_LAMBDAS or k == T_LAMBDASQ) and j < 2 or (k == T_KAPPA or k == T_MERGER) and j >= 2) i(10) else d(1, 3))
}
