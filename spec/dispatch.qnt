/// A user owns one or several dispatchers and asks them, by name, for waveforms of different binaries.
/// Nothing a dispatcher is asked, not even a name it does not know, changes what it or another answers later.
module dispatch {
  import fx.* from "./fx"
  import dispatch_def.* from "./dispatch_def"
  import session as ses from "./session"

  /// which dispatcher, which name, which binary (a draw), how it differs from that draw, how called
  type Asked = { who: int, name: str, r: int, tw: int, mode: str }
  var owned: int                     // dispatchers made so far
  var asked: Asked
  var call: ses::Call
  var hist: List[Asked]
  var act: str

  pure def callOf(name: str, mode: str, tw: int, r: int): ses::Call = {
    val z = r % 3240
    val t = target(if (known(name)) name else "D")
    val c = ses::drawCall(t._1, t._2, mode, false, true, z % 6, (z / 6) % 12, (z / 72) % 9, (z / 648) % 5, 4, 8, r)
    // one thing changed
    if (tw == 1) c.with("b", c.b.with("dist", 2 * c.b.dist)) else if (tw == 2) c.with("b", c.b.with("fref", (11 * c.b.fref) / 10))
    else if (tw == 3) c.with("grid", [7, 6, 5, 4, 3, 2, 1, 0]) else if (tw == 4) c.with("b", c.b.with("iota", c.b.iota / 2)) else c
  }
  action be(a: str, q: Asked, c: ses::Call): bool =
    all { owned' = owned, asked' = q, call' = c, hist' = if (known(q.name)) hist.append(q) else hist, act' = a }
  action init = all { owned' = 0, asked' = { who: 0, name: "", r: 0, tw: 0, mode: "" }, call' = ses::NONE, hist' = [], act' = "init" }
  action make = all { owned' = owned + 1, asked' = asked, call' = call, hist' = hist, act' = "Make" }
  action ask(names: List[str]): bool = {
    nondet j = oneOf(0.to(9))
    nondet n = oneOf(0.to(names.length() - 1))
    nondet r = oneOf(1.to(10^270))
    nondet m = oneOf(Set("eager", "eager", "numpy"))
    val q = { who: j % owned, name: names[n], r: r, tw: 0, mode: m }
    be("Ask", q, callOf(q.name, m, 0, r))
  }
  /// an earlier request once more, of any dispatcher
  action again = {
    nondet j = oneOf(0.to(9))
    nondet k = oneOf(0.to(99))
    val q = hist[k % hist.length()]
    be("Again", q.with("who", j % owned), callOf(q.name, q.mode, q.tw, q.r))
  }
  /// the last known request with one thing changed, of any dispatcher
  action vary = {
    nondet j = oneOf(0.to(9))
    nondet tw = oneOf(0.to(4))
    val q = hist[hist.length() - 1].with("who", j % owned).with("tw", tw)
    be("Vary", q, callOf(q.name, q.mode, tw, q.r))
  }
  action unknown = {
    nondet j = oneOf(0.to(9))
    nondet n = oneOf(0.to(UNKNOWN.length() - 1))
    be("Unknown", { who: j % owned, name: UNKNOWN[n], r: 1, tw: 0, mode: "eager" }, callOf("D", "eager", 0, 10^200))
  }
  action step = {
    nondet z = oneOf(0.to(9))
    if (owned == 0 or (z == 0 and owned < 4)) make else if (z <= 4) ask(["D", "D_NRTidalv2", "Pv2"])
    else if (hist.length() == 0) unknown else if (z <= 6) vary else if (z <= 8) again else unknown
  }
  /// with the model that is slow when not compiled
  action step_slow = {
    nondet z = oneOf(0.to(9))
    if (owned == 0) make else if (z <= 4 or hist.length() == 0) ask(["XAS", "XAS", "D"]) else if (z <= 5) unknown else if (z <= 7) vary else again
  }
  val invariant = hist.indices().forall(k => known(hist[k].name)) and owned >= 0
}
