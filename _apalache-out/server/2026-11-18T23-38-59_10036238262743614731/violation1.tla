---------------------------- MODULE counterexample ----------------------------

EXTENDS session_abs

(* Constant initialization state *)
ConstInit == TRUE

(* Initial state [_transition(0)] *)
State0 ==
  act = "Any"
    /\ amp0 = SetAsFun({ <<1, 0>>, <<2, 0>>, <<3, 0>> })
    /\ base
      = [c |-> 2,
        d |-> 1,
        grid |-> <<1, 2, 3>>,
        mode |-> 0,
        p |-> 0,
        r |-> 0,
        s |-> 0,
        t |-> 0]
    /\ fault = 2
    /\ foreign = FALSE
    /\ memo
      = [obs |-> <<>>,
        req |->
          [c |-> 2,
            d |-> 0,
            grid |-> <<1, 2, 3>>,
            mode |-> 0,
            p |-> 0,
            r |-> 0,
            s |-> 0,
            t |-> 0],
        set |-> FALSE]
    /\ obs = <<[amp |-> 0, cross |-> 2, ph |-> -3, plus |-> 8]>>
    /\ obsBase
      = <<
        [amp |-> -1, cross |-> 2, ph |-> -1, plus |-> 8], [amp |-> -1,
          cross |-> 2,
          ph |-> -1,
          plus |-> 8], [amp |-> -1, cross |-> 2, ph |-> -1, plus |-> 8]
      >>
    /\ ph0 = SetAsFun({ <<1, -1>>, <<2, -1>>, <<3, -1>> })
    /\ ref0 = SetAsFun({ <<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 0>> })
    /\ req
      = [c |-> 2,
        d |-> 0,
        grid |-> <<2>>,
        mode |-> 0,
        p |-> 0,
        r |-> 0,
        s |-> 0,
        t |-> -1]

(* The following formula holds true in the last state and violates the invariant *)
InvariantViolation ==
  LET shift_si_2 ==
    IF req["r"] = base["r"]
    THEN 0
    ELSE obs[1]["ph"]
      - (LET j_si_3 == req["grid"][1] - 1 IN
      [amp |->
          (obsBase[(j_si_3 + 1)]["amp"] + req["s"] - base["s"])
            - (req["d"] - base["d"]),
        ph |->
          obsBase[(j_si_3 + 1)]["ph"] - req["grid"][1] * (req["t"] - base["t"])
            + 2 * (req["p"] - base["p"]),
        plus |-> 4 + req["c"] * req["c"],
        cross |-> req["c"]])[
        "ph"
      ]
  IN
  ~(Len(obs) = Len(req["grid"]))
    \/ Skolem((\E j_589_2 \in LET __quint_var0_si_2 == DOMAIN obs IN
    IF __quint_var0_si_2 = {}
    THEN {}
    ELSE { t_3_1 \in __quint_var0_si_2 \union {0}: ~(t_3_1 \in {(Len(obs))}) }:
      LET w_si_2 ==
        LET j_si_4 == req["grid"][(j_589_2 + 1)] - 1 IN
        [amp |->
            (obsBase[(j_si_4 + 1)]["amp"] + req["s"] - base["s"])
              - (req["d"] - base["d"]),
          ph |->
            obsBase[(j_si_4 + 1)]["ph"]
              - req["grid"][(j_589_2 + 1)] * (req["t"] - base["t"])
              + 2 * (req["p"] - base["p"]),
          plus |-> 4 + req["c"] * req["c"],
          cross |-> req["c"]]
      IN
      ((~(obs[(j_589_2 + 1)]["amp"] = (w_si_2)["amp"])
            \/ ~(obs[(j_589_2 + 1)]["ph"] = (w_si_2)["ph"] + shift_si_2))
          \/ ~(obs[(j_589_2 + 1)]["plus"] = (w_si_2)["plus"]))
        \/ ~(obs[(j_589_2 + 1)]["cross"] = (w_si_2)["cross"])))

================================================================================
(* Created by Apalache on Wed Nov 18 23:39:09 UTC 2026 *)
(* https://github.com/apalache-mc/apalache *)
