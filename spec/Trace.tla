-------------------------------- MODULE Trace --------------------------------
(* Trace validation: replays recorded executions of the real contracts        *)
(* against a specification given as                                           *)
(*   TInit(cfg)      [ok, s]   result of instantiation                         *)
(*   TApply(s, op)   [ok, s, why]  the transition; ok is "y", "n" or "any"     *)
(*   TObs(s)         projected state, a record                                 *)
(*   TInv(s)         invariants as a record name -> BOOLEAN                     *)
(* Every recorded step must have the specified success/failure and afterwards *)
(* show exactly the specified projection.  One initial state per trace, so    *)
(* TLC checks the traces in parallel.  A trace that deviates is reported      *)
(* (MISMATCH line) and abandoned at that step.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, BigInt
CONSTANTS TInit(_), TApply(_, _), TObs(_), TInv(_), Traces
VARIABLES t, l, s, mode

Report(kind, i, e, fields, exp, got) ==
  PrintT("MISMATCH " \o ToJson([kind |-> kind, trace |-> Traces[t].id, idx |-> t, step |-> i,
         op |-> e, fields |-> fields, exp |-> exp, got |-> got]))

\* a recorded step lists only the fields that differ from the step before; was
\* is the projection before the step, which the code matched
Diff(exp, got, was) == { f \in DOMAIN exp : IF f \in DOMAIN got THEN ~Same(exp[f], got[f])
                                            ELSE IF f \in DOMAIN was THEN ~Same(exp[f], was[f]) ELSE TRUE }
Restrict(r, fs) == [f \in fs |-> IF f \in DOMAIN r THEN r[f] ELSE "(missing)"]
BadInv(x) == { n \in DOMAIN TInv(x) : ~TInv(x)[n] }

Judge(i, e, exp, why, ok, got, x, was) ==
  \* TRUE iff the step conforms; reports otherwise
  IF exp # "any" /\ (exp = "y") # ok
  THEN Report("ok", i, e, {}, [ok |-> exp, why |-> why], [ok |-> ok]) /\ FALSE
  ELSE IF "obs_error" \in DOMAIN got
  THEN Report("obs", i, e, {"obs_error"}, [ok |-> exp], got) /\ FALSE
  ELSE LET o == TObs(x)
           d == IF ok \/ i > 0 THEN Diff(o, got, was) ELSE {} IN
    IF d # {} THEN Report("obs", i, e, d, Restrict(o, d), Restrict(got @@ was, d)) /\ FALSE
    ELSE IF BadInv(x) # {} THEN Report("inv", i, e, BadInv(x), [ok |-> exp], [ok |-> ok]) /\ FALSE
    ELSE TRUE

TI == /\ t \in 1..Len(Traces)
      /\ l = 0
      /\ s = TInit(Traces[t].cfg).s
      /\ mode = "start"

Start == /\ mode = "start"
         /\ UNCHANGED <<t, l, s>>
         /\ LET r == TInit(Traces[t].cfg)
                got == Traces[t].init
                good == IF r.ok # got.ok THEN Report("ok", 0, [o |-> "init"], {}, [ok |-> r.ok], [ok |-> got.ok]) /\ FALSE
                        ELSE IF ~r.ok THEN TRUE
                        ELSE Judge(0, [o |-> "init"], "y", "", got.ok, got.obs, r.s, <<>>)
            IN mode' = IF good THEN (IF r.ok THEN "run" ELSE "done") ELSE "bad"

Step == /\ mode = "run" /\ l < Len(Traces[t].steps)
        /\ LET e == Traces[t].steps[l + 1]
               r == TApply(s, e.op)
               \* where the specification leaves success open it follows the code
               x == IF e.ok THEN r.s ELSE s
               good == Judge(l + 1, e.op, r.ok, r.why, e.ok, e.obs, x, TObs(s))
           IN /\ s' = x
              /\ mode' = IF good THEN "run" ELSE "bad"
        /\ l' = l + 1
        /\ UNCHANGED t

TNext == Start \/ Step
TSpec == TI /\ [][TNext]_<<t, l, s, mode>>
TView == <<t, l, mode>>
=============================================================================
