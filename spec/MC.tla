---------------------------------- MODULE MC ----------------------------------
(* Exhaustive exploration of a specification within small constants.          *)
(*   MCfgs     the configurations to start from                               *)
(*   MOps(s)   the operations tried in a state (those refused leave it as is)  *)
(*   TInv(s)   invariants, TStep(s, e, s2) step properties, as records         *)
(* With Emit = "found" refused configurations are visited too (and left alone). *)
(* With Emit, every state visited is printed with the operations leading to    *)
(* it and the operations accepted / refused there; these behaviours of the     *)
(* specification are then replayed on the real code.  States carry names, so    *)
(* that a behaviour coming to a known state another way can be continued.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS MCfgs, MOps(_), TInit(_), TApply(_, _), TInv(_), TStep(_, _, _), Depth, Emit
VARIABLES c, s, h

MI == \E cfg \in MCfgs : LET r == TInit(cfg) IN (r.ok \/ Emit = "found") /\ c = cfg /\ s = r.s /\ h = <<>>
Live == Emit = "found" => TInit(c).ok

MN == /\ Len(h) < Depth
      /\ Live
      /\ c' = c
      /\ \E e \in MOps(s) :
           LET r == TApply(s, e)
               bad == { n \in DOMAIN TStep(s, e, r.s) : ~TStep(s, e, r.s)[n] }
           IN /\ r.ok # "n"
              /\ Assert(bad = {}, "STEPFAIL " \o ToJson([props |-> bad, cfg |-> c, h |-> h, op |-> e]))
              /\ s' = r.s
              /\ h' = Append(h, e)
MSpec == MI /\ [][MN]_<<c, s, h>>
MInv == Live => LET bad == { n \in DOMAIN TInv(s) : ~TInv(s)[n] } IN
        Assert(bad = {}, "INVFAIL " \o ToJson([props |-> bad, cfg |-> c, h |-> h]))
\* printed once per distinct state
MEmit == IF Emit = "bfs"
         THEN PrintT("EMIT " \o ToJson([cfg |-> c, h |-> h,
                id  |-> TLCFP(<<c, s>>),
                yes |-> { [op |-> e, to |-> TLCFP(<<c, TApply(s, e).s>>)] : e \in { x \in MOps(s) : TApply(s, x).ok # "n" } },
                no  |-> { e \in MOps(s) : TApply(s, e).ok = "n" }]))
         ELSE IF Emit = "found" THEN PrintT("EMIT " \o ToJson([cfg |-> c, h |-> h, yes |-> {}, no |-> IF Live THEN { e \in MOps(s) : TApply(s, e).ok = "n" } ELSE {}]))
         ELSE IF Emit = "walk" /\ Len(h) = Depth
         THEN PrintT("EMIT " \o ToJson([cfg |-> c, h |-> h, yes |-> {}, no |-> { e \in MOps(s) : TApply(s, e).ok = "n" }]))
         ELSE TRUE
MView == <<c, s>>
=============================================================================
