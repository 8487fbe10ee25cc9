------------------------------- MODULE SwapMC --------------------------------
EXTENDS Swap, IOUtils
VARIABLES c, s, h
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT
Side1 == [who |-> "alice", kind |-> "native", tok |-> "n1", amt |-> "2"]
Cfgs == { [bal |-> "5", p1 |-> [Side1 EXCEPT !.kind = k1[1], !.tok = k1[2]],
           p2 |-> [who |-> "bob", kind |-> k2[1], tok |-> k2[2], amt |-> a]] :
          k1 \in {<<"native", "n1">>, <<"cw20", "t1">>},
          k2 \in {<<"native", "n1">>, <<"native", "n2">>, <<"cw20", "t1">>}, a \in {"1", "2"} }
Who == {"alice", "bob", "carol"}
Ops(x) == { [o |-> "withdraw", by |-> w] : w \in Who }
   \cup { [o |-> "fund", by |-> w, funds |-> <<[d |-> k, a |-> a]>>] : w \in Who, k \in {"n1", "n2"}, a \in {"1", "2"} }
   \cup { [o |-> "send", by |-> w, tok |-> k, amt |-> a] : w \in Who, k \in {"t1", "t2"}, a \in {"1", "2"} }
   \cup { [o |-> "gift", by |-> "carol", tok |-> k, amt |-> "2"] : k \in {"n1", "t1"} }
   \cup { [o |-> "forge", by |-> w, as |-> v, amt |-> "2"] : w \in Who, v \in {"alice", "bob"} }
StepP(x, e, y) ==
  [ final |-> Done(x) => y = x \/ e.o = "gift",
    \* only a party's own call moves its tokens out of its account
    own |-> \A p \in Parties : \A k \in Toks : BLt(y.bal[p][k], x.bal[p][k]) => e.by = p ]
M == INSTANCE MC WITH MCfgs <- Cfgs, MOps <- Ops, TInit <- Init, TApply <- Apply, TInv <- Inv, TStep <- StepP
Spec == M!MSpec
Invs == M!MInv
EmitC == M!MEmit
View == M!MView
=============================================================================
