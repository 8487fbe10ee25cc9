-------------------------------- MODULE FundMC --------------------------------
EXTENDS Fund, IOUtils
VARIABLES c, s, h
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT
C0 == [past |-> <<[alice |-> "1", bob |-> "2"], [alice |-> "3", carol |-> "4"]>>, back |-> 1, dur |-> [k |-> "h", v |-> 2], src |-> "vote",
       hold |-> [una |-> [boss |-> "20", alice |-> "3"], unb |-> [boss |-> "1"], c1 |-> [boss |-> "20"], c2 |-> [bob |-> "2"]]]
Cfgs == {C0, [C0 EXCEPT !.back = 0, !.dur = [k |-> "t", v |-> 5]]}
Give(by, d, n) == [o |-> "fund", by |-> by, q |-> <<[d |-> d, n |-> n]>>]
Ops(x) ==
  (IF Open(x) THEN {Give("boss", "una", "7"), Give("boss", "c1", "10"), Give("boss", "c1", "0"), Give("boss", "una", "21"), [o |-> "fund", by |-> "boss", q |-> <<[d |-> "una", n |-> "4"], [d |-> "unb", n |-> "1"]>>], [o |-> "fund", by |-> "boss", q |-> <<>>],
                    [o |-> "fake", by |-> "bob", a |-> "5"], [o |-> "all", by |-> "alice"], [o |-> "coins", by |-> "alice", q |-> <<"una">>], [o |-> "toks", by |-> "alice", q |-> <<"c1">>]}
   ELSE {Give("boss", "una", "7"), Give("boss", "c1", "1"), [o |-> "fake", by |-> "bob", a |-> "5"]}
        \cup { [o |-> "all", by |-> w] : w \in Users } \cup { [o |-> "coins", by |-> w, q |-> q] : w \in Users, q \in {<<"una">>, <<"una", "una">>, <<>>, <<"unb", "una">>} } \cup { [o |-> "toks", by |-> w, q |-> q] : w \in {"alice", "bob"}, q \in {<<"c1">>, <<"c1", "c1">>, <<"c2">>} })
  \cup { [o |-> "again", by |-> w, back |-> b] : w \in {"boss", "alice"}, b \in {0, 2} }
  \cup {[o |-> "again", by |-> "boss", back |-> 9], [o |-> "power", m |-> [bob |-> "9"]], [o |-> "give", by |-> "boss", x |-> "una", a |-> "2"], [o |-> "adv", n |-> 1, s |-> 5], [o |-> "page", k |-> "toks", after |-> "c1", limit |-> 1]}
M == INSTANCE MC WITH MCfgs <- Cfgs, MOps <- Ops, TInit <- Init, TApply <- Apply, TInv <- Inv, TStep <- StepP
Spec == M!MSpec
Invs == M!MInv
EmitC == M!MEmit
View == M!MView
=============================================================================
