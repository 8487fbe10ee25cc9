------------------------------- MODULE StreamMC -------------------------------
EXTENDS Stream, IOUtils
VARIABLES c, s, h
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT
Kind == IF "KIND" \in DOMAIN IOEnv THEN IOEnv.KIND ELSE "ext"
C0 == [kind |-> "native", tok |-> [alice |-> "10", bob |-> "10", carol |-> "3", boss |-> "9"], rew |-> [boss |-> "30"], pre |-> <<[w |-> "alice", a |-> "3"]>>, dur |-> 3, owner |-> "boss", xstk |-> "pool",
       rate |-> "2", stk |-> "pool", dtok |-> "tok"]
CS == [C0 EXCEPT !.kind = "same"]
CC == [C0 EXCEPT !.kind = "cw20"]
Cfgs == IF Kind = "ext" THEN {C0, CS, [CC EXCEPT !.pre = <<>>]} ELSE {C0, [C0 EXCEPT !.rate = "0"]}
SStep(n) == [o |-> "adv", n |-> n, s |-> 5 * n]
ExtOps(x) ==
  { [o |-> "stake", by |-> w, a |-> a] : w \in {"alice", "bob"}, a \in {"1", "4"} } \cup { [o |-> "unstake", by |-> w, a |-> a] : w \in {"alice", "bob"}, a \in {"1", "3"} }
  \cup { [o |-> "fund", by |-> w, a |-> a, t |-> "ok"] : w \in {"boss"}, a \in {"2", "7", "9"} } \cup {[o |-> "fund", by |-> "boss", a |-> "7", t |-> t] : t \in {"other", "two"}}
  \cup { [o |-> "claim", by |-> w] : w \in {"alice", "bob"} } \cup {SStep(0), SStep(1), SStep(2), SStep(5)} \cup { [o |-> "dur", by |-> w, n |-> n] : w \in {"boss"}, n \in {0, 2} }
  \cup {[o |-> "hook", by |-> "alice", who |-> "bob"], [o |-> "accept", by |-> "bob", c |-> "ext"], [o |-> "fund", by |-> "alice", a |-> "1", t |-> "ok"]}
DistOps(x) ==
  { [o |-> "give", by |-> "boss", as |-> "tok", to |-> "dist", a |-> a] : a \in {"3", "5"} } \cup {[o |-> "dist", by |-> "alice"]} \cup { [o |-> "dcfg", by |-> w, rate |-> r, stk |-> p, tok |-> t] : w \in {"boss", "alice"}, r \in {"1", "3"}, p \in {"pool", "pool2"}, t \in {"tok", "fake"} }
  \cup { [o |-> "wd", by |-> w] : w \in {"boss", "alice"} } \cup {SStep(0), SStep(1), SStep(2), [o |-> "stake", by |-> "bob", a |-> "2"], [o |-> "unstake", by |-> "alice", a |-> "2"], [o |-> "unstake", by |-> "alice", a |-> "3"]}
  \cup { [o |-> "accept", by |-> w, c |-> "dist"] : w \in {"alice", "bob"} } \cup {[o |-> "offer", by |-> "boss", to |-> "alice", exp |-> [k |-> "h", v |-> 2], c |-> "dist"], [o |-> "renounce", by |-> "alice", c |-> "dist"]}
  \cup {[o |-> "give", by |-> "boss", as |-> "fake", to |-> "dist", a |-> "7"]}
Ops(x) == IF Kind = "ext" THEN ExtOps(x) ELSE DistOps(x)
M == INSTANCE MC WITH MCfgs <- Cfgs, MOps <- Ops, TInit <- Init, TApply <- Apply, TInv <- Inv, TStep <- StepP
Spec == M!MSpec
Invs == M!MInv
EmitC == M!MEmit
View == M!MView
=============================================================================
