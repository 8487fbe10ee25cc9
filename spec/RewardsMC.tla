------------------------------ MODULE RewardsMC -------------------------------
EXTENDS Rewards, IOUtils
VARIABLES c, s, h
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT
Kind == IF "KIND" \in DOMAIN IOEnv THEN IOEnv.KIND ELSE "time"
C0 == [nat |-> [boss |-> "20", alice |-> "5"], c20 |-> [boss |-> "9"], g |-> [alice |-> "1", bob |-> "2"], ft |-> [alice |-> "4", bob |-> "3"], fn |-> [alice |-> "1"], hooked |-> <<"g", "t", "n">>]
Cfgs == {C0}
Lin(a, k, v, cont) == [k |-> "lin", amt |-> a, dur |-> [k |-> k, v |-> v], cont |-> cont]
Imm == [k |-> "imm"]
Off == [k |-> "paused"]
AsIs == [k |-> "same"]
L1 == Lin("2", "h", "2", FALSE)
L2 == Lin("3", "h", "1", TRUE)
L3 == Lin("1", "t", "10", TRUE)
New(as, r, src, open, a) == [o |-> "create", by |-> "boss", as |-> as, rate |-> r, src |-> src, hook |-> src, open |-> open, dest |-> "dest", a |-> a, t |-> "ok"]
Rate(w, i, r) == [o |-> "update", by |-> w, id |-> i, rate |-> r, src |-> "", hook |-> "", open |-> "", dest |-> ""]
SStep(n) == [o |-> "adv", n |-> n, s |-> 5 * n]
Group(ws, n, rm) == [o |-> "group", add |-> IF ws = "" THEN <<>> ELSE <<[w |-> ws, n |-> n]>>, rm |-> rm]
GiveN(w, i, a) == [o |-> "fund", by |-> w, id |-> i, as |-> "nat", a |-> a]
GiveC(w, i, a) == [o |-> "fund", by |-> w, id |-> i, as |-> "c20", a |-> a]
\* shared out at once
AtOnce(x, e) ==
  LET d == IF e.id \in Ids(x) THEN x.ds[e.id] ELSE x.ds[Len(x.ds)] IN
  CASE e.o = "fund" -> d.rate.k = "imm" \/ (d.rate.k = "lin" /\ d.rate.cont /\ d.end.k # "never")
    [] e.o = "update" -> e.rate.k = "imm"
    [] OTHER -> FALSE
Fresh(x, e) == e.o \notin {"fund", "update"} \/ Len(x.ds) = 0 \/ ~AtOnce(x, e) \/ (LET d == IF e.id \in Ids(x) THEN x.ds[e.id] ELSE x.ds[Len(x.ds)] IN Changed(x, d.src) = {})
TimeOps(x) ==
  IF Len(x.ds) = 0 THEN {New("nat", L1, "g", "", "8"), New("nat", L2, "g", "n", "7"), New("nat", Imm, "g", "y", "5"), New("nat", L3, "g", "y", "0"), New("c20", L1, "g", "y", "1"), [New("nat", L1, "g", "y", "0") EXCEPT !.by = "alice"]}
  ELSE {GiveN("boss", 1, "6"), GiveN("alice", 1, "5"), Rate("boss", 1, L2), Rate("boss", 1, L3), Rate("boss", 1, Off), Rate("boss", 1, Imm), Rate("alice", 1, Off), [o |-> "claim", by |-> "alice", id |-> 1], [o |-> "claim", by |-> "bob", id |-> 1],
        [o |-> "withdraw", by |-> "boss", id |-> 1], [o |-> "withdraw", by |-> "alice", id |-> 1], SStep(0), SStep(1), SStep(2), SStep(5), Group("alice", "4", <<>>), Group("", "0", <<"bob">>), Group("carol", "1", <<"alice">>)}
\* several distributions, other sources
ManyOps(x) ==
  IF Len(x.ds) = 0 THEN {New("c20", L2, "t", "y", "0"), New("c20", Imm, "n", "n", "0")}
  ELSE IF Len(x.ds) = 1 THEN {New("nat", L1, "t", "y", "8"), New("c20", L1, "n", "", "0"), [o |-> "stake", by |-> "alice", src |-> "t", a |-> "3"], [o |-> "stake", by |-> "alice", src |-> "n", a |-> "1"], SStep(1), GiveC("boss", 1, "6")}
  ELSE {GiveC("boss", 1, "6"), GiveC("boss", 0, "3"), GiveN("boss", 2, "4"), [o |-> "claim", by |-> "alice", id |-> 1], [o |-> "claim", by |-> "alice", id |-> 2], [o |-> "claim", by |-> "bob", id |-> 1], SStep(1), SStep(3),
        [o |-> "withdraw", by |-> "boss", id |-> 1], [o |-> "stake", by |-> "alice", src |-> "t", a |-> "3"], [o |-> "stake", by |-> "bob", src |-> "t", a |-> "3"], [o |-> "stake", by |-> "alice", src |-> "n", a |-> "1"], [o |-> "unstake", by |-> "alice", src |-> "t", a |-> "1"],
        [o |-> "unstake", by |-> "alice", src |-> "n", a |-> "1"], [o |-> "news", by |-> "alice", who |-> "alice", t |-> "stake"], [o |-> "update", by |-> "boss", id |-> 1, rate |-> AsIs, src |-> "", hook |-> "alice", open |-> "n", dest |-> "bob"],
        [o |-> "offer", by |-> "boss", to |-> "alice", exp |-> [k |-> "h", v |-> 2]], [o |-> "accept", by |-> "alice"], [o |-> "page", after |-> 1, limit |-> -1]}
Ops(x) == { e \in IF Kind = "time" THEN TimeOps(x) ELSE ManyOps(x) : Fresh(x, e) }
M == INSTANCE MC WITH MCfgs <- Cfgs, MOps <- Ops, TInit <- Init, TApply <- Apply, TInv <- Inv, TStep <- StepP
Spec == M!MSpec
Invs == M!MInv
EmitC == M!MEmit
View == M!MView
=============================================================================
