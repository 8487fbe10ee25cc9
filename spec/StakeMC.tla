------------------------------ MODULE StakeMC ------------------------------
EXTENDS Stake, IOUtils
VARIABLES c, s, h
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT
Kind == IF "KIND" \in DOMAIN IOEnv THEN IOEnv.KIND ELSE "power"
NoD == [k |-> "none", v |-> 0]
DH(n) == [k |-> "h", v |-> n]
DT(n) == [k |-> "t", v |-> n]
NoThr == [k |-> "none", v |-> "0"]
Pct(v) == [k |-> "pct", v |-> v]
Cnt(v) == [k |-> "cnt", v |-> v]
C0 == [kind |-> "token", src |-> "existing", bals |-> [alice |-> "5", bob |-> "4", carol |-> "0", dave |-> "0"], dbal |-> "0", dur |-> NoD, act |-> NoThr]
\* foundings
Founding ==
  LET B == { [alice |-> a, bob |-> b, carol |-> "0", dave |-> "0"] : a \in {"0", "1", "3"}, b \in {"0", "1"} }
      A == {NoThr} \cup { Cnt(v) : v \in {"0", "1", "2", "4", "5"} } \cup { Pct(v) : v \in {"0", "1", E18, "1000000000000000001"} }
      D == {NoD, DH(1), DT(0)}
      X == [two |-> "", max |-> "4", dnull |-> TRUE, meta |-> "none"]
  IN { C0 @@ X : x \in {1} }
     \cup { [C0 EXCEPT !.src = x, !.bals = b, !.dbal = d, !.act = a] @@ X : x \in {"existing", "new", "factory", "btsg", "unminted", "nodata", "badmsg"}, b \in B, d \in {"0", "1"}, a \in A }
     \cup { [C0 EXCEPT !.src = x, !.bals = b, !.dur = d] @@ [X EXCEPT !.two = w, !.meta = "units", !.max = m] : x \in {"existing", "new", "btsg"}, b \in B, d \in D, w \in {"", "alice"}, m \in {"1", "3"} }
     \cup { [C0 EXCEPT !.kind = "cw20", !.src = "new", !.bals = b, !.dbal = d, !.act = a] @@ X : b \in B, d \in {"0", "1"}, a \in A }
     \cup { [C0 EXCEPT !.kind = "cw20", !.src = x, !.bals = b, !.act = a] @@ X : x \in {"fresh", "shared", "mismatch"}, b \in B, a \in A }
     \cup { [C0 EXCEPT !.kind = "cw20", !.src = x, !.bals = b, !.dur = d] @@ [X EXCEPT !.two = IF x = "new" THEN w ELSE ""] : x \in {"new", "fresh", "shared", "mismatch"}, b \in B, d \in D, w \in {"", "alice"} }
Cfgs ==
  CASE Kind = "power" -> { [C0 EXCEPT !.kind = "token", !.src = x] : x \in {"existing", "factory", "unminted", "nodata", "badmsg"} }
                         \cup { [C0 EXCEPT !.kind = "cw20", !.src = x, !.dur = d] : x \in {"new", "fresh", "shared", "mismatch"}, d \in {NoD, DH(1), DH(0)} }
    [] Kind = "claims" -> { [C0 EXCEPT !.kind = k, !.src = IF k = "token" THEN @ ELSE "new", !.dur = d] : k \in {"token", "cw20"}, d \in {NoD, DH(1), DT(10)} }
    [] Kind = "active" -> { [C0 EXCEPT !.kind = k, !.src = x[1], !.dbal = x[2], !.act = a] : k \in {"token"}, x \in {<<"existing", "0">>, <<"factory", "3">>},
                               a \in {NoThr, Cnt("9"), Cnt("10"), Cnt("0"), Pct("0"), Pct(E18), Pct("1000000000000000001"), Pct("333333333333333333"), Pct("555555555555555556")} }
                          \cup { [C0 EXCEPT !.kind = "cw20", !.src = x[1], !.dbal = x[2], !.act = a] : x \in {<<"new", "0">>, <<"fresh", "0">>, <<"new", "3">>},
                               a \in {NoThr, Cnt("9"), Cnt("10"), Cnt("0"), Pct("0"), Pct(E18), Pct("333333333333333334")} }
    [] Kind = "found" -> Founding
    [] OTHER -> { [C0 EXCEPT !.kind = "cw20", !.src = "new", !.dur = d] : d \in {NoD, DH(1)} }
\* one way of staking for both kinds
St(x, w, a) == [o |-> "stake", by |-> w, t |-> "token", a |-> a, funds |-> <<[d |-> "ugov", a |-> a]>>]
Un(w, a) == [o |-> "unstake", by |-> w, a |-> a]
Step(n) == [o |-> "adv", n |-> n, s |-> 5 * n]
PowerOps(x) ==
  { St(x, w, a) : w \in {"alice", "bob"}, a \in {"0", "2", "6"} } \cup { Un(w, a) : w \in {"alice", "bob"}, a \in {"0", "1", "2"} }
  \cup {Step(0), Step(1), [o |-> "move", by |-> "bob", to |-> "pool", a |-> "1"]}
  \cup { [o |-> "at", h |-> k] : k \in {x.now.h - 1, x.now.h, x.now.h + 1} }
  \cup { [o |-> "hook", by |-> w, who |-> "l1", add |-> b] : w \in {"dao", "alice"}, b \in BOOLEAN } \cup {[o |-> "fail", who |-> "l1", on |-> TRUE]}
ClaimOps(x) ==
  { St(x, w, "3") : w \in {"alice", "bob"} } \cup { Un(w, a) : w \in {"alice", "bob"}, a \in {"1", "2"} } \cup { [o |-> "claim", by |-> w] : w \in {"alice", "bob"} }
  \cup {Step(1), Step(2)} \cup { [o |-> "dur", by |-> w, d |-> d] : w \in {"dao", "alice"}, d \in {NoD, DH(2), DT(0)} }
ActiveOps(x) ==
  { St(x, w, a) : w \in {"alice", "bob"}, a \in {"3", "4", "5"} } \cup { Un("alice", "1") } \cup {Step(1)}
  \cup { [o |-> "thr", by |-> w, t |-> t] : w \in {"dao"}, t \in {NoThr, Cnt("0"), Cnt("9"), Cnt("10"), Pct("0"), Pct("1000000000000000001"), Pct("600000000000000000"), Pct("555555555555555556")} }
  \cup {[o |-> "thr", by |-> "alice", t |-> NoThr], [o |-> "mint", to |-> "alice", a |-> "3"], [o |-> "burn", by |-> "bob", a |-> "1"]}
ShareOps(x) ==
  { St(x, w, a) : w \in {"alice", "bob"}, a \in {"1", "3"} } \cup { Un(w, a) : w \in {"alice", "bob"}, a \in {"1", "2"} }
  \cup { [o |-> "fund", by |-> "bob", t |-> "token", a |-> a] : a \in {"1", "2"} } \cup {[o |-> "claim", by |-> "alice"], Step(1), [o |-> "move", by |-> "bob", to |-> "pool", a |-> "1"]}
FoundOps(x) == { St(x, "alice", "1"), Un("alice", "1"), [o |-> "own", by |-> "boss", act |-> "accept", who |-> ""], [o |-> "dur", by |-> "alice", d |-> NoD] }
Ops(x) == CASE Kind = "found" -> FoundOps(x) [] Kind = "power" -> PowerOps(x) [] Kind = "claims" -> ClaimOps(x) [] Kind = "active" -> ActiveOps(x) [] OTHER -> ShareOps(x)
M == INSTANCE MC WITH MCfgs <- Cfgs, MOps <- Ops, TInit <- Init, TApply <- Apply, TInv <- Inv, TStep <- StepP
Spec == M!MSpec
Invs == M!MInv
EmitC == M!MEmit
View == M!MView
=============================================================================
