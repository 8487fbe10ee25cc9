------------------------------- MODULE NftMC -------------------------------
EXTENDS Nft, IOUtils
VARIABLES c, s, h
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT
Kind == IF "KIND" \in DOMAIN IOEnv THEN IOEnv.KIND ELSE "power"
NoD == [k |-> "none", v |-> 0]
DH(n) == [k |-> "h", v |-> n]
DT(n) == [k |-> "t", v |-> n]
NoThr == [k |-> "none", v |-> "0"]
Pct(v) == [k |-> "pct", v |-> v]
Cnt(v) == [k |-> "cnt", v |-> v]
Own3 == [t1 |-> "alice", t2 |-> "alice", t3 |-> "bob"]
C0 == [kind |-> "cw721", src |-> "existing", own |-> Own3, dur |-> NoD, act |-> NoThr]
CO == [C0 EXCEPT !.kind = "onft"]
Founding ==
  { [C0 EXCEPT !.src = x, !.own = o, !.dur = d, !.act = a] : x \in {"existing", "new", "factory", "nodata", "badmsg", "notnft", "nomint"}, o \in {Own3, EmptyF, [t1 |-> "bob"]}, d \in {NoD, DH(1), DT(0)},
     a \in {NoThr} \cup { Cnt(v) : v \in {"0", "1", "2", "3", "4"} } \cup { Pct(v) : v \in {"0", "1", E18, "1000000000000000001"} } }
  \cup { [CO EXCEPT !.own = o, !.dur = d, !.act = a] : o \in {Own3, [t1 |-> "bob"]}, d \in {NoD, DH(1), DT(0)}, a \in {NoThr} \cup { Cnt(v) : v \in {"0", "1", "3", "4"} } \cup { Pct(v) : v \in {"0", "1", E18, "1000000000000000001"} } }
Cfgs ==
  CASE Kind = "power" -> { [C0 EXCEPT !.src = x] : x \in {"existing", "new", "factory", "nodata", "badmsg", "notnft", "nomint"} } \cup {[C0 EXCEPT !.dur = DH(1)], [C0 EXCEPT !.dur = DT(0)]}
    [] Kind = "onft" -> { [CO EXCEPT !.dur = d] : d \in {NoD, DH(1)} }
    [] Kind = "claims" -> { [C0 EXCEPT !.dur = d] : d \in {NoD, DH(1), DT(10)} }
    [] Kind = "found" -> Founding
    [] OTHER -> { [C0 EXCEPT !.act = a] : a \in {NoThr, Cnt("2"), Cnt("3"), Cnt("4"), Cnt("0"), Pct("0"), Pct(E18), Pct("1000000000000000001"), Pct("333333333333333333"), Pct("333333333333333334"), Pct("666666666000000000"), Pct("666666667000000000")} }
                \cup { [C0 EXCEPT !.src = "new", !.act = a] : a \in {Cnt("3"), Cnt("4"), Cnt("0"), Pct("500000000000000000")} }
Step(n) == [o |-> "adv", n |-> n, s |-> 5 * n]
St(w, i) == [o |-> "stake", by |-> w, t |-> "nft", id |-> i]
Un(w, q) == [o |-> "unstake", by |-> w, ids |-> q]
Mv(w, to, i) == [o |-> "move", by |-> w, to |-> to, id |-> i]
Hk(w, b) == [o |-> "hook", by |-> w, who |-> "l1", add |-> b]
PowerOps(x) ==
  { St(w, i) : w \in {"alice", "bob"}, i \in {"t1", "t2", "t3"} } \cup { Un(w, q) : w \in {"alice", "bob"}, q \in {<<"t1">>, <<"t1", "t2">>, <<"t1", "t1">>, <<"t3">>, <<>>} }
  \cup {Step(0), Step(1), Mv("alice", "bob", "t1"), Mv("bob", "alice", "t1"), [o |-> "stake", by |-> "alice", t |-> "fake", id |-> "t1"], [o |-> "recv", by |-> "alice", id |-> "t1"]}
  \cup { [o |-> "at", h |-> k] : k \in {x.now.h - 1, x.now.h, x.now.h + 1} }
  \cup { Hk(w, b) : w \in {"dao", "alice"}, b \in BOOLEAN } \cup {[o |-> "fail", who |-> "l1", on |-> TRUE]}
  \cup { [o |-> "page", who |-> "alice", after |-> a, limit |-> l] : a \in {"", "t1"}, l \in {-1, 1} }
OnftOps(x) ==
  { [o |-> k, by |-> w, ids |-> q] : k \in {"prep", "conf"}, w \in {"alice", "bob"}, q \in {<<"t1">>, <<"t3", "t1">>} } \cup { Mv(w, to, i) : w \in {"alice", "bob"}, to \in {"vote", "bob"}, i \in {"t1", "t3"} }
  \cup { [o |-> "cancel", by |-> w, ids |-> q, to |-> to] : w \in {"alice", "bob", "dao"}, q \in {<<"t1">>, <<"t3">>, <<"t1", "t3">>}, to \in {"", "bob"} }
  \cup { Un(w, <<i>>) : w \in {"alice", "bob"}, i \in {"t1", "t3"} } \cup {Step(1), [o |-> "claim", by |-> "alice"]}
ClaimOps(x) ==
  { St(w, i) : w \in {"alice", "bob"}, i \in {"t1", "t2", "t3"} } \cup { Un(w, q) : w \in {"alice", "bob"}, q \in {<<"t1">>, <<"t2", "t1">>, <<"t3">>} } \cup { [o |-> "claim", by |-> w] : w \in {"alice", "bob"} }
  \cup {Step(1), Step(2)} \cup { [o |-> "dur", by |-> w, d |-> d] : w \in {"dao", "alice"}, d \in {NoD, DH(2), DT(0)} }
ActiveOps(x) ==
  { St(w, i) : w \in {"alice", "bob"}, i \in {"t1", "t2", "t3"} } \cup { Un("alice", <<"t1">>) } \cup {Step(1)}
  \cup { [o |-> "thr", by |-> "dao", t |-> t] : t \in {NoThr, Cnt("0"), Cnt("3"), Cnt("4"), Pct("0"), Pct("1000000000000000001"), Pct("600000000000000000"), Pct("333333333000000000")} }
  \cup {[o |-> "thr", by |-> "alice", t |-> NoThr], [o |-> "mint", to |-> "alice", id |-> "t4"], [o |-> "burn", by |-> "bob", id |-> "t3"]}
FoundOps(x) == (IF x.kind = "onft" THEN {[o |-> "prep", by |-> "carol", ids |-> <<"t1">>]} ELSE { St("alice", "t1"), St("bob", "t1") }) \cup { Un("alice", <<"t1">>), [o |-> "dur", by |-> "alice", d |-> NoD] }
Ops(x) == CASE Kind = "found" -> FoundOps(x) [] Kind = "power" -> PowerOps(x) [] Kind = "onft" -> OnftOps(x) [] Kind = "claims" -> ClaimOps(x) [] OTHER -> ActiveOps(x)
M == INSTANCE MC WITH MCfgs <- Cfgs, MOps <- Ops, TInit <- Init, TApply <- Apply, TInv <- Inv, TStep <- StepP
Spec == M!MSpec
Invs == M!MInv
EmitC == M!MEmit
View == M!MView
=============================================================================
