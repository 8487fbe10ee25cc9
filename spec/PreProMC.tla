------------------------------ MODULE PreProMC ------------------------------
EXTENDS PrePro, IOUtils
VARIABLES c, s, h
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT
Kind == IF "KIND" \in DOMAIN IOEnv THEN IOEnv.KIND ELSE "deposit"
Open1 == [k |-> "anyone", mem |-> FALSE, al |-> <<>>, dl |-> <<>>]
No == [k |-> "none", d |-> "", a |-> "0", r |-> "always"]
D(k, d, a, r) == [k |-> k, d |-> d, a |-> a, r |-> r]
C0 == [kind |-> "single", dep |-> No, pol |-> Open1, fund |-> "1", close |-> TRUE, period |-> 2, veto |-> 1, aveto |-> 1,
       vmn |-> TRUE, vmt |-> FALSE, powers |-> [alice |-> "100", bob |-> "1", carol |-> "0", dave |-> "0"]]
Refs == {"always", "only_passed", "never"}
Cfgs ==
  CASE Kind = "deposit" -> { [C0 EXCEPT !.kind = k, !.dep = D("native", "ua1", "2", r)] : k \in {"single", "multiple"}, r \in Refs }
    [] Kind = "policy" -> { [C0 EXCEPT !.kind = k, !.pol = p] : k \in {"single", "multiple"},
                              p \in {Open1, [k |-> "specific", mem |-> TRUE, al |-> <<"zoe">>, dl |-> <<>>]} }
    [] OTHER -> { [C0 EXCEPT !.kind = k, !.dep = D("native", "ua1", "2", r)] : k \in {"approval", "approver"}, r \in Refs }
Prop(by, q, m, v) == [o |-> "propose", by |-> by, funds |-> q, title |-> "t", msgs |-> m, vote |-> v]
F(d, a) == [d |-> d, a |-> a]
Pay == [k |-> "pay", a |-> "1"]
Draw == [k |-> "withdraw", d |-> [k |-> "none", d |-> ""]]
ById(x, o, m) == { [o |-> o, m |-> m, by |-> "alice", id |-> i] : i \in 1..Len(x.props[m]) }
Votes(x, m) == { [o |-> "vote", m |-> m, by |-> "alice", id |-> i, v |-> v] : i \in 1..Len(x.props[m]), v \in {"yes", "no"} }
Vetoes(x, m) == { [o |-> "veto", m |-> m, by |-> w, id |-> i] : i \in 1..Len(x.props[m]), w \in {"vera"} }
Life(x, m) == ById(x, "exec", m) \cup ById(x, "close", m) \cup Votes(x, m) \cup Vetoes(x, m)
Adv == {[o |-> "adv", n |-> 1, s |-> 5]}
Room(x) == Len(x.props["m"]) + Cardinality(DOMAIN x.pend) < 3
Proposals(x) ==
  IF ~Room(x) THEN {}
  ELSE { Prop("bob", q, <<Pay>>, "none") : q \in {<<>>, <<F("ua1", "2")>>, <<F("ua1", "1")>>, <<F("ub1", "2")>>, <<F("ua1", "2"), F("ub1", "2")>>} }
       \cup { Prop("alice", <<F("ua1", "2")>>, <<Draw>>, v) : v \in {"yes", "no"} }
DepOps(x) ==
  Proposals(x) \cup Life(x, "m") \cup Adv
  \cup { [o |-> "cfg", c |-> "pp", by |-> "dao", dep |-> d, pol |-> [Open1 EXCEPT !.k = "keep"]] : d \in {No, D("cw20", "tA", "3", "always"), D("native", "ua1", "0", "always")} }
  \cup { [o |-> "withdraw", c |-> "pp", by |-> w, d |-> [k |-> "none", d |-> ""]] : w \in {"dao", "alice"} }
  \cup {[o |-> "allow", by |-> "bob", d |-> "tA", a |-> "4"], [o |-> "gift", by |-> "bob", d |-> "ua1", a |-> "1"]}
L0 == {<<"*">>, <<"bob">>, <<"zoe", "bob">>}
PolOps(x) ==
  { [o |-> "pol", c |-> "pp", by |-> "dao", dadd |-> a, drm |-> <<"*">>, mem |-> m, aadd |-> b, arm |-> <<"*">>] : a \in L0, b \in L0, m \in {"keep", "n"} }
  \cup { [o |-> "pol", c |-> "pp", by |-> w, dadd |-> <<"*">>, drm |-> a, mem |-> "keep", aadd |-> <<"*">>, arm |-> b] : a \in L0, b \in L0, w \in {"dao", "alice"} }
  \cup { [o |-> "cfg", c |-> "pp", by |-> "dao", dep |-> No, pol |-> p] : p \in
           {[Open1 EXCEPT !.dl = <<"bob", "bob">>], [k |-> "specific", mem |-> FALSE, al |-> <<>>, dl |-> <<>>], [k |-> "specific", mem |-> FALSE, al |-> <<"zoe">>, dl |-> <<"bob">>]} }
  \cup (IF Room(x) THEN { Prop(w, <<>>, <<>>, "none") : w \in {"bob", "carol", "zoe"} } ELSE {})
  \cup { [o |-> "power", who |-> "bob", p |-> p] : p \in {"0", "1"} }
  \cup { [o |-> "dprop", by |-> "zoe", title |-> "t", msgs |-> <<>>, vote |-> "none", named |-> n] : n \in BOOLEAN }
ApprOps(x) ==
  (IF Room(x) /\ x.seq < 3 THEN {Prop("bob", <<F("ua1", "2")>>, <<Pay>>, "none"), Prop("bob", <<>>, <<>>, "none"), Prop("alice", <<F("ua1", "2")>>, <<Draw>>, "yes")} ELSE {})
  \cup Life(x, "m") \cup (IF Approver(x) THEN Life(x, "a") ELSE {}) \cup Adv
  \cup (IF Approver(x) THEN { [o |-> "reset", by |-> w] : w \in {"adao", "alice"} } ELSE {})
  \cup { [o |-> k, by |-> w, id |-> i] : k \in {"approve", "reject"}, i \in 1..x.seq, w \in {"boss", "bob", "dao"} \cup (IF Approver(x) THEN {"adao"} ELSE {}) }
  \cup { [o |-> "approver", by |-> x.approver, who |-> "bob"], [o |-> "approver", by |-> "dao", who |-> "bob"] }
  \cup { [o |-> "cfg", c |-> "pp", by |-> "dao", dep |-> D("native", "ua1", "1", "never"), pol |-> [Open1 EXCEPT !.k = "keep"]] }
Ops(x) == CASE Kind = "deposit" -> DepOps(x) [] Kind = "policy" -> PolOps(x) [] OTHER -> ApprOps(x)
M == INSTANCE MC WITH MCfgs <- Cfgs, MOps <- Ops, TInit <- Init, TApply <- Apply, TInv <- Inv, TStep <- StepP
Spec == M!MSpec
Invs == M!MInv
EmitC == M!MEmit
View == M!MView
=============================================================================
