----------------------------- MODULE PreProUpMC -----------------------------
(* When the upgrade comes in the middle of proposals that are being decided.   *)
EXTENDS PreProUp, IOUtils
VARIABLES c, s, h
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT
Kind == IF "KIND" \in DOMAIN IOEnv THEN IOEnv.KIND ELSE "deposit"
Open1 == [k |-> "anyone", mem |-> FALSE, al |-> <<>>, dl |-> <<>>]
Members == [k |-> "specific", mem |-> TRUE, al |-> <<>>, dl |-> <<>>]
Keep == [Open1 EXCEPT !.k = "keep"]
D(k, d, a, r) == [k |-> k, d |-> d, a |-> a, r |-> r]
C0 == [kind |-> "single", dep |-> D("native", "ua1", "2", "always"), pol |-> Open1, fund |-> "1", close |-> TRUE, period |-> 2, veto |-> 1, aveto |-> 1,
       vmn |-> TRUE, vmt |-> FALSE, powers |-> [alice |-> "100", bob |-> "1", carol |-> "0", dave |-> "0"], up |-> TRUE, past |-> 0]
Cfgs == IF Kind = "deposit"
        THEN { [C0 EXCEPT !.kind = k, !.dep = D("native", "ua1", "2", r), !.pol = p] : k \in {"single", "multiple"}, r \in {"always", "only_passed", "never"}, p \in {Open1, Members} }
        ELSE { [C0 EXCEPT !.kind = "approval", !.dep = D("native", "ua1", "2", r)] : r \in {"always", "only_passed"} }
F(d, a) == [d |-> d, a |-> a]
Pay == [k |-> "pay", a |-> "1"]
Prop(by, q, m, v) == [o |-> "propose", by |-> by, funds |-> q, title |-> "t", msgs |-> m, vote |-> v]
ById(x, o) == { [o |-> o, m |-> "m", by |-> "alice", id |-> i] : i \in 1..Len(x.props["m"]) }
Votes(x) == { [o |-> "vote", m |-> "m", by |-> "alice", id |-> i, v |-> v] : i \in 1..Len(x.props["m"]), v \in {"yes", "no"} }
Life(x) == ById(x, "exec") \cup ById(x, "close") \cup Votes(x) \cup {[o |-> "adv", n |-> 1, s |-> 5]}
Room(x) == Len(x.props["m"]) + Cardinality(DOMAIN x.pend) < 3
Props(x) == IF Room(x) THEN { Prop("bob", q, <<Pay>>, "none") : q \in {<<>>, <<F("ua1", "2")>>} } \cup {Prop("zoe", <<F("ua1", "2")>>, <<>>, "none")} ELSE {}
Draw(w) == [o |-> "withdraw", c |-> "pp", by |-> w, d |-> [k |-> "none", d |-> ""]]
Cfg(d, p) == [o |-> "cfg", c |-> "pp", by |-> "dao", dep |-> d, pol |-> p]
Appr(x) == IF Kind = "deposit" THEN {} ELSE { [o |-> k, by |-> w, id |-> i] : k \in {"approve", "reject"}, i \in 1..x.seq, w \in {"boss", "bob"} }
Up(w, p) == [o |-> "upgrade", by |-> w, pol |-> p]
Ops(u) ==
  Props(u.x) \cup Life(u.x) \cup Appr(u.x) \cup {Draw("dao"), Draw("alice")}
  \cup {Cfg(D("cw20", "tA", "3", "always"), IF u.phase = "old" THEN Members ELSE Keep)}
  \cup {Up("alice", Keep), Up("dao", Keep), Up("dao", Members), Up("dao", [Open1 EXCEPT !.dl = <<"bob">>]), Up("dao", [Members EXCEPT !.mem = FALSE])}
\* an upgrade touches the policy at most
UpStepP(a, e, b) == IF e.o # "upgrade" THEN StepP(a.x, e, b.x) ELSE
  [kept |-> b.x = [a.x EXCEPT !.pol = b.x.pol], pol |-> b # a => e.by = "dao" /\ (e.pol.k = "keep" => b.x.pol = a.x.pol), once |-> b # a => a.phase = "old"]
M == INSTANCE MC WITH MCfgs <- Cfgs, MOps <- Ops, TInit <- UpInit, TApply <- UpApply, TInv <- UpInv, TStep <- UpStepP
Spec == M!MSpec
Invs == M!MInv
EmitC == M!MEmit
View == M!MView
=============================================================================
