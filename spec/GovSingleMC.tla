----------------------------- MODULE GovSingleMC ------------------------------
EXTENDS GovSingle, IOUtils
VARIABLES c, s, h
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT
Half == "500000000000000000"
Ths == { [k |-> "abs_pct", p |-> "maj", q |-> ""], [k |-> "abs_pct", p |-> Half, q |-> ""],
         [k |-> "abs_pct", p |-> "666666666666666667", q |-> ""],
         [k |-> "tq", p |-> "maj", q |-> "333333333333333333"], [k |-> "tq", p |-> "1000000000000000000", q |-> "0"],
         [k |-> "count", p |-> "3", q |-> ""] }
V1 == [on |-> TRUE, who |-> "erin", early |-> TRUE, before |-> FALSE, tl |-> [k |-> "h", v |-> 1]]
V2 == [V1 EXCEPT !.early = FALSE, !.before = TRUE]
Base == [th |-> [k |-> "abs_pct", p |-> "maj", q |-> ""], max |-> [k |-> "h", v |-> 2], min |-> G!None, ome |-> FALSE, revote |-> FALSE,
         close |-> TRUE, veto |-> G!NoVeto, dao |-> "dao", pp |-> "anyone", fund |-> "1", phooks |-> <<"l1">>, vhooks |-> <<>>,
         powers |-> [alice |-> "2", bob |-> "1", carol |-> "1"]]
\* votes: every way three members can vote, every threshold; lifecycle: veto, timelock, execution
Votes == { [Base EXCEPT !.th = th, !.revote = r, !.phooks = <<>>] : th \in Ths, r \in BOOLEAN }
Life == { [Base EXCEPT !.veto = v, !.min = m, !.close = k, !.ome = o, !.powers = [alice |-> "2", bob |-> "1", carol |-> "0"]] :
            v \in {G!NoVeto, V1, V2}, m \in {G!None, [k |-> "h", v |-> 1]}, k \in BOOLEAN, o \in BOOLEAN }
Kind == IF "KIND" \in DOMAIN IOEnv THEN IOEnv.KIND ELSE "votes"
Cfgs == IF Kind = "votes" THEN Votes ELSE Life
Pay == <<[k |-> "pay", to |-> "payee1", a |-> "1"]>>
New(by, m, av) == [o |-> "propose", by |-> by, named |-> "", msgs |-> m, av |-> av, why |-> "", big |-> FALSE, title |-> "t"]
Alt == [Base EXCEPT !.th = [k |-> "count", p |-> "1", q |-> ""], !.revote = TRUE, !.veto = V2, !.max = [k |-> "h", v |-> 3]]
Ids(x) == DOMAIN x.props
VotesOps(x) ==
  (IF Len(x.props) = 0 THEN {New("alice", <<>>, "")} ELSE {})
  \cup { [o |-> "vote", by |-> w, id |-> i, vote |-> v, why |-> ""] : w \in {"alice", "bob", "carol"}, i \in Ids(x), v \in {"yes", "no", "abstain"} }
  \cup { [o |-> "adv", n |-> 1, s |-> 5] }
LifeOps(x) ==
  (IF Len(x.props) = 0 THEN {New("bob", Pay, "")} ELSE IF Len(x.props) = 1 THEN {New("bob", Pay, "yes")} ELSE {})
  \cup { [o |-> "vote", by |-> w, id |-> i, vote |-> v, why |-> ""] : w \in {"alice", "bob"}, i \in Ids(x), v \in {"yes", "no"} }
  \cup { [o |-> k, by |-> w, id |-> i] : k \in {"exec", "veto"}, w \in {"alice", "erin"}, i \in Ids(x) }
  \cup { [o |-> "close", by |-> "zoe", id |-> i] : i \in Ids(x) }
  \cup { [o |-> "adv", n |-> 1, s |-> 5], [o |-> "cfg", by |-> "dao", c |-> [f \in CfgFields |-> Alt[f]]],
         [o |-> "power", who |-> "bob", p |-> "4"] }
Ops(x) == IF Kind = "votes" THEN VotesOps(x) ELSE LifeOps(x)

\* an early decision is what every completion of the vote comes to
People == {"alice", "bob", "carol"}
End(p, f) == LET q0 == [p EXCEPT !.yes = "0", !.no = "0", !.ab = "0"]
                 sum(v) == BSumF([x \in { y \in DOMAIN f : f[y] = v } |-> G!PowerOf(p.snap, x)])
             IN [q0 EXCEPT !.yes = sum("yes"), !.no = sum("no"), !.ab = sum("abstain")]
Early(x) == \A i \in Ids(x) : LET p == x.props[i] cur == G!Cur([x EXCEPT !.now = x.now], p).st b == x.ballots[i] IN
  (~Fin(x, p.exp) /\ cur \in {"passed", "timelock", "rejected"}) =>
     \A f \in [People -> {"yes", "no", "abstain", "-"}] :
       (\A w \in DOMAIN b : p.revote \/ f[w] = b[w].v) =>
          (YesWins(End(p, f), TRUE) <=> cur # "rejected")
\* at the end the outcome is exactly what the ballots say, however they came
Outcome(x) == \A i \in Ids(x) : LET p == x.props[i] st == G!Cur(x, p).st IN
  (Fin(x, p.exp) /\ st \notin {"vetoed"}) =>
     (st \in {"passed", "timelock", "executed", "execution_failed"} <=>
        YesWins(End(p, [w \in DOMAIN x.ballots[i] |-> x.ballots[i][w].v]), TRUE))
Invar(x) == [early |-> Early(x), outcome |-> Outcome(x)] @@ Inv(x)
StepP(x, e, y) == G!StepCommon(x, e, y)
M == INSTANCE MC WITH MCfgs <- Cfgs, MOps <- Ops, TInit <- Init, TApply <- Apply, TInv <- Invar, TStep <- StepP
Spec == M!MSpec
Invs == M!MInv
EmitC == M!MEmit
View == M!MView
=============================================================================
