----------------------------- MODULE CondorcetMC -----------------------------
EXTENDS Condorcet, IOUtils
VARIABLES c, s, h
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT
Kind == IF "KIND" \in DOMAIN IOEnv THEN IOEnv.KIND ELSE "votes"
Base == [quorum |-> "maj", max |-> [k |-> "h", v |-> 2], min |-> G!None, close |-> TRUE, fund |-> "1", total |-> "4",
         powers |-> [alice |-> "2", bob |-> "1", carol |-> "1"]]
Votes == { [Base EXCEPT !.quorum = q, !.powers = pw] : q \in {"0", "maj", "666666666666666667", "1000000000000000000"},
             pw \in {[alice |-> "2", bob |-> "1", carol |-> "1"], [alice |-> "1", bob |-> "1", carol |-> "1"], [alice |-> "3", bob |-> "1", carol |-> "0"]} }
Life == { [Base EXCEPT !.min = m, !.close = k, !.quorum = q, !.powers = [alice |-> "2", bob |-> "1", carol |-> "0"]] :
            m \in {G!None, [k |-> "h", v |-> 1]}, k \in BOOLEAN, q \in {"maj", "0"} }
Cfgs == IF Kind = "votes" THEN Votes ELSE Life
Ranks(n) == { r \in [1..n -> 0..(n - 1)] : Range(r) = 0..(n - 1) }
Pay(a) == <<[k |-> "pay", to |-> "payee1", a |-> a]>>
Ids(x) == DOMAIN x.props
VotesOps(x) ==
  (IF Len(x.props) = 0 THEN {[o |-> "propose", by |-> "alice", choices |-> <<Pay("1"), <<>>>>]} ELSE {})
  \cup UNION { { [o |-> "vote", by |-> w, id |-> i, rank |-> r] : w \in {"alice", "bob", "carol"}, r \in Ranks(N(x.props[i])) } : i \in Ids(x) }
  \cup { [o |-> "adv", n |-> 1, s |-> 5] }
LifeOps(x) ==
  (IF Len(x.props) = 0 THEN {[o |-> "propose", by |-> w, choices |-> <<Pay("1")>>] : w \in {"bob", "carol"}}
   ELSE IF Len(x.props) = 1 THEN {[o |-> "propose", by |-> "alice", choices |-> <<Pay("1"), <<[k |-> "cfg", c |-> [f \in CfgFields |-> [Base EXCEPT !.quorum = "0", !.max = [k |-> "h", v |-> 3]][f]]]>> >>]} ELSE {})
  \cup UNION { { [o |-> "vote", by |-> w, id |-> i, rank |-> r] : w \in {"alice", "bob"},
                 r \in (IF N(x.props[i]) = 2 THEN Ranks(2) ELSE {<<0, 1, 2>>, <<1, 2, 0>>, <<1, 0>>, <<0, 0, 2>>}) } : i \in Ids(x) }
  \cup { [o |-> "exec", by |-> w, id |-> i] : w \in {"alice", "zoe"}, i \in Ids(x) }
  \cup { [o |-> "close", by |-> "zoe", id |-> i] : i \in Ids(x) }
  \cup { [o |-> "adv", n |-> 1, s |-> 5], [o |-> "power", who |-> "bob", p |-> "4"],
         [o |-> "cfg", by |-> "alice", c |-> [f \in CfgFields |-> Base[f]]] }
Ops(x) == IF Kind = "votes" THEN VotesOps(x) ELSE LifeOps(x)

\* the proposal as it would be after the ballots f (<<>> is an abstention)
RECURSIVE CountAll(_, _, _)
CountAll(p, f, S) == IF S = {} THEN p ELSE LET v == CHOOSE v \in S : TRUE IN
   CountAll(IF f[v] = <<>> THEN p ELSE [p EXCEPT !.m = Count(@, f[v], PowerOf(p.snap, v)), !.left = BSub(@, PowerOf(p.snap, v))], f, S \ {v})
Adopted(p) == IF HasWinner(p) /\ Quorate(p) THEN TheWinner(p) ELSE -1
Rest(p, b) == { v \in DOMAIN p.snap : p.snap[v] # "0" } \ DOMAIN b
\* a decision taken early is what every way of completing the vote comes to
Early(x) == \A i \in Ids(x) : LET p == x.props[i] u == Upd(x, p) R == Rest(p, x.ballots[i]) IN
  (~G!Expired(x.now, p.exp) /\ u.status \in {"passed", "rejected"}) =>
    \A f \in [R -> Ranks(N(p)) \cup {<<>>}] : Adopted(CountAll(p, f, R)) = u.pick
Outcome(x) == \A i \in Ids(x) : LET p == x.props[i] u == Upd(x, p) IN
  (G!Expired(x.now, p.exp) /\ u.status \in {"passed", "rejected", "closed"}) => Adopted(p) = u.pick
Invar(x) == [early |-> Early(x), outcome |-> Outcome(x)] @@ Inv(x)
M == INSTANCE MC WITH MCfgs <- Cfgs, MOps <- Ops, TInit <- Init, TApply <- Apply, TInv <- Invar, TStep <- StepCommon
Spec == M!MSpec
Invs == M!MInv
EmitC == M!MEmit
View == M!MView
=============================================================================
