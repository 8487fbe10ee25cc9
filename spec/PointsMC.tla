------------------------------- MODULE PointsMC -------------------------------
(* Every tally of small electorates under many thresholds, at every kind of    *)
(* block: the decision rule is checked against all continuations of the vote,  *)
(* and all the points are emitted to be asked of the real modules.             *)
EXTENDS Points, Json, IOUtils
VARIABLES c
Depth == atoi(IOEnv.DEPTH)
Kind == IOEnv.KIND
Most == atoi(IOEnv.MOST)
Pcs == {"maj", "1", "333333333333333333", "500000000000000000", "666666666666666667", "1000000000000000000"}
Qs == {"0", "maj", "333333333333333333", "1000000000000000000"}
Ths == { [k |-> "abs_pct", p |-> p, q |-> ""] : p \in Pcs } \cup { [k |-> "tq", p |-> p, q |-> q] : p \in Pcs, q \in Qs }
       \cup { [k |-> "count", p |-> p, q |-> ""] : p \in {"1", "2", "3", "5"} }
Tots == {0, 1} \cup (3..Most)
Cfgs == IF Kind = "multi" THEN { [single |-> FALSE, th |-> [k |-> "q", p |-> "", q |-> q], total |-> ToString(n), options |-> o] : q \in Qs, n \in Tots, o \in {3, 4} }
        ELSE { [single |-> TRUE, th |-> x, total |-> ToString(n), options |-> 3] : x \in Ths, n \in Tots }
NoV == One!G!NoVeto
Veto2 == [on |-> TRUE, who |-> "zoe", early |-> FALSE, before |-> FALSE, tl |-> [k |-> "h", v |-> 2]]
RECURSIVE Tallies(_, _)
Tallies(n, k) == IF k = 0 THEN {<<>>} ELSE UNION { { <<x>> \o y : y \in Tallies(n - x, k - 1) } : x \in 0..n }
Width(x) == IF x.single THEN 3 ELSE x.options
Pts(x) == Tallies(atoi(x.total), Width(x))
At(h) == [h |-> h, t |-> 0]
Str(v) == [i \in DOMAIN v |-> ToString(v[i])]
Point(x, v, min, rv, veto) ==
  LET b == [min |-> min, exp |-> [k |-> "h", v |-> 6], total |-> x.total, status |-> "open", tl |-> One!G!None, revote |-> rv, veto |-> veto]
  IN IF x.single THEN b @@ [th |-> x.th, yes |-> ToString(v[1]), no |-> ToString(v[2]), ab |-> ToString(v[3])]
     ELSE b @@ [quorum |-> x.th.q, votes |-> Str(v)]
Mins == {One!G!None, [k |-> "h", v |-> 3]}
Ops(x) == { [o |-> "decide", p |-> Point(x, v, min, rv, veto), now |-> At(h)] :
              v \in Pts(x), min \in Mins, rv \in BOOLEAN, veto \in {NoV, Veto2}, h \in {2, 3, 6, 8} }
St(x, v, min, rv, h) == Decide([single |-> x.single], [p |-> Point(x, v, min, rv, NoV), now |-> At(h)]).st
More(v, w) == \A i \in DOMAIN v : v[i] <= w[i]
Rules(x) ==
  [ \* what is decided early is what any continuation of the vote ends with
    \* (shares are compared at nine decimals: one below that asks for no vote at all)
    early |-> (x.single /\ x.th.p = "1" /\ x.th.k # "count") \/ \A v \in Pts(x), min \in Mins : LET d == St(x, v, min, FALSE, 3) IN
                d # "open" => \A w \in Pts(x) : More(v, w) => St(x, w, min, FALSE, 6) = d,
    \* a single-choice vote whose every continuation fails is not left open
    hopeless |-> x.single => \A v \in Pts(x), min \in Mins :
                (\A w \in Pts(x) : More(v, w) => St(x, w, min, FALSE, 6) = "rejected") => St(x, v, min, FALSE, 3) # "passed",
    revote |-> \A v \in Pts(x), min \in Mins, h \in {2, 3} : St(x, v, min, TRUE, h) = "open",
    period |-> \A v \in Pts(x) : St(x, v, [k |-> "h", v |-> 3], FALSE, 2) # "passed",
    over |-> \A v \in Pts(x), min \in Mins, rv \in BOOLEAN : St(x, v, min, rv, 6) \in {"passed", "rejected"},
    \* another vote for what won does not make it lose
    mono |-> x.single => \A v \in Pts(x) : \A w \in Pts(x) :
                (St(x, v, One!G!None, FALSE, 6) = "passed" /\ w = [v EXCEPT ![1] = @ + 1]) => St(x, w, One!G!None, FALSE, 6) = "passed" ]
Spec == c \in Cfgs /\ [][UNCHANGED c]_c
Invs == LET bad == { n \in DOMAIN Rules(c) : ~Rules(c)[n] } IN Assert(bad = {}, "INVFAIL " \o ToJson([props |-> bad, cfg |-> c]))
EmitC == PrintT("EMIT " \o ToJson([cfg |-> c, h |-> <<>>, yes |-> {}, no |-> Ops(c)]))
View == c
=============================================================================
