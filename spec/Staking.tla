------------------------------- MODULE Staking -------------------------------
(* Vocabulary of voting power that is staked: power at heights, unstaking       *)
(* durations, claims, active thresholds, hooks.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigInt, Kit
Listeners == {"l1", "l2"}
-----------------------------------------------------------------------------
\* history: for every block in which it changed, the value at the block's start
Remember(hist, h, v) == IF hist # <<>> /\ hist[Len(hist)].h = h THEN hist ELSE Append(hist, [h |-> h, v |-> v])
\* the value at the start of block h
AtH(hist, cur, h) ==
  LET later == { i \in DOMAIN hist : hist[i].h >= h } IN
  IF later = {} THEN cur ELSE hist[CHOOSE i \in later : \A j \in later : i <= j].v
\* the heights up to n at which it may have shown something new
Moments(hist, n) == {h \in {0, n} \cup UNION {{hist[i].h, hist[i].h + 1} : i \in DOMAIN hist} : 0 <= h /\ h <= n}
\* from what was shown at each height 0..n (n: the one to come) to a history of changes
RECURSIVE HistOf(_, _)
HistOf(at, i) == IF i >= Len(at) THEN <<>> ELSE (IF at[i] = at[i + 1] THEN <<>> ELSE <<[h |-> i - 1, v |-> at[i]]>>) \o HistOf(at, i + 1)
-----------------------------------------------------------------------------
\* durations and maturity
DurOk(d) == d.k = "none" \/ d.v > 0
After(now, d) == IF d.k = "h" THEN [k |-> "h", v |-> now.h + d.v] ELSE [k |-> "t", v |-> now.t + d.v]
Reached(now, e) == IF e.k = "h" THEN now.h >= e.v ELSE now.t >= e.v
-----------------------------------------------------------------------------
\* active thresholds; percentages are integers with 10^18 = 100%
E18 == "1000000000000000000"
E9 == "1000000000"
PctOk(t) == t.k # "pct" \/ (BLt("0", t.v) /\ BLe(t.v, E18))
CntOk(t, supply) == t.k # "cnt" \/ (t.v # "0" /\ BLe(t.v, supply))
ThrOk(t, supply) == PctOk(t) /\ CntOk(t, supply)
\* the count a percentage of the supply asks for: rounded up at nine decimal places
Needed(t, supply) == BDiv(BAdd(BMulDiv(BMul(supply, E9), t.v, E18), BSub(E9, "1")), E9)
IsActive(t, staked, supply) ==
  CASE t.k = "none" -> TRUE [] t.k = "cnt" -> BGe(staked, t.v) [] OTHER -> BGe(staked, Needed(t, supply))
SetThr(s, by, t, supply) ==
  IF by # "dao" THEN Fail("unauthorized", s)
  ELSE IF ThrOk(t, supply) THEN Ok([s EXCEPT !.act = t]) ELSE Fail("threshold", s)
-----------------------------------------------------------------------------
\* hooks: told in order; a failing one undoes the operation
SetHook(s, by, owner, who, add) ==
  IF by # owner THEN Fail("unauthorized", s)
  ELSE IF add THEN (IF who \in Range(s.hooks) THEN Fail("dup", s) ELSE Ok([s EXCEPT !.hooks = Append(@, who)]))
  ELSE IF who \in Range(s.hooks) THEN Ok([s EXCEPT !.hooks = Without(@, who)]) ELSE Fail("nohook", s)
Tell(s, from, text) ==
  IF Range(s.hooks) \cap s.failing # {} THEN Fail("hook", s)
  ELSE Ok([s EXCEPT !.ord = SelectSeq(@, LAMBDA l : l \notin Range(s.hooks)) \o s.hooks, !.log = [l \in Listeners |-> IF l \in Range(s.hooks) THEN [n |-> @[l].n + 1, last |-> from \o ":" \o text] ELSE @[l]]])
SetDur(s, by, owner, d) ==
  IF by # owner THEN Fail("unauthorized", s)
  ELSE IF DurOk(d) THEN Ok([s EXCEPT !.dur = d]) ELSE Fail("duration", s)
Adv(s, e) == Ok([s EXCEPT !.now = [h |-> @.h + e.n, t |-> @.t + e.s]])
=============================================================================
