--------------------------------- MODULE Fund ---------------------------------
(* A fund shared out by voting power at one height.                            *)
(* Until the funding period ends anyone can add native coins ("una", "unb") and *)
(* tokens ("c1", "c2"); afterwards every holder of power takes its share, a     *)
(* fraction with 18 decimals, rounded down, of each.  Anyone ("alice", "bob")   *)
(* can pass itself off as a token.  took is what a holder took of an asset;     *)
(* the fund's admin can share out again what is left, by the power at another   *)
(* height.  Ghosts: ins, outs of each asset.                                   *)
EXTENDS Staking
Users == {"alice", "bob", "carol"}
Accts == Users \cup {"boss", "fd"}
Coins == {"una", "unb"}
Toks == {"c1", "c2"}
Assets == Coins \cup Toks
Power(s, w, h) == Get(AtH(s.hist, s.mem, h), w, "0")
Total(s, h) == BSumF(AtH(s.hist, s.mem, h))
Share(s, w) == BMulDiv(Power(s, w, s.dh), E18, s.total)
Whole(s, w, x) == BMulDiv(s.bal[x], Share(s, w), E18)
Took(s, w, x) == Get(Get(s.took, w, EmptyF), x, "0")
Ent(s, w, x) == BSub(Whole(s, w, x), Took(s, w, x))
Open(s) == ~Reached(s.now, s.until)
Names(s, S) == Sorted(DOMAIN s.bal \cap S)
Real(s) == DOMAIN s.bal \cap Assets
-----------------------------------------------------------------------------
Put1(s, x, a) == IF a = "0" THEN s ELSE [s EXCEPT !.bal = Put(@, x, BAdd(Get(@, x, "0"), a)), !.ins = IF x \in Assets THEN [@ EXCEPT ![x] = BAdd(@, a)] ELSE @]
Move(s, x, from, to, a) == LET f == [s.hold[x] EXCEPT ![from] = BSub(@, a)] IN [s EXCEPT !.hold[x] = [f EXCEPT ![to] = BAdd(@, a)]]
RECURSIVE PutAll(_, _, _)
PutAll(s, by, q) ==
  IF q = <<>> THEN Ok(s) ELSE IF BLt(s.hold[q[1].d][by], q[1].n) THEN Fail("funds", s) ELSE PutAll(Put1(Move(s, q[1].d, by, "fd", q[1].n), q[1].d, q[1].n), by, Tail(q))
FundOp(s, e) ==
  IF ~Open(s) THEN Fail("claiming", s)
  ELSE IF e.o = "fake" THEN Ok(Put1(s, e.by, e.a))
  ELSE PutAll(s, e.by, e.q)
RECURSIVE Take1(_, _, _)
Take1(s, w, q) ==
  IF q = <<>> THEN Ok(s)
  ELSE LET x == q[1] IN
       IF x \notin DOMAIN s.bal THEN Fail("unknown", s)
       ELSE LET a == Ent(s, w, x) IN
            IF a = "0" THEN Take1(s, w, Tail(q))
            \* not a token at all
            ELSE IF x \notin Assets THEN Fail("token", s)
            ELSE Take1([Move(s, x, "fd", w, a) EXCEPT !.took = Put(@, w, Put(Get(@, w, EmptyF), x, BAdd(Took(s, w, x), a))), !.outs[x] = BAdd(@, a)], w, Tail(q))
Claim(s, e) ==
  IF Open(s) THEN Fail("funding", s)
  ELSE IF e.o = "all" THEN Take1(s, e.by, Names(s, DOMAIN s.bal \ Coins) \o Names(s, Coins))
  ELSE IF e.q = <<>> THEN Fail("empty", s)
  ELSE IF \E i \in DOMAIN e.q : (e.q[i] \in Coins) # (e.o = "coins") THEN Fail("unknown", s)
  ELSE Take1(s, e.by, e.q)
Again(s, e) ==
  LET h == IF e.back > s.now.h THEN 0 ELSE s.now.h - e.back
      left(x) == BSub(s.bal[x], BSumF([w \in Users |-> Took(s, w, x)]))
  IN IF e.by # "boss" THEN Fail("unauthorized", s)
     ELSE IF Total(s, h) = "0" THEN Fail("nobody", s)
     ELSE Ok([s EXCEPT !.dh = h, !.total = Total(s, h), !.bal = [x \in DOMAIN @ |-> left(x)], !.took = EmptyF])
Page(s, e) == LET q == SelectSeq(Rev(Names(s, IF e.k = "coins" THEN Coins ELSE DOMAIN s.bal \ Coins)), LAMBDA x : e.after = "" \/ SLt(x, e.after)) IN IF e.limit < 0 THEN q ELSE Take(q, e.limit)
Apply(s, e) ==
  CASE e.o \in {"fund", "fake"} -> FundOp(s, e)
    [] e.o \in {"coins", "toks", "all"} -> Claim(s, e)
    [] e.o = "again" -> Again(s, e)
    [] e.o = "give" -> IF BLt(s.hold[e.x][e.by], e.a) \/ e.a = "0" THEN Fail("funds", s) ELSE Ok(Move(s, e.x, e.by, "fd", e.a))
    [] e.o = "power" -> Ok([s EXCEPT !.hist = Remember(@, s.now.h, s.mem), !.mem = e.m])
    [] e.o = "page" -> Ok([s EXCEPT !.page = Page(s, e)])
    [] e.o = "adv" -> Adv(s, e)

RECURSIVE Past(_, _, _)
Past(q, i, hist) == IF i > Len(q) THEN hist ELSE Past(q, i + 1, Append(hist, [h |-> i - 1, v |-> IF i = 1 THEN EmptyF ELSE q[i - 1]]))
Init(c) ==
  LET n == Len(c.past)
      with(f) == [w \in Accts |-> Get(f, w, "0")]
      dh == IF c.back > n THEN 0 ELSE n - c.back
      now == [h |-> n, t |-> 5 * n]
      s == [now |-> now, mem |-> c.past[n], hist |-> Past(c.past, 1, <<>>), dh |-> dh, total |-> "0", until |-> After(now, c.dur), hold |-> [x \in Assets |-> with(c.hold[x])],
            bal |-> EmptyF, took |-> EmptyF, page |-> <<>>, ins |-> [x \in Assets |-> "0"], outs |-> [x \in Assets |-> "0"]]
  IN [ok |-> c.src = "vote" /\ Total(s, dh) # "0", s |-> [s EXCEPT !.total = Total(s, dh)]]
Obs(s) ==
  [now |-> s.now, hold |-> s.hold, dh |-> s.dh, total |-> s.total, page |-> s.page,
   coins |-> [x \in DOMAIN s.bal \cap Coins |-> s.bal[x]], toks |-> [x \in DOMAIN s.bal \ Coins |-> s.bal[x]],
   ent |-> [w \in Users |-> [x \in DOMAIN s.bal \cup Assets |-> IF x \in DOMAIN s.bal THEN Ent(s, w, x) ELSE "0"]]]
Owed(s, x) == BSumF([w \in Users |-> Ent(s, w, x)])
Inv(s) ==
  [ \* whatever is still owed is there
    backed |-> \A x \in Real(s) : BLe(Owed(s, x), s.hold[x]["fd"]),
    paid |-> \A x \in Assets : BLe(s.outs[x], s.ins[x]),
    left |-> \A x \in Real(s) : BSub(s.bal[x], BSumF([w \in Users |-> Took(s, w, x)])) = BSub(s.ins[x], s.outs[x]),
    \* only roundings stay behind: less than one unit and one part in 10^18 for each holder
    whole |-> \A x \in Real(s) : BLe(BSub(s.bal[x], BSumF([w \in Users |-> Whole(s, w, x)])), BAdd("3", BMulDiv("3", s.bal[x], E18))),
    nonneg |-> \A x \in Real(s), w \in Users : BLe("0", Ent(s, w, x)) ]
Changed(x, y) == x.hold # y.hold
StepP(x, e, y) ==
  [ claim |-> e.o \in {"coins", "toks", "all"} /\ x # y =>
       \A a \in Assets : /\ BSub(y.hold[a][e.by], x.hold[a][e.by]) \in {"0", IF a \in DOMAIN x.bal THEN Ent(x, e.by, a) ELSE "0"}
                         /\ \A w \in Users \ {e.by} : y.hold[a][w] = x.hold[a][w] /\ Took(y, w, a) = Took(x, w, a),
    out |-> \A a \in Assets : BLt(y.hold[a]["fd"], x.hold[a]["fd"]) => e.o \in {"coins", "toks", "all"} /\ Reached(x.now, x.until),
    in |-> y.ins # x.ins => ~Reached(x.now, x.until) /\ e.o = "fund",
    by |-> y.dh # x.dh \/ y.total # x.total => e.o = "again" /\ e.by = "boss",
    kept |-> e.o \notin {"coins", "toks", "all", "again"} => \A a \in Real(x), w \in Users : BLe(Ent(x, w, a), Ent(y, w, a)) ]
=============================================================================
