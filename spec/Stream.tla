------------------------------- MODULE Stream -------------------------------
(* Reward contracts of a cw20 staking pool:                                    *)
(*  "ext"   cw20-stake-external-rewards: funded per period, streamed linearly   *)
(*          to stakers, who claim                                              *)
(*  "dist"  cw20-stake-reward-distributor: releases rate x blocks into a pool   *)
(* kind says what the reward of "ext" is: "native", "cw20", or "same" (the      *)
(* staked token itself).  Shares count as they were when the block began.      *)
(* got, due, n are ghosts: paid out, exact entitlement x 10^39, steps taken.   *)
EXTENDS Staking, Owner
Users == {"alice", "bob", "carol"}
Accts == Users \cup {"boss", "pool", "pool2", "ext", "dist"}
E39 == "1000000000000000000000000000000000000000"
Genesis == 0 - 1000
RA(s) == IF s.kind = "same" THEN "tok" ELSE "rew"
Sh(st, w) == Get(st, w, "0")
Total(st) == BSumF(st)
Now(s) == AtH(s.hist, s.st, s.now.h)
Move(s, as, from, to, a) ==
  IF BLt(s.hold[as][from], a) THEN Fail("funds", s)
  ELSE LET f == [s.hold[as] EXCEPT ![from] = BSub(@, a)] IN Ok([s EXCEPT !.hold[as] = [f EXCEPT ![to] = BAdd(@, a)]])
-----------------------------------------------------------------------------
\* the stream
Until(s) == MinI(s.now.h, s.x.fin)
Rpt(s) == LET t == Total(Now(s)) IN IF t = "0" THEN s.x.rpt ELSE BAdd(s.x.rpt, BDiv(BMul(BMul(s.x.rate, BI(Until(s) - s.x.last)), E39), t))
Pend(s, w) == BAdd(Get(s.x.pend, w, "0"), BDiv(BMul(Sh(Now(s), w), BSub(Rpt(s), Get(s.x.seen, w, "0"))), E39))
Settle(s, w) == [s EXCEPT !.x.rpt = Rpt(s), !.x.pend = Put(@, w, Pend(s, w)), !.x.seen = Put(@, w, Rpt(s)), !.x.last = Until(s)]
FundX(s, by, a) ==
  IF s.xown.owner = "" \/ by # s.xown.owner THEN Fail("unauthorized", s)
  ELSE IF s.x.fin > s.now.h THEN Fail("running", s)
  ELSE LET rate == BDiv(a, BI(s.x.dur))
           s1 == Settle(s, by)
       IN IF rate = "0" THEN Fail("small", s)
          ELSE Move([s1 EXCEPT !.x.rate = rate, !.x.fin = s.now.h + s.x.dur, !.x.last = s.now.h, !.funded = BAdd(@, a)], RA(s), by, "ext", a)
ClaimX(s, w) ==
  LET p == Pend(s, w) IN
  IF p = "0" THEN Fail("nothing", s)
  ELSE Move([Settle(s, w) EXCEPT !.x.pend[w] = "0", !.got = Put(@, w, BAdd(Get(@, w, "0"), p))], RA(s), "ext", w, p)
-----------------------------------------------------------------------------
\* the pool
SetSt(s, w, x, pot) == [s EXCEPT !.hist = Remember(@, s.now.h, s.st), !.st = Put(@, w, x), !.pot = pot]
ToShares(s, a) == IF Total(s.st) = "0" \/ s.pot = "0" THEN a ELSE BMulDiv(Total(s.st), a, s.pot)
Stake(s, w, a) ==
  LET r == Move(s, "tok", w, "pool", a) IN
  IF r.ok = "n" THEN r ELSE Ok(Settle(SetSt(r.s, w, BAdd(Sh(s.st, w), ToShares(s, a)), BAdd(s.pot, a)), w))
Unstake(s, w, x) ==
  IF Total(s.st) = "0" THEN Fail("nothing", s)
  ELSE IF BLt(Sh(s.st, w), x) THEN Fail("balance", s)
  ELSE LET a == BMulDiv(s.pot, x, Total(s.st))
           r == Move(SetSt(s, w, BSub(Sh(s.st, w), x), BSub(s.pot, a)), "tok", "pool", w, a)
       IN IF r.ok = "n" THEN r ELSE Ok(Settle(r.s, w))
-----------------------------------------------------------------------------
\* the distributor
Due(s) == BMul(s.d.rate, BI(s.now.h - s.d.last))
Release(s) ==
  LET bal == s.hold[s.d.tok]["dist"]
      a == BMin(bal, Due(s))
      r == Move([s EXCEPT !.d.last = s.now.h], "tok", "dist", s.d.stk, a)
  IN IF s.d.last >= s.now.h \/ a = "0" THEN Fail("nothing", s)
     ELSE IF BLt(U128MAX, Due(s)) THEN Fail("overflow", s)
     \* a pool only takes its own token
     ELSE IF s.d.tok # "tok" THEN Fail("token", s)
     ELSE IF r.ok = "n" THEN r ELSE Ok(IF s.d.stk = "pool" THEN [r.s EXCEPT !.pot = BAdd(@, a)] ELSE r.s)
OwnD(s, e) == s.down.owner # "" /\ e.by = s.down.owner
Raw(s, e) ==
  CASE e.o = "stake" -> Stake(s, e.by, e.a)
    [] e.o = "unstake" -> Unstake(s, e.by, e.a)
    [] e.o = "fund" -> IF e.t = "ok" THEN FundX(s, e.by, e.a) ELSE Fail("payment", s)
    [] e.o = "claim" -> ClaimX(s, e.by)
    [] e.o = "dur" -> IF s.xown.owner = "" \/ e.by # s.xown.owner THEN Fail("unauthorized", s) ELSE IF s.x.fin > s.now.h THEN Fail("running", s)
                      ELSE IF e.n = 0 THEN Fail("zero", s) ELSE Ok([s EXCEPT !.x.dur = e.n])
    [] e.o = "hook" -> Fail("unauthorized", s)
    [] e.o = "dist" -> Release(s)
    \* a new configuration starts a new period
    [] e.o = "dcfg" -> IF ~OwnD(s, e) THEN Fail("unauthorized", s) ELSE IF e.stk \notin {"pool", "pool2"} \/ e.tok \notin {"tok", "fake"} THEN Fail("address", s)
                       ELSE Ok([s EXCEPT !.d = [rate |-> e.rate, last |-> s.now.h, stk |-> e.stk, tok |-> e.tok]])
    [] e.o = "wd" -> IF ~OwnD(s, e) THEN Fail("unauthorized", s)
                     ELSE LET b == s.hold[s.d.tok]["dist"] IN IF b = "0" THEN Maybe("", s) ELSE Move(s, s.d.tok, "dist", e.by, b)
    [] e.o \in OwnerOps -> LET r == Transfer(IF e.c = "ext" THEN s.xown ELSE s.down, s.now, e) IN
                           IF r.ok = "n" THEN Fail(r.why, s) ELSE Ok(IF e.c = "ext" THEN [s EXCEPT !.xown = r.s] ELSE [s EXCEPT !.down = r.s])
    [] e.o = "give" -> Move(s, e.as, e.by, e.to, e.a)
    [] e.o = "adv" ->
         LET k == MaxI(0, MinI(s.now.h + e.n, s.x.fin) - MinI(s.now.h, s.x.fin))
             t == Total(s.st)
         IN Ok([Adv(s, e).s EXCEPT !.due = IF t = "0" THEN @ ELSE [w \in Users |-> BAdd(@[w], BDiv(BMul(BMul(s.x.rate, BI(k)), BMul(Sh(s.st, w), E39)), t))]])
Apply(s, e) == LET r == Raw(s, e) IN [r EXCEPT !.s.n = IF r.ok = "n" THEN @ ELSE @ + 1]

RECURSIVE StakeAll(_, _)
StakeAll(s, q) == IF q = <<>> THEN Ok(s) ELSE LET r == Stake(s, q[1].w, q[1].a) IN IF r.ok = "n" THEN r ELSE StakeAll(r.s, Tail(q))
Init(c) ==
  LET zero == [w \in Accts |-> "0"]
      with(f) == [w \in Accts |-> Get(f, w, "0")]
      s == [kind |-> c.kind, now |-> [h |-> 0, t |-> 0], hold |-> [tok |-> with(c.tok), rew |-> with(c.rew), fake |-> [zero EXCEPT !["boss"] = "100"]],
            st |-> EmptyF, hist |-> <<>>, pot |-> "0", x |-> [rate |-> "0", fin |-> Genesis, dur |-> c.dur, rpt |-> "0", last |-> Genesis, pend |-> EmptyF, seen |-> EmptyF],
            xown |-> Owned(c.owner), down |-> Owned("boss"), d |-> [rate |-> c.rate, last |-> 0, stk |-> c.stk, tok |-> c.dtok],
            got |-> EmptyF, due |-> [w \in Users |-> "0"], funded |-> "0", n |-> 0]
      r == StakeAll(s, c.pre)
  IN [ok |-> r.ok = "y" /\ c.dur > 0 /\ c.xstk = "pool" /\ c.stk \in {"pool", "pool2"} /\ c.dtok \in {"tok", "fake"},
      \* staked before the streams exist
      s |-> [r.s EXCEPT !.x = s.x]]

Obs(s) ==
  [now |-> s.now, hold |-> s.hold, sh |-> [w \in Users |-> Sh(Now(s), w)], tot |-> Total(Now(s)), pot |-> s.pot, pend |-> [w \in Users |-> Pend(s, w)],
   x |-> [rate |-> s.x.rate, fin |-> s.x.fin, dur |-> s.x.dur, last |-> s.x.last], xown |-> s.xown, down |-> s.down,
   d |-> [rate |-> s.d.rate, last |-> s.d.last, stk |-> s.d.stk, tok |-> s.d.tok, bal |-> s.hold[s.d.tok]["dist"]]]
Got(s, w) == BAdd(Get(s.got, w, "0"), Pend(s, w))
Owe(s) == BSumF([w \in Users \cup {"boss"} |-> Pend(s, w)])
Inv(s) ==
  [ solvent |-> BLe(Owe(s), s.hold[RA(s)]["ext"]),
    never |-> BLe(BAdd(BSumF(s.got), Owe(s)), s.funded),
    \* each staker gets its share of what streamed while it was staked: never more, and less only by rounding
    most |-> \A w \in Users : BLe(BMul(Got(s, w), E39), BAdd(s.due[w], BI(s.n))),
    least |-> \A w \in Users : BGe(BAdd(BMul(Got(s, w), E39), BMul(BI(s.n + 1), BAdd(E39, s.funded))), s.due[w]) ]
StepP(x, e, y) ==
  [ later |-> e.o \notin {"adv", "claim"} => \A w \in Users : Pend(x, w) = Pend(y, w),
    other |-> e.o # "adv" => \A w \in Users : w # e.by => Pend(x, w) = Pend(y, w) /\ Sh(x.st, w) = Sh(y.st, w),
    rate |-> x.x.rate # y.x.rate => e.o = "fund" /\ e.by = x.xown.owner /\ x.x.fin <= x.now.h,
    xowner |-> OwnerSteps(x.xown, x.now, e, y.xown),
    downer |-> OwnerSteps(x.down, x.now, e, y.down),
    \* the distributor gives away at most what the rate allows, but to its owner
    cap |-> BLt(y.hold["tok"]["dist"], x.hold["tok"]["dist"]) =>
              (e.o = "wd" /\ e.by = x.down.owner) \/ (e.o = "dist" /\ BLe(BSub(x.hold["tok"]["dist"], y.hold["tok"]["dist"]), Due(x))) ]
=============================================================================
