------------------------------- MODULE Rewards -------------------------------
(* The rewards distributor of a DAO.                                           *)
(* Sources of voting power: "g" a membership group, "t" staked tokens, "n"      *)
(* staked NFTs; a change of power counts from the next block on.  pw is the     *)
(* power from then on, pw0 that of the current block.                          *)
(* A distribution shares rewards of one asset ("nat", "c20") by the power of    *)
(* one source:  rate.k = "paused" | "imm" | "lin" (amt per dur of blocks or     *)
(* seconds).  Rewards are counted per unit of power, x 10^39: puvp in this      *)
(* epoch, past in earlier ones; a linear one counts the complete periods since  *)
(* it was last brought up to date.                                             *)
(* Ghosts: ins, got, back, due per distribution; ok tells that every change of  *)
(* its source's power was heard and the source never replaced.                 *)
EXTENDS Staking, Owner
Users == {"alice", "bob", "carol"}
Accts == Users \cup {"boss", "dest", "rd"}
Srcs == {"g", "t", "n"}
E39 == "1000000000000000000000000000000000000000"
NE == [k |-> "never", v |-> "0"]
Clock(s, k) == BI(IF k = "h" THEN s.now.h ELSE s.now.t)
At(s, k) == [k |-> k, v |-> Clock(s, k)]
Cap(s, e) == IF e.k = "never" THEN NE ELSE [k |-> e.k, v |-> BMin(Clock(s, e.k), e.v)]
Ended(s, e) == e.k # "never" /\ BLe(e.v, Clock(s, e.k))
Elapsed(from, to) == IF BLt(from.v, to.v) THEN BSub(to.v, from.v) ELSE "0"
\* the last block, the last second
Last(k) == IF k = "h" THEN BSub(U64MAX, "1000") ELSE BSub(BDiv(U64MAX, "1000000000"), "1000000")
P0(s, a, w) == Get(s.pw0[a], w, "0")
T0(s, a) == BSumF(s.pw0[a])
Ids(s) == DOMAIN s.ds
Move(s, as, from, to, a) ==
  IF BLt(s.hold[as][from], a) THEN Fail("funds", s)
  ELSE LET f == [s.hold[as] EXCEPT ![from] = BSub(@, a)] IN Ok([s EXCEPT !.hold[as] = [f EXCEPT ![to] = BAdd(@, a)]])
-----------------------------------------------------------------------------
\* what a distribution has shared out
Latest(s, d) == IF d.end.k = "never" THEN d.last ELSE Cap(s, d.end)
Earned(s, d) ==
  CASE d.rate.k = "paused" -> "0"
    [] d.rate.k = "imm" -> d.puvp
    [] OTHER -> LET l == Latest(s, d)
                    p == BDiv(Elapsed(d.last, l), d.rate.dur.v)
                    t == T0(s, d.src)
                IN IF l.k = "never" \/ p = "0" \/ t = "0" THEN d.puvp ELSE BAdd(d.puvp, BDiv(BMul(BMul(d.rate.amt, p), E39), t))
\* of the funds, by the time e
Until(d, e) ==
  CASE d.rate.k = "paused" -> "0" [] d.rate.k = "imm" -> d.funded
    [] OTHER -> IF d.start.k = "never" THEN "0" ELSE BMul(d.rate.amt, BDiv(Elapsed(d.start, e), d.rate.dur.v))
Undist(s, d) == BSub(d.funded, Until(d, Latest(s, d)))
Acc(s, w, i) == Get(Get(s.acc, w, EmptyF), i, "0")
Kept(s, w, i) == Get(Get(s.pend, w, EmptyF), i, "0")
Pend(s, w, i) == LET d == s.ds[i] IN BAdd(Kept(s, w, i), BDiv(BMul(P0(s, d.src, w), BSub(BAdd(Earned(s, d), d.past), Acc(s, w, i))), E39))
Sync(s, w, i) ==
  [s EXCEPT !.ds[i] = [s.ds[i] EXCEPT !.puvp = Earned(s, s.ds[i]), !.last = Cap(s, s.ds[i].end)], !.pend = Put(@, w, Put(Get(@, w, EmptyF), i, Pend(s, w, i))),
            !.acc = Put(@, w, Put(Get(@, w, EmptyF), i, BAdd(Earned(s, s.ds[i]), s.ds[i].past)))]
RECURSIVE SyncAll(_, _)
SyncAll(s, S) == IF S = {} THEN s ELSE LET x == CHOOSE x \in S : TRUE IN SyncAll(Sync(s, x[1], x[2]), S \ {x})
\* what is shared out at once is shared by the power of this block, also where
\* that power already changed for the next
Changed(s, a) == { w \in Users : P0(s, a, w) # Get(s.pw[a], w, "0") }
Settle(s, i) == SyncAll(s, { <<w, i>> : w \in IF s.ds[i].hook = s.ds[i].src THEN Changed(s, s.ds[i].src) ELSE {} })
AddDue(s, i, x) == LET t == T0(s, s.ds[i].src) IN
  IF t = "0" THEN s ELSE [s EXCEPT !.due[i] = [w \in Users |-> BAdd(@[w], BDiv(BMul(BMul(x, E39), P0(s, s.ds[i].src, w)), t))]]
-----------------------------------------------------------------------------
\* funding
Span(rate, a) == LET r == BDiv(BMul(a, E18), rate.amt) IN BDiv(BMul(rate.dur.v, r), E18)
SpanOk(rate, a) == BLe(BDiv(BMul(a, E18), rate.amt), U128MAX) /\ BLe(Span(rate, a), U64MAX)
ShareNow(s, i, x) ==
  LET d == s.ds[i]
      t == T0(s, d.src)
  IN IF t = "0" THEN Fail("nobody", s) ELSE Ok(Settle(AddDue([s EXCEPT !.ds[i].puvp = BAdd(@, BDiv(BMul(x, E39), t))], i, x), i))
Linear(s, i, a) ==
  LET d == s.ds[i]
      prev == d.funded # "0"
      late == Ended(s, d.end)
      anew == ~prev \/ (~d.rate.cont /\ late)
      now == At(s, d.rate.dur.k)
      d1 == IF anew THEN [d EXCEPT !.past = IF prev THEN BAdd(@, Earned(s, d)) ELSE @, !.funded = a, !.start = now, !.last = now, !.puvp = "0"]
            ELSE [d EXCEPT !.funded = BAdd(@, a)]
      end == [k |-> now.k, v |-> BAdd(d1.start.v, Span(d.rate, d1.funded))]
      d2 == [d1 EXCEPT !.end = end]
      \* the time since the end counts as if it had been funded
      backfill == d.rate.cont /\ prev /\ late
      s2 == [s EXCEPT !.ds[i] = d2]
      s3 == [s EXCEPT !.ds[i] = [d2 EXCEPT !.puvp = Earned(s, d2), !.last = Cap(s, end)]]
      span == Elapsed(d.end, Cap(s, end))
  IN IF ~SpanOk(d.rate, d1.funded) \/ BLt(Last(end.k), end.v) THEN Fail("overflow", s)
     ELSE IF backfill THEN Ok(Settle(AddDue(s3, i, BDiv(BMul(d.rate.amt, BAdd(span, "1")), d.rate.dur.v)), i))
     ELSE Ok(s2)
IsOwner(s, w) == s.own.owner # "" /\ w = s.own.owner
Fund(s, by, i, a) ==
  LET d == s.ds[i]
      r == CASE d.rate.k = "paused" -> Ok([s EXCEPT !.ds[i].funded = BAdd(@, a)])
             [] d.rate.k = "imm" -> ShareNow([s EXCEPT !.ds[i].funded = BAdd(@, a)], i, a)
             [] OTHER -> Linear(s, i, a)
  IN IF ~d.open /\ ~IsOwner(s, by) THEN Fail("unauthorized", s)
     ELSE IF r.ok = "n" THEN r
     ELSE Move([r.s EXCEPT !.ins[i] = BAdd(@, a)], d.as, by, "rd", a)
-----------------------------------------------------------------------------
\* another rate: what was shared so far is history, the rest starts anew
RateOk(r) == r.k = "lin" => r.amt # "0" /\ r.dur.v # "0"
SetRate(s, i, r) ==
  LET d == s.ds[i]
      left == BSub(d.funded, Until(d, Latest(s, d)))
      now == At(s, r.dur.k)
      end == LET v == BAdd(now.v, Span(r, left)) IN [k |-> now.k, v |-> IF now.k = "h" THEN BMin(v, Last("h")) ELSE v]
      base == [d EXCEPT !.past = BAdd(@, Earned(s, d)), !.funded = left, !.rate = r, !.puvp = "0", !.start = NE, !.end = NE, !.last = NE]
  IN IF r = d.rate THEN Ok(s)
     ELSE IF r.k = "paused" THEN Ok([s EXCEPT !.ds[i] = base])
     ELSE IF r.k = "imm" THEN ShareNow([s EXCEPT !.ds[i] = base], i, left)
     ELSE IF ~SpanOk(r, left) \/ BLt(Last(end.k), end.v) THEN Fail("overflow", s)
     ELSE Ok([s EXCEPT !.ds[i] = [base EXCEPT !.start = now, !.last = now, !.end = end]])
Create(s, e) ==
  LET i == Len(s.ds) + 1
      d == [as |-> e.as, rate |-> e.rate, start |-> NE, end |-> NE, last |-> NE, puvp |-> "0", past |-> "0", src |-> e.src, hook |-> e.hook,
            open |-> e.open # "n", funded |-> "0", dest |-> IF e.dest = "" THEN e.by ELSE e.dest]
      s1 == [s EXCEPT !.ds = Append(@, d), !.ins = Append(@, "0"), !.got = Append(@, [w \in Users |-> "0"]), !.back = Append(@, "0"),
                      !.due = Append(@, [w \in Users |-> "0"]), !.ok = Append(@, TRUE)]
  IN IF ~IsOwner(s, e.by) THEN Fail("unauthorized", s)
     ELSE IF e.as \notin {"nat", "c20"} \/ e.src \notin Srcs THEN Fail("address", s)
     ELSE IF ~RateOk(e.rate) THEN Fail("zero", s)
     ELSE IF e.a = "0" THEN (IF e.t = "ok" THEN Ok(s1) ELSE Fail("payment", s))
     ELSE IF e.as = "c20" \/ e.t # "ok" THEN Fail("payment", s)
     ELSE Fund(s1, e.by, i, e.a)
Update(s, e) ==
  IF ~IsOwner(s, e.by) THEN Fail("unauthorized", s)
  ELSE IF e.id \notin Ids(s) THEN Fail("unknown", s)
  ELSE IF e.rate.k # "same" /\ ~RateOk(e.rate) THEN Fail("zero", s)
  ELSE IF e.src \notin Srcs \cup {""} THEN Fail("address", s)
  ELSE LET i == e.id
           r == IF e.rate.k = "same" THEN Ok(s) ELSE SetRate(s, i, e.rate)
       IN IF r.ok = "n" THEN Fail(r.why, s)
          ELSE Ok([r.s EXCEPT !.ds[i].src = IF e.src = "" THEN @ ELSE e.src, !.ds[i].hook = IF e.hook = "" THEN @ ELSE e.hook,
                              !.ds[i].open = IF e.open = "" THEN @ ELSE e.open = "y", !.ds[i].dest = IF e.dest = "" THEN @ ELSE e.dest,
                              !.ok[i] = @ /\ e.src \in {"", s.ds[i].src}])
Claim(s, w, i) ==
  IF i \notin Ids(s) THEN Fail("unknown", s)
  ELSE LET p == Pend(s, w, i) IN
       IF p = "0" THEN Fail("nothing", s)
       ELSE Move([Sync(s, w, i) EXCEPT !.pend[w][i] = "0", !.got[i][w] = BAdd(@, p)], s.ds[i].as, "rd", w, p)
Withdraw(s, e) ==
  IF ~IsOwner(s, e.by) THEN Fail("unauthorized", s)
  ELSE IF e.id \notin Ids(s) THEN Fail("unknown", s)
  ELSE LET i == e.id
           d == s.ds[i]
           d1 == [d EXCEPT !.end = IF d.start.k = "never" THEN NE ELSE At(s, d.start.k)]
           spent == Until(d1, d1.end)
           a == BSub(d.funded, spent)
       IN IF Ended(s, d.end) THEN Fail("over", s)
          ELSE IF a = "0" /\ d.as = "nat" THEN Fail("nothing", s)
          ELSE Move([s EXCEPT !.ds[i] = [d1 EXCEPT !.funded = spent], !.back[i] = BAdd(@, a)], d.as, "rd", d.dest, a)
-----------------------------------------------------------------------------
\* power
Hear(s, a, ws) ==
  LET is == { i \in Ids(s) : s.ds[i].hook = a } IN
  IF a \notin s.hooked THEN Ok(s)
  \* news nobody asked for are refused
  ELSE IF is = {} THEN Fail("hook", s)
  ELSE Ok(SyncAll(s, ws \X is))
SetPower(s, a, ws, f) ==
  LET r == Hear([s EXCEPT !.pw[a] = f], a, ws) IN
  IF r.ok = "n" THEN Fail(r.why, s)
  ELSE Ok([r.s EXCEPT !.ok = [i \in DOMAIN @ |-> @[i] /\ (s.ds[i].src # a \/ (s.ds[i].hook = a /\ a \in s.hooked) \/ f = s.pw[a])]])
RECURSIVE AddAll(_, _)
AddAll(m, q) == IF q = <<>> THEN m ELSE AddAll(Put(m, q[1].w, q[1].n), Tail(q))
Names(q) == { q[i].w : i \in DOMAIN q }
Raw(s, e) ==
  CASE e.o = "create" -> Create(s, e)
    [] e.o = "update" -> Update(s, e)
    [] e.o = "fund" -> LET i == IF e.id = 0 THEN Len(s.ds) ELSE e.id IN
                       IF i \notin Ids(s) THEN Fail("unknown", s) ELSE IF e.as # s.ds[i].as THEN Fail("payment", s) ELSE IF e.as = "nat" /\ e.a = "0" THEN Fail("payment", s) ELSE Fund(s, e.by, i, e.a)
    [] e.o = "claim" -> Claim(s, e.by, e.id)
    [] e.o = "withdraw" -> Withdraw(s, e)
    [] e.o = "group" -> LET m == AddAll(s.pw["g"], e.add)
                            gone == Range(e.rm) \cap DOMAIN m
                        IN SetPower(s, "g", Names(e.add) \cup gone, [w \in DOMAIN m \ Range(e.rm) |-> m[w]])
    [] e.o = "stake" -> IF e.a = "0" \/ BLt(s.free[e.src][e.by], e.a) THEN Fail("funds", s)
                        ELSE SetPower([s EXCEPT !.free[e.src][e.by] = BSub(@, e.a)], e.src, {e.by}, Put(s.pw[e.src], e.by, BAdd(Get(s.pw[e.src], e.by, "0"), e.a)))
    [] e.o = "unstake" -> IF e.a = "0" \/ BLt(Get(s.pw[e.src], e.by, "0"), e.a) THEN Fail("balance", s)
                          ELSE SetPower([s EXCEPT !.free[e.src][e.by] = BAdd(@, e.a)], e.src, {e.by}, Put(s.pw[e.src], e.by, BSub(s.pw[e.src][e.by], e.a)))
    \* a newer release of the same code: the administrator's alone, only forward, and nothing changes
    [] e.o = "renew" -> IF e.by # "dao" THEN Fail("unauthorized", s) ELSE IF e.from = "same" THEN Fail("version", s) ELSE Ok(s)
    \* news from a stranger
    [] e.o = "news" -> IF { i \in Ids(s) : s.ds[i].hook = e.by } = {} THEN Fail("unauthorized", s) ELSE Ok(SyncAll(s, {e.who} \X { i \in Ids(s) : s.ds[i].hook = e.by }))
    [] e.o \in OwnerOps -> LET r == Transfer(s.own, s.now, e) IN IF r.ok = "n" THEN Fail(r.why, s) ELSE Ok([s EXCEPT !.own = r.s])
    [] e.o = "adv" ->
         LET x == [Adv(s, e).s EXCEPT !.pw0 = IF e.n = 0 THEN @ ELSE s.pw]
             active(d) == IF d.rate.k # "lin" \/ d.end.k = "never" THEN "0" ELSE Elapsed(Cap(s, d.end), Cap(x, d.end))
             more(i) == LET d == s.ds[i]
                            t == T0(x, d.src)
                        IN [w \in Users |-> IF active(d) = "0" \/ t = "0" THEN x.due[i][w]
                              ELSE BAdd(x.due[i][w], BDiv(BMul(BMul(BMul(d.rate.amt, active(d)), E39), P0(x, d.src, w)), BMul(t, d.rate.dur.v)))]
         IN Ok([x EXCEPT !.due = [i \in DOMAIN @ |-> more(i)]])
    [] e.o = "page" -> Ok([s EXCEPT !.page = LET q == SelectSeq([i \in Ids(s) |-> i], LAMBDA i : i > e.after) IN Take(q, IF e.limit < 0 THEN 10 ELSE MinI(e.limit, 50))])
Apply(s, e) == LET r == Raw(s, e) IN [r EXCEPT !.s.n = IF r.ok = "n" THEN @ ELSE @ + 1]

Init(c) ==
  LET with(f) == [w \in Accts |-> Get(f, w, "0")]
      pow == [g |-> c.g, t |-> EmptyF, n |-> EmptyF]
  IN [ok |-> TRUE,
      s |-> [now |-> [h |-> 0, t |-> 0], own |-> Owned("boss"), hold |-> [nat |-> with(c.nat), c20 |-> with(c.c20)], pw |-> pow, pw0 |-> pow,
             free |-> [t |-> [w \in Users |-> Get(c.ft, w, "0")], n |-> [w \in Users |-> Get(c.fn, w, "0")]], hooked |-> Range(c.hooked),
             ds |-> <<>>, acc |-> EmptyF, pend |-> EmptyF, page |-> <<>>, ins |-> <<>>, got |-> <<>>, back |-> <<>>, due |-> <<>>, ok |-> <<>>, n |-> 0]]
Obs(s) ==
  [now |-> s.now, own |-> s.own, hold |-> s.hold, ds |-> s.ds, page |-> s.page,
   power |-> [a \in Srcs |-> [w \in Users |-> P0(s, a, w)]], total |-> [a \in Srcs |-> T0(s, a)],
   pend |-> [w \in Users |-> [i \in Ids(s) |-> Pend(s, w, i)]], undist |-> [i \in Ids(s) |-> Undist(s, s.ds[i])]]
Owed(s, i) == BSumF([w \in Users |-> Pend(s, w, i)])
Took(s, i) == BAdd(BSumF(s.got[i]), s.back[i])
Inv(s) ==
  [ \* claimed, claimable and still withdrawable together never exceed what was funded
    solvent |-> \A i \in Ids(s) : s.ok[i] => BLe(BAdd(BAdd(Took(s, i), Owed(s, i)), Undist(s, s.ds[i])), s.ins[i]),
    backed |-> \A a \in {"nat", "c20"} : s.hold[a]["rd"] = BSumF([i \in {j \in Ids(s) : s.ds[j].as = a} |-> BSub(s.ins[i], Took(s, i))]),
    \* nobody gets more than its share of what was emitted while it had power
    shares |-> \A i \in Ids(s) : s.ok[i] => \A w \in Users : BLe(BMul(BAdd(s.got[i][w], Kept(s, w, i)), E39), BAdd(s.due[i][w], BI(s.n))) ]
StepP(x, e, y) ==
  [ owner |-> OwnerSteps(x.own, x.now, e, y.own),
    who |-> e.o \notin {"create", "fund"} /\ (\E i \in Ids(x) : x.ds[i].rate # y.ds[i].rate \/ x.ds[i].dest # y.ds[i].dest \/ x.ds[i].src # y.ds[i].src \/ x.back[i] # y.back[i]) =>
              e.o \in {"update", "withdraw"} /\ e.by = x.own.owner,
    \* what was earned stays, until claimed
    kept |-> \A i \in Ids(x) : x.ok[i] /\ y.ok[i] => \A w \in Users : ~(e.o = "claim" /\ e.by = w) => BLe(Pend(x, w, i), Pend(y, w, i)),
    \* and grows only with time or by funds shared out at once
    still |-> \A i \in Ids(x) : e.o \notin {"adv", "claim", "fund", "update"} => \A w \in Users : Pend(x, w, i) = Pend(y, w, i),
    paid |-> e.o = "claim" => (LET a == x.ds[e.id].as IN BSub(y.hold[a][e.by], x.hold[a][e.by]) = Pend(x, e.by, e.id)) ]
=============================================================================
