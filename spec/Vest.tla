--------------------------------- MODULE Vest ---------------------------------
(* A vesting payment: coins that vest to a recipient over time, that it may      *)
(* stake while they vest, and that the owner may cancel.                        *)
(* kind says what vests: "stake" (the chain's staking coin), "una" (another      *)
(* coin), "tok" (a token, funded later).                                        *)
(* f is what the payment knows of its stake: for each validator, the changes of  *)
(* what is bonded or unbonding there, by time (seconds); an undelegation is a    *)
(* change in the future, a slash registered late one in the past.                *)
(* del, unb, rew, hop are what the chain knows: delegated, unbonding, rewards,   *)
(* until when a redelegated stake cannot move on.  A slash takes stake without   *)
(* the payment noticing, until its owner registers it.                          *)
(* Ghosts: real (slashes not registered yet), lied, gift, got (by owners), lost. *)
EXTENDS Owner
Users == {"alice", "bob", "carol"}
Accts == Users \cup {"boss", "vest"}
Vals == {"v1", "v2", "v3"}
Assets == {"ustake", "una", "tok", "fake"}
As(s) == IF s.kind = "stake" THEN "ustake" ELSE s.kind
Pos(x) == BMax(x, "0")
-----------------------------------------------------------------------------
\* what has vested
RECURSIVE Steps(_, _, _)
Between(a, b, x) == BAdd(a.y, BMulDiv(BSub(b.y, a.y), BI(x - a.x), BI(b.x - a.x)))
Steps(q, i, x) == IF i = Len(q) THEN q[i].y ELSE IF x < q[i + 1].x THEN Between(q[i], q[i + 1], x) ELSE Steps(q, i + 1, x)
Vested(s, t) ==
  LET x == MaxI(0, t - s.start)
      c == s.curve
  IN CASE c.k = "const" -> c.y
       [] c.k = "lin" -> IF x >= c.d THEN c.y ELSE BMulDiv(c.y, BI(x), BI(c.d))
       [] OTHER -> IF x < c.q[1].x THEN c.q[1].y ELSE Steps(c.q, 1, x)
Most(s) == IF s.curve.k = "pw" THEN s.curve.q[Len(s.curve.q)].y ELSE s.curve.y
Length(s) == CASE s.curve.k = "const" -> "" [] s.curve.k = "lin" -> ToString(s.curve.d) [] OTHER -> ToString(s.curve.q[Len(s.curve.q)].x - s.curve.q[1].x)
\* what is staked
At(s, v, x) == LET g == s.f[v] IN BSumF([t \in { t \in DOMAIN g : t <= x } |-> g[t]])
Staked(s, x) == BSumF([v \in Vals |-> At(s, v, x)])
Card(s, x) == Cardinality({ v \in Vals : At(s, v, x) # "0" })
Note(s, v, t, d) == [s EXCEPT !.f[v] = Put(@, t, BAdd(Get(@, t, "0"), d))]
Sound(s, v, t) == \A x \in DOMAIN s.f[v] : x >= t => BLe("0", At(s, v, x))
\* what is not staked, and what of it the recipient can have; negative: beyond what the payment can express
Liquid(s, t) ==
  CASE s.st = "unfunded" -> "0"
    [] s.st = "funded" -> BSub(BSub(BSub(Most(s), s.claimed), Staked(s, t)), s.slashed)
    [] OTHER -> BSub(BAdd(s.ow, Pos(BSub(BSub(Most(s), s.claimed), s.slashed))), Staked(s, t))
Owed(s, t) == Pos(BSub(BSub(Vested(s, t), s.claimed), s.slashed))
Broken(s, t) == BLt(Liquid(s, t), "0") \/ BLt(Vested(s, t), s.claimed)
Avail(s, t) == BMin(Liquid(s, t), Owed(s, t))
-----------------------------------------------------------------------------
Move(s, as, from, to, a) ==
  IF BLt(s.hold[as][from], a) THEN Fail("funds", s)
  ELSE LET g == [s.hold[as] EXCEPT ![from] = BSub(@, a)] IN Ok([s EXCEPT !.hold[as] = [g EXCEPT ![to] = BAdd(@, a)]])
PayRew(s, v) == [s EXCEPT !.rew[v] = "0", !.hold["ustake"][s.waddr] = BAdd(@, s.rew[v])]
IsOwner(s, e) == s.own.owner # "" /\ e.by = s.own.owner
Dist(s, e) ==
  LET a == IF e.a = "" THEN Avail(s, s.now.t) ELSE e.a IN
  IF Broken(s, s.now.t) THEN Fail("accounts", s)
  ELSE IF BLt(Avail(s, s.now.t), a) \/ a = "0" THEN Fail("amount", s)
  ELSE Move([s EXCEPT !.claimed = BAdd(@, a)], As(s), "vest", s.who, a)
Cancel(s, e) ==
  LET t == s.now.t
      a == Avail(s, t)
      rest == BSub(Liquid(s, t), a)
      ow == BSub(Staked(s, t), Pos(BSub(Owed(s, t), a)))
      s1 == [s EXCEPT !.st = "canceled", !.ow = ow, !.claimed = BAdd(@, a), !.curve = [k |-> "const", y |-> Vested(s, t)], !.waddr = e.by, !.got = BAdd(@, rest)]
      r == Move(s1, As(s), "vest", e.by, rest)
  IN IF ~IsOwner(s, e) THEN Fail("unauthorized", s)
     ELSE IF s.st = "canceled" THEN Fail("canceled", s)
     ELSE IF Broken(s, t) \/ BLt(ow, "0") THEN Fail("accounts", s)
     ELSE IF r.ok = "n" THEN Fail("funds", s)
     ELSE LET r2 == Move(r.s, As(s), "vest", s.who, a) IN IF r2.ok = "n" THEN Fail("funds", s) ELSE r2
Withdraw(s, e) ==
  LET m == BMin(Liquid(s, s.now.t), s.ow)
      a == IF e.a = "" THEN m ELSE e.a
  IN IF s.own.owner = "" THEN Fail("unauthorized", s)
     ELSE IF s.st # "canceled" THEN Fail("running", s)
     ELSE IF Broken(s, s.now.t) THEN Fail("accounts", s)
     ELSE IF BLt(m, a) \/ a = "0" THEN Fail("amount", s)
     ELSE Move([s EXCEPT !.ow = BSub(@, a), !.got = BAdd(@, a)], As(s), "vest", s.own.owner, a)
FundT(s, e) ==
  IF s.kind # "tok" \/ e.t # "tok" THEN Fail("token", s)
  ELSE IF e.a # Most(s) THEN Fail("amount", s)
  ELSE IF s.st # "unfunded" THEN Fail("funded", s)
  ELSE Move([s EXCEPT !.st = "funded"], "tok", e.by, "vest", e.a)
Mine(s, e) == s.st = "funded" /\ e.by = s.who /\ s.kind = "stake" /\ ~e.pay
Delegate(s, e) ==
  IF ~Mine(s, e) THEN Fail("unauthorized", s)
  ELSE IF e.v \notin Vals \/ e.a = "0" THEN Fail("chain", s)
  \* only what the payment holds for its parties, not what others put there
  ELSE IF BLt(Liquid(s, s.now.t), e.a) \/ BLt(s.hold["ustake"]["vest"], e.a) THEN Fail("liquid", s)
  ELSE Ok(PayRew(Note([s EXCEPT !.hold["ustake"]["vest"] = BSub(@, e.a), !.del[e.v] = BAdd(@, e.a)], e.v, s.now.t, e.a), e.v))
Redelegate(s, e) ==
  LET s1 == Note([s EXCEPT !.del[e.v] = BSub(@, e.a)], e.v, s.now.t, BSub("0", e.a))
      s2 == Note([s1 EXCEPT !.del[e.w] = BAdd(@, e.a), !.hop[e.w] = s.now.t + s.cubs], e.w, s.now.t, e.a)
  IN IF ~Mine(s, e) THEN Fail("unauthorized", s)
     ELSE IF e.v \notin Vals \/ e.w \notin Vals \/ e.a = "0" \/ e.v = e.w THEN Fail("chain", s)
     ELSE IF BLt(s.del[e.v], e.a) \/ s.hop[e.v] > s.now.t THEN Fail("stake", s)
     ELSE IF ~Sound(s1, e.v, s.now.t) THEN Fail("accounts", s)
     ELSE Ok(PayRew(PayRew(s2, e.v), e.w))
Undelegate(s, e) ==
  LET end == s.now.t + s.ubs
      s1 == Note(s, e.v, end, BSub("0", e.a))
  IN IF e.pay \/ (s.st # "canceled" /\ e.by # s.who) THEN Fail("unauthorized", s)
     ELSE IF e.v \notin Vals \/ e.a = "0" \/ BLt(s.del[e.v], e.a) THEN Fail("chain", s)
     ELSE IF ~Sound(s1, e.v, end) THEN Fail("accounts", s)
     ELSE Ok(PayRew([s1 EXCEPT !.del[e.v] = BSub(@, e.a), !.unb = Append(@, [v |-> e.v, n |-> e.a, end |-> s.now.t + s.cubs])], e.v))
\* the next end of an unbonding the payment knows of
Ends(s, v, t) == { x \in s.ends[v] : x > t }
Reg(s, e) ==
  LET s0 == Note(s, e.v, e.t, BSub("0", e.a))
      en == CHOOSE x \in Ends(s, e.v, e.t) : \A y \in Ends(s, e.v, e.t) : x <= y
      s1 == IF e.u /\ Ends(s, e.v, e.t) # {} THEN Note(s0, e.v, en, e.a) ELSE s0
      true == { i \in DOMAIN s.real : s.real[i].v = e.v /\ s.real[i].t = e.t /\ s.real[i].n = e.a /\ s.real[i].u = e.u }
      j == CHOOSE i \in true : \A k \in true : i <= k
      s2 == IF true = {} THEN [s1 EXCEPT !.lied = TRUE] ELSE [s1 EXCEPT !.real = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))]
      spill == Pos(BSub(e.a, s.ow))
  IN IF ~IsOwner(s, e) THEN Fail("unauthorized", s)
     ELSE IF e.t > s.now.t THEN Fail("future", s)
     ELSE IF e.a = "0" \/ s.st = "unfunded" THEN Fail("slash", s)
     ELSE IF e.v \notin Vals THEN Fail("validator", s)
     ELSE IF ~Sound(s1, e.v, e.t) THEN Fail("accounts", s)
     ELSE Ok(IF s.st = "funded" THEN [s2 EXCEPT !.slashed = BAdd(@, e.a)] ELSE [s2 EXCEPT !.ow = Pos(BSub(@, e.a)), !.slashed = BAdd(@, spill)])
-----------------------------------------------------------------------------
\* the chain
Firsts(s, v) == LET S == { i \in DOMAIN s.unb : s.unb[i].v = v /\ s.unb[i].n # "0" } IN { i \in S : \A j \in S : s.unb[i].end <= s.unb[j].end }
RECURSIVE Cut(_, _, _, _)
Cut(q, S, i, n) == IF i > Len(q) \/ n = "0" THEN q
                   ELSE IF i \notin S THEN Cut(q, S, i + 1, n)
                   ELSE LET k == BMin(n, q[i].n) IN Cut([q EXCEPT ![i].n = BSub(@, k)], S, i + 1, BSub(n, k))
Slash(s, e) ==
  LET S == Firsts(s, e.v)
      rec(end) == [v |-> e.v, t |-> s.now.t, n |-> e.a, u |-> e.u, e |-> end]
  IN IF e.a = "0" THEN Fail("nothing", s)
     ELSE IF ~e.u THEN IF BLt(s.del[e.v], e.a) THEN Fail("stake", s)
                       ELSE Ok([s EXCEPT !.del[e.v] = BSub(@, e.a), !.lost = BAdd(@, e.a), !.real = Append(@, rec(0))])
     ELSE IF BLt(BSumF([i \in S |-> s.unb[i].n]), e.a) THEN Fail("stake", s)
     ELSE Ok([s EXCEPT !.unb = Cut(@, S, 1, e.a), !.lost = BAdd(@, e.a), !.real = Append(@, rec(s.unb[CHOOSE i \in S : TRUE].end))])
Advance(s, e) ==
  LET n == [h |-> s.now.h + e.n, t |-> s.now.t + e.s]
      due == { i \in DOMAIN s.unb : s.unb[i].end <= n.t }
  IN Ok([s EXCEPT !.now = n, !.unb = SelectSeq(@, LAMBDA u : u.end > n.t), !.hold["ustake"]["vest"] = BAdd(@, BSumF([i \in due |-> s.unb[i].n]))])
Apply(s, e) ==
  CASE e.o = "fund" -> FundT(s, e)
    [] e.o = "give" -> LET r == Move(s, e.d, e.by, "vest", e.a) IN IF r.ok = "n" \/ e.a = "0" THEN Fail("funds", s) ELSE Ok(IF e.d = As(s) THEN [r.s EXCEPT !.gift = BAdd(@, e.a)] ELSE r.s)
    [] e.o = "dist" -> Dist(s, e)
    [] e.o = "cancel" -> Cancel(s, e)
    [] e.o = "wd" -> Withdraw(s, e)
    \* an owner with something to withdraw stays
    [] e.o = "renounce" /\ s.st = "canceled" /\ s.ow # "0" -> Fail("owed", s)
    [] e.o \in OwnerOps -> LET r == Transfer(s.own, s.now, e) IN IF r.ok = "n" THEN Fail(r.why, s) ELSE Ok([s EXCEPT !.own = r.s])
    [] e.o = "del" -> Delegate(s, e)
    [] e.o = "red" -> Redelegate(s, e)
    [] e.o = "und" -> LET r == Undelegate(s, e) IN IF r.ok = "n" THEN r ELSE Ok([r.s EXCEPT !.ends[e.v] = @ \cup {s.now.t + s.ubs}])
    [] e.o = "addr" -> IF ~(IF s.st = "canceled" THEN IsOwner(s, e) ELSE e.by = s.who) THEN Fail("unauthorized", s)
                       ELSE IF e.to = "vest" THEN Fail("self", s) ELSE Ok([s EXCEPT !.waddr = e.to])
    [] e.o = "rw" -> IF e.v \notin Vals THEN Fail("chain", s) ELSE IF s.del[e.v] = "0" THEN Fail("chain", s) ELSE Ok(PayRew(s, e.v))
    [] e.o = "reg" -> Reg(s, e)
    [] e.o = "slash" -> Slash(s, e)
    [] e.o = "reward" -> IF s.del[e.v] = "0" THEN Fail("stake", s) ELSE Ok([s EXCEPT !.rew[e.v] = BAdd(@, e.a)])
    [] e.o = "adv" -> Advance(s, e)

Rising(q) == \A i \in 1..Len(q) - 1 : q[i].x < q[i + 1].x /\ BLe(q[i].y, q[i + 1].y)
q1(c) == c.q[1]
\* a start some part of a second later
Frac(c) == IF "frac" \in DOMAIN c /\ c.frac THEN 1 ELSE 0
CurveOk(c) == c.total # "0" /\ c.dur > 0 /\ c.start + c.dur + Frac(c) > 0
              /\ (c.q = <<>> \/ (Len(c.q) >= 2 /\ q1(c).x > 0 /\ q1(c).y = "0" /\ Rising(c.q) /\ c.q[Len(c.q)].y = c.total))
Paid(c) == IF c.kind = "tok" THEN c.sent = <<>> ELSE c.sent = <<[d |-> IF c.kind = "stake" THEN "ustake" ELSE "una", n |-> c.total]>>
Init(c) ==
  LET zero == [w \in Accts |-> "0"]
      none == [v \in Vals |-> "0"]
      with(x) == [zero EXCEPT !["boss"] = c.hold, !["alice"] = "50"]
      ok == c.kind \in {"stake", "una", "tok"} /\ CurveOk(c) /\ Paid(c) /\ (c.kind = "tok" \/ BLe(c.total, c.hold))
      s == [kind |-> c.kind, now |-> [h |-> 0, t |-> 0], hold |-> [x \in Assets |-> with(x)], st |-> IF c.kind = "tok" THEN "unfunded" ELSE "funded", ow |-> "0", claimed |-> "0", slashed |-> "0",
            curve |-> IF c.q = <<>> THEN [k |-> "lin", y |-> c.total, d |-> c.dur] ELSE [k |-> "pw", q |-> c.q], start |-> c.start, who |-> c.who, own |-> Owned(c.owner), ubs |-> c.ubs, cubs |-> c.cubs,
            waddr |-> IF c.kind = "stake" THEN c.who ELSE "vest", f |-> [v \in Vals |-> EmptyF], ends |-> [v \in Vals |-> {}], del |-> none, unb |-> <<>>, rew |-> none, hop |-> [v \in Vals |-> 0],
            real |-> <<>>, lied |-> FALSE, gift |-> "0", got |-> "0", lost |-> "0", fund |-> c.total]
  IN [ok |-> ok, s |-> IF ok /\ c.kind # "tok" THEN Move(s, As(s), "boss", "vest", c.total).s ELSE s]

Unb(s, v, x) == BSumF([i \in { i \in DOMAIN s.unb : s.unb[i].v = v /\ s.unb[i].end > x } |-> s.unb[i].n])
Show(s, t) == IF Broken(s, t) THEN "err" ELSE Avail(s, t)
Obs(s) ==
  LET t == s.now.t IN
  [now |-> s.now, hold |-> s.hold, own |-> s.own, info |-> [st |-> s.st, ow |-> s.ow, claimed |-> s.claimed, slashed |-> s.slashed, who |-> s.who],
   vested |-> [i \in 1..3 |-> Vested(s, t + <<0, 4, 11>>[i])], total |-> Most(s), dur |-> Length(s), dist |-> [i \in 1..2 |-> Show(s, t + <<0, 4>>[i])],
   waddr |-> s.waddr, chain |-> [v \in Vals |-> <<s.del[v], Unb(s, v, t), s.rew[v]>>],
   stake |-> [i \in 1..6 |-> LET x == t + <<0 - 6, 0 - 2, 0, 1, 3, 8>>[i] IN [c |-> ToString(Card(s, x)), t |-> Staked(s, x), v |-> [v \in Vals |-> At(s, v, x)]]]]
Honest(s) == ~s.lied /\ s.real = <<>> /\ s.ubs = s.cubs
Bank(s) == BSub(s.hold[As(s)]["vest"], s.gift)
Inv(s) ==
  [ vested |-> BLe(s.claimed, Vested(s, s.now.t)),
    \* the payment's own books agree with the chain's, whatever happened
    books |-> Honest(s) /\ s.st # "unfunded" => Liquid(s, s.now.t) = Bank(s),
    stake |-> Honest(s) => \A v \in Vals, d \in {0, 1, 3, 8} : At(s, v, s.now.t + d) = (LET x == s.now.t + d IN BAdd(s.del[v], Unb(s, v, x))),
    \* every coin is somewhere
    coins |-> s.st # "unfunded" /\ s.kind = "stake" => BAdd(BAdd(Bank(s), s.lost), BAdd(s.claimed, BAdd(s.got, BSumF([v \in Vals |-> BAdd(s.del[v], Unb(s, v, s.now.t))])))) = s.fund,
    settled |-> Honest(s) /\ s.st = "canceled" => BAdd(s.ow, Owed(s, s.now.t)) = BAdd(Bank(s), Staked(s, s.now.t)) ]
Gain(x, y, w) == BSub(y.hold[As(x)][w], x.hold[As(x)][w])
StepP(x, e, y) ==
  LET t == y.now.t IN
  [ curve |-> e.o # "cancel" => y.curve = x.curve,
    owner |-> OwnerSteps(x.own, x.now, e, y.own),
    st |-> x.st # y.st => (x.st = "unfunded" /\ y.st = "funded" /\ e.o = "fund") \/ (y.st = "canceled" /\ e.o = "cancel" /\ e.by = x.own.owner),
    \* a cancellation takes nothing that has vested, and stops the rest
    cancel |-> e.o = "cancel" /\ x.st # y.st => /\ BAdd(BSub(y.claimed, x.claimed), Owed(y, t)) = Owed(x, t) /\ Vested(y, t + 100) = Vested(x, t)
                                               /\ BAdd(BSub(y.got, x.got), y.ow) = BSub(BAdd(Liquid(x, t), Staked(x, t)), Owed(x, t)),
    claimed |-> y.claimed # x.claimed => e.o \in {"dist", "cancel"} /\ BSub(y.claimed, x.claimed) = BMin(BSub(y.claimed, x.claimed), Owed(x, t)),
    owed |-> e.o \notin {"dist", "cancel", "reg", "adv"} => Owed(y, t) = Owed(x, t),
    got |-> y.got # x.got => e.o = "cancel" \/ (e.o = "wd" /\ x.st = "canceled" /\ BLe(BSub(y.got, x.got), x.ow)),
    out |-> BLt(y.hold[As(x)]["vest"], x.hold[As(x)]["vest"]) => e.o \in {"dist", "cancel", "wd", "del"},
    waddr |-> y.waddr # x.waddr => \/ e.o = "cancel" /\ y.waddr = x.own.owner
                                   \/ e.o = "addr" /\ e.by = (IF x.st = "canceled" THEN x.own.owner ELSE x.who) ]
=============================================================================
