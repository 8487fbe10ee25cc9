------------------------------ MODULE Factory -------------------------------
(* Two contracts that create others.                                           *)
(*  pf  cw-payroll-factory: makes vesting contracts, paid for by who asks, and   *)
(*      lists them (all, by who asked, by recipient)                            *)
(*  af  cw-admin-factory: makes contracts that are their own admin              *)
(* made, kids: what they made.  n: contracts on the chain so far; the next one  *)
(* made without a salt has address "contract<n>".                              *)
EXTENDS Owner
Users == {"alice", "bob", "boss"}
Accts == Users \cup {"pf", "af"}
Native == {"una", "ubb"}
Tokens == {"tok", "fake"}
Assets == Native \cup Tokens
Valid(w) == w \notin {"X", ""}
Next(s) == "contract" \o ToString(s.n)
\* authorised: nobody owns the factory, or the owner asks
Auth(s, w) == s.own.owner \in {"", w}
Sound(s, m) == m.total # "0" /\ m.dur > 0 /\ Valid(m.who) /\ m.own # "X" /\ s.code \in {"vest", "vest2"} /\ m.label # ""
Take1(s, as, from, a) == IF BLt(s.hold[as][from], a) THEN Fail("funds", s) ELSE Ok([s EXCEPT !.hold[as][from] = BSub(@, a)])
Made(s, by, m) == [s EXCEPT !.n = @ + 1, !.made = Append(@, [a |-> Next(s), by |-> by, who |-> m.who, own |-> m.own, total |-> m.total, d |-> m.d, dur |-> m.dur, code |-> s.code, label |-> m.label, st |-> "funded", bal |-> m.total])]
NatPay(s, e) ==
  IF e.m.d \notin Native THEN Fail("denom", s)
  ELSE IF ~Auth(s, e.by) THEN Fail("unauthorized", s)
  ELSE IF ~Sound(s, e.m) THEN Fail("bad", s)
  ELSE IF e.f # <<[d |-> e.m.d, a |-> e.m.total]>> THEN Fail("payment", s)
  ELSE LET r == Take1(Made(s, e.by, e.m), e.m.d, e.by, e.m.total) IN IF r.ok = "n" THEN Fail("funds", s) ELSE r
CwPay(s, e) ==
  IF e.m.d # e.t \/ e.t \notin Tokens THEN Fail("denom", s)
  ELSE IF ~Auth(s, e.by) THEN Fail("unauthorized", s)
  ELSE IF ~Sound(s, e.m) THEN Fail("bad", s)
  ELSE IF e.a # e.m.total THEN Fail("payment", s)
  ELSE LET r == Take1(Made(s, e.by, e.m), e.t, e.by, e.a) IN IF r.ok = "n" THEN Fail("funds", s) ELSE r
Kid(s, e, a) ==
  IF s.adm \notin {"", e.by} THEN Fail("unauthorized", s)
  ELSE IF e.c # "cw20" \/ ~e.good \/ e.label = "" THEN Fail("bad", s)
  ELSE IF a \in { s.kids[i].a : i \in DOMAIN s.kids } THEN Fail("address", s)
  ELSE LET r == Take1([s EXCEPT !.n = @ + 1, !.kids = Append(@, [a |-> a, admin |-> a, by |-> "af", label |-> e.label, bal |-> e.a])], "una", e.by, e.a) IN IF r.ok = "n" THEN Fail("funds", s) ELSE r
Raw(s, e) ==
  CASE e.o = "nat" -> NatPay(s, e)
    [] e.o = "cw" -> CwPay(s, e)
    \* someone who is no token says it brought some
    [] e.o = "rcv" -> Fail("unauthorized", s)
    [] e.o = "give" -> LET r == Take1(s, e.d, e.by, e.a) IN IF r.ok = "n" THEN r ELSE Ok([r.s EXCEPT !.hold[e.d][e.to] = BAdd(@, e.a)])
    [] e.o = "code" -> IF s.own.owner = "" \/ e.by # s.own.owner THEN Fail("unauthorized", s) ELSE Ok([s EXCEPT !.code = e.c])
    [] e.o = "new" -> Kid(s, e, Next(s))
    [] e.o = "new2" -> IF e.x \notin {"", "contract" \o e.salt} THEN Fail("expected", s) ELSE Kid(s, e, "contract" \o e.salt)
    [] e.o \in OwnerOps -> LET r == Transfer(s.own, s.now, e) IN IF r.ok = "n" THEN Fail(r.why, s) ELSE Ok([s EXCEPT !.own = r.s])
    [] e.o = "adv" -> Ok([s EXCEPT !.now = [h |-> @.h + e.n, t |-> @.t + e.s]])
Apply(s, e) == Raw(s, e)
\* the tokens and factories are contract0 to contract3
Init(c) ==
  [ok |-> c.own # "X" /\ c.adm # "X",
   s |-> [now |-> [h |-> 0, t |-> 0], own |-> Owned(c.own), code |-> "vest", adm |-> c.adm, n |-> 4, made |-> <<>>, kids |-> <<>>,
          hold |-> [x \in Assets |-> [w \in Accts |-> IF w \in Users THEN c.n ELSE "0"]]]]
-----------------------------------------------------------------------------
Entry(m) == [a |-> m.a, by |-> m.by, who |-> m.who]
Addrs(s, P(_)) == { s.made[i].a : i \in { i \in DOMAIN s.made : P(s.made[i]) } }
At(s, a) == Entry(s.made[CHOOSE i \in DOMAIN s.made : s.made[i].a = a])
Page(s, S, rev, w, n) ==
  LET q == IF rev THEN Rev(Sorted(S)) ELSE Sorted(S)
      f == IF w = "" THEN q ELSE SelectSeq(q, LAMBDA x : IF rev THEN SLt(x, w) ELSE SLt(w, x))
      g == Take(f, MinI(n, 50))
  IN [i \in DOMAIN g |-> At(s, g[i])]
Pages(s, P(_)) == LET S == Addrs(s, P) IN [rev \in {"f", "r"} |-> << Page(s, S, rev = "r", "", 10), Page(s, S, rev = "r", "contract12", 2), Page(s, S, rev = "r", "contract6", 60) >>]
Askers == Users \cup {"carol"}
Obs(s) ==
  [now |-> s.now, own |-> s.own, code |-> s.code, adm |-> s.adm, hold |-> s.hold, made |-> s.made, kids |-> s.kids,
   all |-> Pages(s, LAMBDA m : TRUE), inst |-> [w \in Askers |-> Pages(s, LAMBDA m : m.by = w)], rec |-> [w \in Askers |-> Pages(s, LAMBDA m : m.who = w)]]
Out(s, x) == BSumSeq([i \in DOMAIN s.made |-> IF s.made[i].d = x THEN s.made[i].bal ELSE "0"])
Inv(s) ==
  [ unique |-> \A i, j \in DOMAIN s.made : s.made[i].a = s.made[j].a => i = j,
    funded |-> \A i \in DOMAIN s.made : s.made[i].bal = s.made[i].total,
    selves |-> \A i \in DOMAIN s.kids : s.kids[i].admin = s.kids[i].a ]
StepP(x, e, y) ==
  [ kept |-> Len(y.made) >= Len(x.made) /\ SubSeq(y.made, 1, Len(x.made)) = x.made /\ Len(y.kids) >= Len(x.kids) /\ SubSeq(y.kids, 1, Len(x.kids)) = x.kids,
    asked |-> x.made # y.made => Len(y.made) = Len(x.made) + 1 /\ LET m == y.made[Len(y.made)] IN
                 /\ m.by = e.by /\ x.own.owner \in {"", e.by} /\ m.who = e.m.who /\ m.total = e.m.total
                 \* paid by who asked, and by nobody else
                 /\ \A d \in Assets : \A w \in Accts : y.hold[d][w] = IF d = m.d /\ w = e.by THEN BSub(x.hold[d][w], m.total) ELSE x.hold[d][w],
    kid |-> x.kids # y.kids => x.adm \in {"", e.by} /\ (e.o = "new2" /\ e.x # "" => y.kids[Len(y.kids)].a = e.x),
    code |-> x.code # y.code => e.by = x.own.owner,
    sum |-> \A d \in Native : BAdd(BSumF(x.hold[d]), Out(x, d)) = BAdd(BAdd(BSumF(y.hold[d]), Out(y, d)), IF x.kids # y.kids /\ d = "una" THEN e.a ELSE "0"),
    owner |-> OwnerSteps(x.own, x.now, e, y.own) ]
=============================================================================
