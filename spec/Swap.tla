-------------------------------- MODULE Swap ---------------------------------
(* contracts/external/cw-token-swap: an escrowed two-party swap.              *)
EXTENDS Integers, Sequences, TLC, BigInt, Kit
Parties == {"alice", "bob", "carol", "dave"}
Holders == Parties \cup {"swap"}
Toks == {"n1", "n2", "t1", "t2"}

Init(c) ==
  [ok |-> c.p1.who # c.p2.who /\ c.p1.amt # "0" /\ c.p2.amt # "0",
   s  |-> [p |-> <<c.p1, c.p2>>, prov |-> <<FALSE, FALSE>>,
           bal |-> [h \in Holders |-> [k \in Toks |-> IF h = "swap" THEN "0" ELSE c.bal]],
           \* sent to the escrow by nobody's promise
           given |-> [h \in Holders |-> [k \in Toks |-> "0"]], bal0 |-> c.bal]]

Side(s, who) == IF who = s.p[1].who THEN 1 ELSE IF who = s.p[2].who THEN 2 ELSE 0
Move(b, from, to, k, a) ==
  [b EXCEPT ![from][k] = BSub(@, a), ![to] = [@ EXCEPT ![k] = BAdd(@, a)]]

\* payment `a` of token `k` by counterparty i has arrived in bal
Paid(s, i, bal) ==
  IF s.prov[3 - i]
  THEN [s EXCEPT !.prov[i] = TRUE,
                 !.bal = Move(Move(bal, "swap", s.p[3 - i].who, s.p[i].tok, s.p[i].amt),
                              "swap", s.p[i].who, s.p[3 - i].tok, s.p[3 - i].amt)]
  ELSE [s EXCEPT !.prov[i] = TRUE, !.bal = bal]

Fund(s, by, kind, k, a) ==
  LET i == Side(s, by) IN
  IF BLt(s.bal[by][k], a) THEN Fail("balance", s)
  ELSE IF i = 0 THEN Fail("stranger", s)
  ELSE IF s.p[i].kind # kind \/ s.p[i].tok # k THEN Fail("wrongtoken", s)
  ELSE IF s.prov[i] THEN Fail("already", s)
  ELSE IF s.p[i].amt # a THEN Fail("amount", s)
  ELSE Ok(Paid(s, i, Move(s.bal, by, "swap", k, a)))

Apply(s, e) ==
  CASE e.o = "fund" ->
         IF Len(e.funds) # 1 THEN Fail("funds", s)
         ELSE Fund(s, e.by, "native", e.funds[1].d, e.funds[1].a)
    [] e.o = "send" -> Fund(s, e.by, "cw20", e.tok, e.amt)
    [] e.o = "gift" ->
         IF BLt(s.bal[e.by][e.tok], e.amt) \/ e.amt = "0" THEN Fail("balance", s)
         ELSE Ok([s EXCEPT !.bal = Move(@, e.by, "swap", e.tok, e.amt), !.given[e.by][e.tok] = BAdd(@, e.amt)])
    [] e.o = "forge" -> Fail("forged", s)
    [] e.o = "withdraw" ->
         LET i == Side(s, e.by) IN
         IF i = 0 THEN Fail("stranger", s)
         ELSE IF ~s.prov[i] THEN Fail("noprovision", s)
         ELSE IF s.prov[3 - i] THEN Fail("complete", s)
         ELSE Ok([s EXCEPT !.prov[i] = FALSE,
                           !.bal = Move(@, "swap", e.by, s.p[i].tok, s.p[i].amt)])

Obs(s) == [prov |-> s.prov, who |-> <<s.p[1].who, s.p[2].who>>, bal |-> s.bal]

Done(s) == s.prov[1] /\ s.prov[2]
Inv(s) ==
  [ \* value is conserved
    conserve |-> \A k \in Toks : BSumF([h \in Holders |-> s.bal[h][k]]) = BMul(s.bal0, "4"),
    \* the escrow holds exactly what was provided while open and nothing when complete
    escrow |-> s.bal["swap"] =
        [k \in Toks |-> BAdd(BSumF([h \in Parties |-> s.given[h][k]]), IF Done(s) THEN "0"
           ELSE BAdd(IF s.prov[1] /\ s.p[1].tok = k THEN s.p[1].amt ELSE "0",
                     IF s.prov[2] /\ s.p[2].tok = k THEN s.p[2].amt ELSE "0"))],
    \* both sides or neither
    atomic |-> \A i \in 1..2 : \A k \in Toks :
        LET give == IF s.prov[i] /\ s.p[i].tok = k THEN s.p[i].amt ELSE "0"
            take == IF Done(s) /\ s.p[3 - i].tok = k THEN s.p[3 - i].amt ELSE "0"
        IN s.bal[s.p[i].who][k] = BSub(BSub(BAdd(s.bal0, take), give), s.given[s.p[i].who][k]) ]
=============================================================================
