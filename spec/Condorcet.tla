------------------------------ MODULE Condorcet ------------------------------
(* contracts/proposal/dao-proposal-condorcet: voters rank all candidates; the   *)
(* candidate preferred to every other by a weighted majority wins.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigInt, Kit
Nothing(s, p) == "none"
G == INSTANCE Gov WITH Verdict <- Nothing, CfgOk <- LAMBDA c : TRUE, NewCfg <- LAMBDA s, c : c,
                       MsgsOf <- LAMBDA p : <<>>, OkStatus <- "executed"
CfgFields == {"quorum", "max", "min", "close"}
CCfgOk(c) == G!QuorumOk(c.quorum) /\ G!PeriodOk(c.min, c.max)
CNewCfg(c) == [f \in CfgFields |-> c[f]]

Init(c) == [ok |-> CCfgOk(c),
            s |-> [now |-> [h |-> 0, t |-> 0], cfg |-> CNewCfg(c), props |-> <<>>, ballots |-> <<>>,
                   pow |-> c.powers, blk |-> c.powers, fund |-> c.fund,
                   bal |-> [dao |-> c.fund, payee1 |-> "0", payee2 |-> "0"]]]

------------------------------------------------------------------------------
\* the margins between candidates; m[x][y] is how much more power prefers x to y
N(p) == Len(p.choices)
Cands(p) == 0..(N(p) - 1)
At(rank, x) == CHOOSE i \in DOMAIN rank : rank[i] = x
Above(rank, x, y) == At(rank, x) < At(rank, y)
Count(m, rank, w) == [x \in DOMAIN m |-> [y \in DOMAIN m |->
                        IF x = y THEN "0" ELSE IF Above(rank, x, y) THEN BAdd(m[x][y], w) ELSE BSub(m[x][y], w)]]
Cast(p) == BSub(p.total, p.left)
IsRank(rank, n) == Len(rank) = n /\ Range(rank) = 0..(n - 1)

\* x is preferred to every other candidate
Beats(p, x) == \A y \in Cands(p) \ {x} : BLt("0", p.m[x][y])
HasWinner(p) == \E x \in Cands(p) : Beats(p, x)
TheWinner(p) == CHOOSE x \in Cands(p) : Beats(p, x)
\* no remaining ballot can take the win from x
Safe(p, x) == \A y \in Cands(p) \ {x} : BLt(p.left, p.m[x][y])
\* the votes outstanding could still make x the winner, as far as the bounds used
\* can tell: each deficit is less than the power left, and all together are not
\* more than every remaining voter can make up
Deficit(p, x, y) == IF BLt("0", p.m[x][y]) THEN "0" ELSE BAdd(BSub("0", p.m[x][y]), "1")
Hope(p, x) ==
  /\ \A y \in Cands(p) \ {x} : BLt("0", BAdd(p.m[x][y], p.left))
  /\ BLe(BSumF([y \in Cands(p) \ {x} |-> Deficit(p, x, y)]), BMul(p.left, ToString(N(p) - 1)))
Lead(p) == IF HasWinner(p) THEN [k |-> IF Safe(p, TheWinner(p)) THEN "undisputed" ELSE "some", who |-> TheWinner(p)]
           ELSE [k |-> IF \E x \in Cands(p) : Hope(p, x) THEN "none" ELSE "never", who |-> -1]

Quorate(p) == G!Reach(Cast(p), p.total, p.quorum)
Cur(s, p) ==
  LET w == Lead(p) over == G!Expired(s.now, p.exp)
      open == [st |-> "open", pick |-> -1]
      rej == [st |-> "rejected", pick |-> -1]
      pass == [st |-> "passed", pick |-> w.who]
  IN IF p.status # "open" THEN [st |-> p.status, pick |-> p.pick]
     ELSE IF p.min.k # "none" /\ ~G!Expired(s.now, p.min) THEN open
     ELSE IF over THEN (IF w.k \in {"some", "undisputed"} /\ Quorate(p) THEN pass ELSE rej)
     ELSE IF w.k = "never" THEN rej
     ELSE IF w.k = "undisputed" /\ Quorate(p) THEN pass
     ELSE open
Upd(s, p) == LET c == Cur(s, p) IN [p EXCEPT !.status = c.st, !.pick = c.pick]
HasProp(s, id) == id >= 1 /\ id <= Len(s.props)
PowerOf(f, who) == Get(f, who, "0")

Propose(s, e) ==
  IF PowerOf(s.pow, e.by) = "0" THEN Fail("nopower", s)
  ELSE IF e.choices = <<>> THEN Fail("nochoice", s)
  ELSE LET n == Len(e.choices) + 1
           total == BSumF(s.blk)
           p == [id |-> Len(s.props) + 1, by |-> e.by, quorum |-> s.cfg.quorum,
                 min |-> IF s.cfg.min.k = "none" THEN G!None ELSE G!After(s.now, s.cfg.min),
                 close |-> s.cfg.close, total |-> total, choices |-> Append(e.choices, <<>>),
                 status |-> "open", pick |-> -1, exp |-> G!After(s.now, s.cfg.max), start |-> s.now.h,
                 left |-> total, m |-> [x \in 0..(n - 1) |-> [y \in 0..(n - 1) |-> "0"]], snap |-> s.blk]
       IN Ok([s EXCEPT !.props = Append(@, Upd(s, p)), !.ballots = Append(@, EmptyF)])
Vote(s, e) ==
  IF ~HasProp(s, e.id) THEN Fail("noprop", s)
  ELSE LET p == s.props[e.id] w == PowerOf(p.snap, e.by) IN
    IF w = "0" THEN Fail("nopower", s)
    ELSE IF Has(s.ballots[e.id], e.by) THEN Fail("voted", s)
    ELSE IF G!Expired(s.now, p.exp) THEN Fail("expired", s)
    ELSE IF ~IsRank(e.rank, N(p)) THEN Fail("ballot", s)
    ELSE Ok([s EXCEPT !.props[e.id] = [p EXCEPT !.m = Count(@, e.rank, w), !.left = BSub(@, w)],
                      !.ballots[e.id] = Put(@, e.by, e.rank)])
SetCfg(s, by, c) ==
  IF by # "dao" THEN Fail("notdao", s) ELSE IF ~CCfgOk(c) THEN Fail("badcfg", s)
  ELSE Ok([s EXCEPT !.cfg = CNewCfg(c)])

RECURSIVE Run(_, _)
RECURSIVE Exec(_, _, _)
Run(s, q) ==
  IF q = <<>> THEN [ok |-> TRUE, s |-> s]
  ELSE LET m == Head(q) IN
    CASE m.k = "pay" ->
           IF BLt(s.bal["dao"], m.a) THEN [ok |-> FALSE, s |-> s]
           ELSE Run([s EXCEPT !.bal = [@ EXCEPT !["dao"] = BSub(@, m.a), ![m.to] = BAdd(@, m.a)]], Tail(q))
      [] m.k = "cfg" -> LET r == SetCfg(s, "dao", m.c) IN IF r.ok = "y" THEN Run(r.s, Tail(q)) ELSE [ok |-> FALSE, s |-> s]
      [] m.k = "reexec" -> LET r == Exec(s, "dao", m.id) IN IF r.ok = "y" THEN Run(r.s, Tail(q)) ELSE [ok |-> FALSE, s |-> s]
      [] OTHER -> [ok |-> FALSE, s |-> s]
Exec(s, by, id) ==
  IF ~HasProp(s, id) THEN Fail("noprop", s)
  ELSE LET p == Upd(s, s.props[id])
           s1 == [s EXCEPT !.props[id] = [p EXCEPT !.status = "executed", !.pick = -1]]
           r == Run(s1, p.choices[p.pick + 1])
       IN IF PowerOf(p.snap, by) = "0" THEN Fail("nopower", s)
          ELSE IF p.status # "passed" THEN Fail("notpassed", s)
          ELSE IF r.ok THEN Ok(r.s)
          ELSE IF p.close THEN Ok([s1 EXCEPT !.props[id].status = "execution_failed"])
          ELSE Fail("failedmsg", s)
Close(s, id) ==
  IF ~HasProp(s, id) THEN Fail("noprop", s)
  ELSE LET p == Upd(s, s.props[id]) IN
       IF p.status # "rejected" THEN Fail("notrejected", s)
       ELSE Ok([s EXCEPT !.props[id] = [p EXCEPT !.status = "closed"]])

Apply(s, e) ==
  CASE e.o = "propose" -> Propose(s, e)
    [] e.o = "vote" -> Vote(s, e)
    [] e.o = "exec" -> Exec(s, e.by, e.id)
    [] e.o = "close" -> Close(s, e.id)
    [] e.o = "cfg" -> SetCfg(s, e.by, e.c)
    [] e.o = "power" -> Ok([s EXCEPT !.pow = Put(@, e.who, e.p)])
    [] e.o = "adv" -> Ok([s EXCEPT !.now = [h |-> @.h + e.n, t |-> @.t + e.s], !.blk = IF e.n > 0 THEN s.pow ELSE @])

------------------------------------------------------------------------------
RECURSIVE Cells(_, _, _)
\* what the contract stores: for each pair y < x the margin of x over y
Cells(p, y, x) == IF y >= N(p) - 1 THEN <<>>
                  ELSE IF x > N(p) - 1 THEN Cells(p, y + 1, y + 2)
                  ELSE <<p.m[x][y]>> \o Cells(p, y, x + 1)
ObsProp(s, p) ==
  LET u == Upd(s, p) w == Lead(p) IN
  [f \in {"id", "by", "quorum", "min", "close", "total", "choices", "status", "pick", "exp", "start", "left"} |-> u[f]]
  @@ [lead |-> w.k, who |-> w.who, m |-> Cells(p, 0, 1)]
RECURSIVE ObsProps(_, _)
ObsProps(s, i) == IF i = 0 THEN EmptyF ELSE (("p" \o ToString(i)) :> ObsProp(s, s.props[i])) @@ ObsProps(s, i - 1)
Obs(s) == ObsProps(s, Len(s.props)) @@ [next |-> Len(s.props) + 1, cfg |-> s.cfg, dao |-> "dao", bal |-> s.bal]

Final == {"executed", "execution_failed", "closed"}
MarginOf(p, b, x, y) == BSub(BSumF([v \in { u \in DOMAIN b : Above(b[u], x, y) } |-> PowerOf(p.snap, v)]),
                             BSumF([v \in { u \in DOMAIN b : Above(b[u], y, x) } |-> PowerOf(p.snap, v)]))
Inv(s) ==
  [ conserve |-> BAdd(s.bal["dao"], BAdd(s.bal["payee1"], s.bal["payee2"])) = s.fund,
    left |-> \A i \in DOMAIN s.props : LET p == s.props[i] IN
       p.left = BSub(BSumF(p.snap), BSumF([v \in DOMAIN s.ballots[i] |-> PowerOf(p.snap, v)])),
    once |-> \A i \in DOMAIN s.props : \A x, y \in Cands(s.props[i]) : x # y =>
       s.props[i].m[x][y] = MarginOf(s.props[i], s.ballots[i], x, y),
    winner |-> \A i \in DOMAIN s.props : LET u == Upd(s, s.props[i]) IN
       u.status = "passed" => u.pick \in Cands(u) ]
Terms == {"id", "by", "quorum", "min", "close", "total", "choices", "exp", "start", "snap"}
StepCommon(x, e, y) ==
  [ terms |-> Len(y.props) >= Len(x.props) /\ \A i \in DOMAIN x.props : \A f \in Terms : x.props[i][f] = y.props[i][f],
    final |-> \A i \in DOMAIN x.props : x.props[i].status \in Final => y.props[i].status = x.props[i].status,
    pay |-> y.bal # x.bal => e.o = "exec" /\ Upd(x, x.props[e.id]).status = "passed" /\ y.props[e.id].status = "executed",
    ends |-> \A i \in DOMAIN x.props : (x.props[i].status \notin Final /\ y.props[i].status \in Final) =>
        IF y.props[i].status = "closed" THEN e.o = "close" /\ Upd(x, x.props[i]).status = "rejected"
        ELSE e.o = "exec" /\ Upd(x, x.props[i]).status = "passed",
    decided |-> \A i \in DOMAIN x.props :
        LET a == Upd(x, x.props[i]) b == Upd(y, y.props[i]) IN
        /\ a.status = "rejected" => b.status \in {"rejected", "closed"}
        /\ a.status = "passed" => (b.status = "passed" /\ b.pick = a.pick) \/ b.status \in {"executed", "execution_failed"} ]
=============================================================================
