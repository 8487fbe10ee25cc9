------------------------------ MODULE GovSingle ------------------------------
(* contracts/proposal/dao-proposal-single: yes / no / abstain proposals.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigInt, Kit
CastOf(p) == BAdd(p.yes, BAdd(p.no, p.ab))
Fin(s, e) == IF e.k = "h" THEN s.now.h >= e.v ELSE IF e.k = "t" THEN s.now.t >= e.v ELSE FALSE
SE9 == "1000000000"
SE18 == "1000000000000000000"
Enough(v, opt, pc) ==
  /\ opt # "0"
  /\ IF pc = "maj" THEN BLt(opt, BMul(v, "2")) ELSE BLe(BDiv(BMul(BMul(opt, SE9), pc), SE18), BMul(v, SE9))

\* the votes cast are enough, counting everyone who did not abstain while the
\* vote is running and only those who voted once it is over
YesWins(p, over) ==
  CASE p.th.k = "abs_pct" -> Enough(p.yes, BSub(p.total, p.ab), p.th.p)
    [] p.th.k = "tq" -> /\ Enough(CastOf(p), p.total, p.th.q)
                        /\ Enough(p.yes, IF over THEN BAdd(p.yes, p.no) ELSE BSub(p.total, p.ab), p.th.p)
    [] OTHER -> BLe(p.th.p, p.yes)
\* no further yes votes could be enough
Hopeless(p) ==
  LET opt == BSub(p.total, p.ab) IN
  CASE p.th.k = "count" -> BLt(BSub(p.total, BAdd(p.no, p.ab)), p.th.p)
    [] OTHER -> ~Enough(BSub(opt, p.no), opt, p.th.p)
SVerdict(s, p) ==
  LET over == Fin(s, p.exp) IN
  IF over THEN (IF YesWins(p, TRUE) /\ (p.min.k = "none" \/ Fin(s, p.min)) THEN "pass" ELSE "fail")
  ELSE IF p.revote THEN "none"
  ELSE IF YesWins(p, FALSE) /\ (p.min.k = "none" \/ Fin(s, p.min)) THEN "pass"
  ELSE IF Hopeless(p) THEN "fail" ELSE "none"

PctOkS(p) == p = "maj" \/ (p # "0" /\ BLe(p, SE18))
SCfgOk(c) ==
  /\ CASE c.th.k = "abs_pct" -> PctOkS(c.th.p)
       [] c.th.k = "tq" -> PctOkS(c.th.p) /\ (c.th.q = "maj" \/ BLe(c.th.q, SE18))
       [] OTHER -> c.th.p # "0"
  /\ c.min.k = "none" \/ (c.min.k = c.max.k /\ c.min.v <= c.max.v)
  /\ ~c.veto.on \/ (c.veto.who # "VETOER" /\ c.veto.tl.k = c.max.k)
CfgFields == {"th", "max", "min", "ome", "revote", "close", "veto", "dao"}
SNewCfg(s, c) == [f \in CfgFields |-> c[f]]
SMsgs(p) == p.msgs
G == INSTANCE Gov WITH Verdict <- SVerdict, CfgOk <- SCfgOk, NewCfg <- SNewCfg, MsgsOf <- SMsgs, OkStatus <- "executed"

Init(c) ==
  [ok |-> SCfgOk(c), s |-> G!Fresh(c, SNewCfg(0, c))]

Add(p, v, w) == CASE v = "yes" -> [p EXCEPT !.yes = BAdd(@, w)]
                  [] v = "no" -> [p EXCEPT !.no = BAdd(@, w)]
                  [] OTHER -> [p EXCEPT !.ab = BAdd(@, w)]
Rem(p, v, w) == CASE v = "yes" -> [p EXCEPT !.yes = BSub(@, w)]
                  [] v = "no" -> [p EXCEPT !.no = BSub(@, w)]
                  [] OTHER -> [p EXCEPT !.ab = BSub(@, w)]

\* casting a ballot, before the listeners are told
Cast(s, who, id, v, why) ==
  IF ~G!HasProp(s, id) THEN Fail("noprop", s)
  ELSE IF s.cfg.dao # "dao" THEN Fail("noquery", s)
  ELSE
  LET p == s.props[id]
      w == G!PowerOf(p.snap, who)
      b == s.ballots[id]
      p1 == IF Has(b, who) THEN Rem(p, b[who].v, b[who].w) ELSE p
      p2 == Add(p1, v, w)
  IN IF Fin(s, p.exp) THEN Fail("expired", s)
     ELSE IF w = "0" THEN Fail("nopower", s)
     ELSE IF Has(b, who) /\ ~p.revote THEN Fail("voted", s)
     ELSE IF Has(b, who) /\ b[who].v = v THEN Fail("samevote", s)
     ELSE Ok([s EXCEPT !.props[id] = G!Upd(s, p2),
                       !.ballots[id] = Put(@, who, [v |-> v, w |-> w, why |-> why])])
\* the listeners of a ballot
Heard(s, s1, who, id, v) ==
  G!Tell(G!Changed(s1, s.phooks, id, s.props[id].status, s1.props[id].status),
         "vote", s.vhooks, "vote:" \o ToString(id) \o ":" \o who \o ":" \o v)
Vote(s, who, id, v, why) ==
  LET r == Cast(s, who, id, v, why) IN
  IF r.ok = "n" THEN r ELSE Ok(Heard(s, r.s, who, id, v))

Propose(s, e) ==
  IF ~G!MayPropose(s, e.by, e.named) THEN Fail("policy", s)
  ELSE IF s.cfg.dao # "dao" THEN Fail("noquery", s)
  ELSE IF ~s.active THEN Fail("inactive", s)
  ELSE IF e.big THEN Fail("big", s)
  ELSE
  LET id == Len(s.props) + 1
      who == G!Proposer(s, e.by, e.named)
      p == [id |-> id, title |-> e.title, by |-> who, start |-> s.now.h,
            min |-> IF s.cfg.min.k = "none" THEN G!None ELSE G!After(s.now, s.cfg.min),
            exp |-> G!After(s.now, s.cfg.max), th |-> s.cfg.th, total |-> BSumF(s.blk), msgs |-> e.msgs,
            status |-> "open", tl |-> G!None, yes |-> "0", no |-> "0", ab |-> "0",
            revote |-> s.cfg.revote, veto |-> s.cfg.veto, snap |-> s.blk]
      s1 == [s EXCEPT !.props = Append(@, G!Upd(s, p)), !.ballots = Append(@, EmptyF)]
      new == "new:" \o ToString(id) \o ":" \o who
      r == Cast(s1, who, id, e.av, e.why)
  IN IF e.av = "" THEN Ok(G!Tell(s1, "prop", s.phooks, new))
     ELSE IF r.ok = "n" THEN Fail(r.why, s)
     ELSE Ok(Heard(s1, G!Tell(r.s, "prop", s.phooks, new), who, id, e.av))

Rationale(s, e) ==
  IF ~G!HasProp(s, e.id) \/ ~Has(s.ballots[e.id], e.by) THEN Fail("novote", s)
  ELSE Ok([s EXCEPT !.ballots[e.id][e.by].why = e.why])

Apply(s, e) ==
  CASE e.o = "propose" -> Propose(s, e)
    [] e.o = "vote" -> Vote(s, e.by, e.id, e.vote, e.why)
    [] e.o = "rationale" -> Rationale(s, e)
    [] e.o = "veto" -> G!Veto(s, e.by, e.id)
    [] OTHER -> G!Env(s, e)

Obs(s) == G!ObsCommon(s)

SumOf(b, v) == BSumF([x \in { y \in DOMAIN b : b[y].v = v } |-> b[x].w])
Inv(s) ==
  [ tally |-> \A i \in DOMAIN s.props : LET p == s.props[i] b == s.ballots[i] IN
       p.yes = SumOf(b, "yes") /\ p.no = SumOf(b, "no") /\ p.ab = SumOf(b, "abstain") /\ BLe(CastOf(p), p.total),
    \* nothing is decided before the vote is over when ballots may change
    revote |-> \A i \in DOMAIN s.props : LET p == s.props[i] IN
       (p.revote /\ ~Fin(s, p.exp)) => p.status \in {"open", "vetoed"},
    minperiod |-> \A i \in DOMAIN s.props : LET p == s.props[i] IN
       (p.min.k # "none" /\ ~Fin(s, p.min)) => p.status \notin {"passed", "timelock", "executed", "execution_failed"} ]
    @@ G!InvCommon(s)
=============================================================================
