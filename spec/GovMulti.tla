------------------------------- MODULE GovMulti -------------------------------
(* contracts/proposal/dao-proposal-multiple: one of several options, or none   *)
(* of the above (always the last option).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigInt, Kit
E9m == "1000000000"
E18m == "1000000000000000000"
Fin(s, e) == IF e.k = "h" THEN s.now.h >= e.v ELSE IF e.k = "t" THEN s.now.t >= e.v ELSE FALSE
Enough(v, opt, pc) ==
  /\ opt # "0"
  /\ IF pc = "maj" THEN BLt(opt, BMul(v, "2")) ELSE BLe(BDiv(BMul(BMul(opt, E9m), pc), E18m), BMul(v, E9m))
CastOf(p) == BSumSeq(p.votes)
\* option i has more votes than every other
Leads(p, i) == \A j \in DOMAIN p.votes \ {i} : BLt(p.votes[j], p.votes[i])
Tie(p) == ~\E i \in DOMAIN p.votes : Leads(p, i)
Leader(p) == CHOOSE i \in DOMAIN p.votes : Leads(p, i)
Nota(p) == Len(p.votes)
Left(p) == BSub(p.total, CastOf(p))
\* no other option can still overtake (a standard option) or pass (none of the above) the leader
Ahead(p, i) == \A j \in DOMAIN p.votes \ {i} :
                  IF i = Nota(p) THEN BLe(BAdd(p.votes[j], Left(p)), p.votes[i])
                  ELSE BLt(BAdd(p.votes[j], Left(p)), p.votes[i])
\* the option adopted if voting ended with these votes; 0 is none
Winner(p) == IF ~Enough(CastOf(p), p.total, p.quorum) \/ Tie(p) THEN 0
             ELSE IF Leader(p) = Nota(p) THEN 0 ELSE Leader(p)
MVerdict(s, p) ==
  LET over == Fin(s, p.exp)
      minok == p.min.k = "none" \/ Fin(s, p.min)
      w == Winner(p)
  IN IF over THEN (IF w # 0 /\ minok THEN "pass" ELSE "fail")
     ELSE IF p.revote THEN "none"
     ELSE IF minok /\ w # 0 /\ Ahead(p, w) THEN "pass"
     ELSE IF Tie(p) THEN (IF CastOf(p) = p.total THEN "fail" ELSE "none")
     ELSE IF Leader(p) = Nota(p) /\ Ahead(p, Nota(p)) THEN "fail"
     ELSE "none"

MCfgOk(c) ==
  /\ c.quorum = "maj" \/ BLe(c.quorum, E18m)
  /\ c.min.k = "none" \/ (c.min.k = c.max.k /\ c.min.v <= c.max.v)
  /\ ~c.veto.on \/ (c.veto.who # "VETOER" /\ c.veto.tl.k = c.max.k)
CfgFields == {"quorum", "max", "min", "ome", "revote", "close", "veto", "dao"}
MNewCfg(s, c) == [f \in CfgFields |-> c[f]]
MMsgs(p) == p.choices[Leader(p)].msgs
G == INSTANCE Gov WITH Verdict <- MVerdict, CfgOk <- MCfgOk, NewCfg <- MNewCfg, MsgsOf <- MMsgs, OkStatus <- "executed"

Init(c) == [ok |-> MCfgOk(c), s |-> G!Fresh(c, MNewCfg(0, c))]

Opt(v) == ToI(v) + 1
Cast(s, who, id, v, why) ==
  IF ~G!HasProp(s, id) THEN Fail("noprop", s)
  ELSE IF s.cfg.dao # "dao" THEN Fail("noquery", s)
  ELSE
  LET p == s.props[id]
      w == G!PowerOf(p.snap, who)
      b == s.ballots[id]
      v1 == IF Has(b, who) THEN [p.votes EXCEPT ![Opt(b[who].v)] = BSub(@, b[who].w)] ELSE p.votes
  IN IF Opt(v) > Len(p.choices) THEN Fail("nooption", s)
     ELSE IF Fin(s, p.exp) THEN Fail("expired", s)
     ELSE IF w = "0" THEN Fail("nopower", s)
     ELSE IF Has(b, who) /\ ~p.revote THEN Fail("voted", s)
     ELSE IF Has(b, who) /\ b[who].v = v THEN Fail("samevote", s)
     ELSE Ok([s EXCEPT !.props[id] = G!Upd(s, [p EXCEPT !.votes = [v1 EXCEPT ![Opt(v)] = BAdd(@, w)]]),
                       !.ballots[id] = Put(@, who, [v |-> v, w |-> w, why |-> why])])
Heard(s, s1, who, id, v) ==
  G!Tell(G!Changed(s1, s.phooks, id, s.props[id].status, s1.props[id].status),
         "vote", s.vhooks, "vote:" \o ToString(id) \o ":" \o who \o ":" \o v)
Vote(s, who, id, v, why) ==
  LET r == Cast(s, who, id, v, why) IN
  IF r.ok = "n" THEN r ELSE Ok(Heard(s, r.s, who, id, v))

NotaOption == [title |-> "None of the above", msgs |-> <<>>, nota |-> TRUE, good |-> TRUE]
Options(cs) == [i \in DOMAIN cs |-> [title |-> cs[i].title, msgs |-> cs[i].msgs, nota |-> FALSE, good |-> TRUE]] \o <<NotaOption>>
Propose(s, e) ==
  IF ~G!MayPropose(s, e.by, e.named) THEN Fail("policy", s)
  ELSE IF s.cfg.dao # "dao" THEN Fail("noquery", s)
  ELSE IF ~s.active THEN Fail("inactive", s)
  ELSE IF Len(e.choices) < 2 \/ Len(e.choices) > 20 THEN Fail("choices", s)
  ELSE IF e.big THEN Fail("big", s)
  ELSE
  LET id == Len(s.props) + 1
      who == G!Proposer(s, e.by, e.named)
      p == [id |-> id, title |-> e.title, by |-> who, start |-> s.now.h,
            min |-> IF s.cfg.min.k = "none" THEN G!None ELSE G!After(s.now, s.cfg.min),
            exp |-> G!After(s.now, s.cfg.max), quorum |-> s.cfg.quorum, total |-> BSumF(s.blk),
            choices |-> Options(e.choices), status |-> "open", tl |-> G!None,
            votes |-> [i \in 1..Len(e.choices) + 1 |-> "0"],
            revote |-> s.cfg.revote, veto |-> s.cfg.veto, snap |-> s.blk]
      s1 == [s EXCEPT !.props = Append(@, G!Upd(s, p)), !.ballots = Append(@, EmptyF)]
      new == "new:" \o ToString(id) \o ":" \o who
      r == Cast(s1, who, id, e.av, e.why)
  IN IF e.av = "" THEN Ok(G!Tell(s1, "prop", s.phooks, new))
     ELSE IF r.ok = "n" THEN Fail(r.why, s)
     ELSE Ok(Heard(s1, G!Tell(r.s, "prop", s.phooks, new), who, id, e.av))

Rationale(s, e) ==
  IF ~G!HasProp(s, e.id) \/ ~Has(s.ballots[e.id], e.by) THEN Fail("novote", s)
  ELSE Ok([s EXCEPT !.ballots[e.id][e.by].why = e.why])

Apply(s, e) ==
  CASE e.o = "propose" -> Propose(s, e)
    [] e.o = "vote" -> Vote(s, e.by, e.id, e.vote, e.why)
    [] e.o = "rationale" -> Rationale(s, e)
    [] e.o = "veto" -> G!Veto(s, e.by, e.id)
    \* both kinds of migration leave everything as it is
    [] e.o = "migrate" -> IF e.by # "dao" THEN Fail("migrate", s) ELSE Ok(s)
    [] OTHER -> G!Env(s, e)
Obs(s) == G!ObsCommon(s)

SumOf(b, v) == BSumF([x \in { y \in DOMAIN b : b[y].v = v } |-> b[x].w])
Inv(s) ==
  [ tally |-> \A i \in DOMAIN s.props : LET p == s.props[i] b == s.ballots[i] IN
       /\ \A j \in DOMAIN p.votes : p.votes[j] = SumOf(b, ToString(j - 1))
       /\ BLe(CastOf(p), p.total),
    revote |-> \A i \in DOMAIN s.props : LET p == s.props[i] IN
       (p.revote /\ ~Fin(s, p.exp)) => p.status \in {"open", "vetoed"},
    minperiod |-> \A i \in DOMAIN s.props : LET p == s.props[i] IN
       (p.min.k # "none" /\ ~Fin(s, p.min)) => p.status \notin {"passed", "timelock", "executed", "execution_failed"},
    \* what is executed is an option that was offered, and it leads
    winner |-> \A i \in DOMAIN s.props : LET p == s.props[i] IN
       p.status \in {"passed", "timelock", "executed", "execution_failed"} =>
          ~Tie(p) /\ Leader(p) # Nota(p) /\ Enough(CastOf(p), p.total, p.quorum) ]
    @@ G!InvCommon(s)
=============================================================================
