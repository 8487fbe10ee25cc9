--------------------------------- MODULE Gov ---------------------------------
(* What the three proposal modules have in common: clocks, thresholds,        *)
(* configuration, veto and timelock, notification of listeners, execution of  *)
(* a proposal's messages by the DAO.                                          *)
(* A module instantiates this with                                            *)
(*   Verdict(s, p)   "pass", "fail" or "none": what p's votes decide now       *)
(*   CfgOk(c)        is c an acceptable configuration                          *)
(*   NewCfg(s, c)    the configuration stored for an accepted update           *)
(*   MsgsOf(p)       the messages a passed proposal executes                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigInt, Kit
CONSTANTS Verdict(_, _), CfgOk(_), NewCfg(_, _), MsgsOf(_), OkStatus

E9 == "1000000000"
E18 == "1000000000000000000"
None == [k |-> "none", v |-> 0]
NoVeto == [on |-> FALSE, who |-> "", early |-> FALSE, before |-> FALSE, tl |-> None]

------------------------------------------------------------------------------
\* clocks
Expired(now, e) == IF e.k = "h" THEN now.h >= e.v ELSE IF e.k = "t" THEN now.t >= e.v ELSE FALSE
After(now, d) == IF d.k = "h" THEN [k |-> "h", v |-> now.h + d.v] ELSE [k |-> "t", v |-> now.t + d.v]
Plus(e, d) == [e EXCEPT !.v = @ + d.v]

------------------------------------------------------------------------------
\* v of opt votes reach the percentage pc.  Percentages are compared with a
\* precision of 10^-9 of one vote; nothing passes among no options.
Reach(v, opt, pc) ==
  /\ opt # "0"
  /\ IF pc = "maj" THEN BLt(opt, BMul(v, "2"))
     ELSE BLe(BDiv(BMul(BMul(opt, E9), pc), E18), BMul(v, E9))
PctOk(p) == p = "maj" \/ (p # "0" /\ BLe(p, E18))
QuorumOk(p) == p = "maj" \/ BLe(p, E18)
ThOk(th) == CASE th.k = "abs_pct" -> PctOk(th.p)
              [] th.k = "tq" -> PctOk(th.p) /\ QuorumOk(th.q)
              [] OTHER -> th.p # "0"
PeriodOk(min, max) == min.k = "none" \/ (min.k = max.k /\ min.v <= max.v)
VetoOk(v, max) == ~v.on \/ (v.who # "VETOER" /\ v.tl.k = max.k)

------------------------------------------------------------------------------
\* status of a proposal as of now
Cur(s, p) ==
  IF p.status = "open" THEN
    LET d == Verdict(s, p) IN
    IF d = "pass" THEN
      IF p.veto.on /\ ~Expired(s.now, Plus(p.exp, p.veto.tl))
      THEN [st |-> "timelock", tl |-> Plus(p.exp, p.veto.tl)]
      ELSE [st |-> "passed", tl |-> None]
    ELSE IF d = "fail" \/ Expired(s.now, p.exp) THEN [st |-> "rejected", tl |-> None]
    ELSE [st |-> "open", tl |-> None]
  ELSE IF p.status = "timelock" THEN
    IF Expired(s.now, p.tl) THEN [st |-> "passed", tl |-> None] ELSE [st |-> "timelock", tl |-> p.tl]
  ELSE [st |-> p.status, tl |-> None]
Upd(s, p) == LET c == Cur(s, p) IN [p EXCEPT !.status = c.st, !.tl = c.tl]
HasProp(s, id) == id >= 1 /\ id <= Len(s.props)
SetProp(s, id, p) == [s EXCEPT !.props[id] = p]
PowerOf(f, who) == Get(f, who, "0")

------------------------------------------------------------------------------
\* listeners
Push(s, l, text) ==
  [s EXCEPT !.ord = SelectSeq(@, LAMBDA x : x # l) \o <<l>>, !.mocks[l] = [@ EXCEPT !.n = @ + 1,
      !.last = LET q == Append(@, text) IN IF Len(q) > 6 THEN Tail(q) ELSE q]]
\* deliver text to the listeners q in order; a listener that fails is
\* unregistered and the others still get theirs
RECURSIVE Tell(_, _, _, _)
Tell(s, list, q, text) ==
  IF q = <<>> THEN s
  ELSE LET l == Head(q) IN
       Tell(IF s.mocks[l].fail
            THEN IF list = "prop" THEN [s EXCEPT !.phooks = Without(@, l)] ELSE [s EXCEPT !.vhooks = Without(@, l)]
            ELSE Push(s, l, text),
            list, Tail(q), text)
N(id) == ToString(id)
Changed(s, q, id, old, new) ==
  IF old = new THEN s ELSE Tell(s, "prop", q, "chg:" \o N(id) \o ":" \o old \o ":" \o new)
\* the pre-propose module hears of the end of a proposal; if it fails, anyone may propose
Completed(s, pol, id, st) ==
  IF pol.k # "module" THEN s
  ELSE IF s.mocks[pol.a].fail THEN [s EXCEPT !.policy = [k |-> "anyone", a |-> ""]]
  ELSE Push(s, pol.a, "done:" \o N(id) \o ":" \o st)

------------------------------------------------------------------------------
\* administration, by the DAO only
AdminCfg(s, by, c) ==
  IF by # s.cfg.dao THEN Fail("notdao", s)
  ELSE IF ~CfgOk(c) THEN Fail("badcfg", s)
  ELSE Ok([s EXCEPT !.cfg = NewCfg(s, c)])
NewMock == [n |-> 0, last |-> <<>>, fail |-> FALSE]
SetPolicy(s, by, kind) ==
  IF by # s.cfg.dao THEN Fail("notdao", s)
  ELSE IF kind = "broken" THEN Fail("broken", s)
  ELSE IF kind = "anyone" THEN Ok([s EXCEPT !.policy = [k |-> "anyone", a |-> ""]])
  ELSE LET l == "pp" \o N(s.npp + 1) IN
       Ok([s EXCEPT !.policy = [k |-> "module", a |-> l], !.npp = @ + 1, !.mocks = Put(@, l, NewMock)])
Hook(s, by, list, add, who) ==
  LET q == IF list = "prop" THEN s.phooks ELSE s.vhooks
      r == IF add THEN Append(q, who) ELSE Without(q, who)
  IN IF by # s.cfg.dao THEN Fail("notdao", s)
     ELSE IF add /\ who \in Range(q) THEN Fail("dup", s)
     ELSE IF ~add /\ who \notin Range(q) THEN Fail("nohook", s)
     ELSE Ok(IF list = "prop" THEN [s EXCEPT !.phooks = r] ELSE [s EXCEPT !.vhooks = r])

------------------------------------------------------------------------------
\* execution: the DAO runs the messages in order, all or none
RECURSIVE Run(_, _)
RECURSIVE Exec(_, _, _)
Run(s, q) ==
  IF q = <<>> THEN [ok |-> TRUE, s |-> s]
  ELSE LET m == Head(q) IN
    CASE m.k = "pay" ->
           IF BLt(s.bal["dao"], m.a) THEN [ok |-> FALSE, s |-> s]
           ELSE Run([s EXCEPT !.bal = [@ EXCEPT !["dao"] = BSub(@, m.a), ![m.to] = BAdd(@, m.a)]], Tail(q))
      [] m.k = "cfg" -> LET r == AdminCfg(s, "dao", m.c) IN IF r.ok = "y" THEN Run(r.s, Tail(q)) ELSE [ok |-> FALSE, s |-> s]
      [] m.k = "reexec" -> LET r == Exec(s, "dao", m.id) IN IF r.ok = "y" THEN Run(r.s, Tail(q)) ELSE [ok |-> FALSE, s |-> s]
      [] OTHER -> [ok |-> FALSE, s |-> s]
Exec(s, by, id) ==
  IF ~HasProp(s, id) THEN Fail("noprop", s)
  ELSE
  LET p == Upd(s, s.props[id])
      noquery == s.cfg.ome /\ s.cfg.dao # "dao"
      member == ~s.cfg.ome \/ PowerOf(p.snap, by) # "0"
      may == \/ p.status = "passed" /\ member
             \/ p.status = "timelock" /\ by = p.veto.who /\ p.veto.early
      s1 == SetProp(s, id, [p EXCEPT !.status = OkStatus, !.tl = None])
      r == IF MsgsOf(p) = <<>> THEN [ok |-> TRUE, s |-> s1]
           ELSE IF s.cfg.dao # "dao" THEN [ok |-> FALSE, s |-> s1] ELSE Run(s1, MsgsOf(p))
      s2 == IF r.ok THEN r.s ELSE SetProp(s1, id, [p EXCEPT !.status = "execution_failed", !.tl = None])
      s3 == Completed(Changed(s2, s.phooks, id, p.status, OkStatus), s.policy, id, OkStatus)
  IN IF p.status \notin {"passed", "timelock"} THEN Fail("notpassed", s)
     ELSE IF noquery \/ ~may THEN Fail("unauthorized", s)
     ELSE IF ~r.ok /\ ~s.cfg.close THEN Fail("failedmsg", s)
     \* a pre-propose module that failed already within the messages cannot be detached once more
     ELSE IF s.policy.k = "module" /\ s.mocks[s.policy.a].fail /\ s2.policy.k = "anyone" THEN Fail("detached", s)
     ELSE Ok(s3)

Finish(s, id, p, new) ==
  Completed(Changed(SetProp(s, id, [p EXCEPT !.status = new, !.tl = None]), s.phooks, id, p.status, new), s.policy, id, new)
Close(s, id) ==
  IF ~HasProp(s, id) THEN Fail("noprop", s)
  ELSE LET p == Upd(s, s.props[id]) IN
       IF p.status # "rejected" THEN Fail("notrejected", s) ELSE Ok(Finish(s, id, p, "closed"))
Veto(s, by, id) ==
  IF ~HasProp(s, id) THEN Fail("noprop", s)
  ELSE LET p == Upd(s, s.props[id]) IN
       IF ~p.veto.on THEN Fail("noveto", s)
       ELSE IF by # p.veto.who THEN Fail("notvetoer", s)
       ELSE IF p.status = "timelock" \/ (p.status = "open" /\ p.veto.before)
       THEN Ok(Finish(s, id, p, "vetoed")) ELSE Fail("vetostatus", s)

------------------------------------------------------------------------------
\* who may submit, and who counts as the proposer
MayPropose(s, by, named) ==
  IF s.policy.k = "anyone" THEN named = "" ELSE by = s.policy.a /\ named # ""
Proposer(s, by, named) == IF s.policy.k = "anyone" THEN by ELSE named

\* operations on the environment
Env(s, e) ==
  CASE e.o = "setfail" -> Ok([s EXCEPT !.mocks[e.who].fail = e.on])
    [] e.o = "power" -> Ok([s EXCEPT !.pow = Put(@, e.who, e.p)])
    [] e.o = "active" -> Ok([s EXCEPT !.active = e.on])
    [] e.o = "adv" -> Ok([s EXCEPT !.now = [h |-> @.h + e.n, t |-> @.t + e.s],
                                   !.blk = IF e.n > 0 THEN s.pow ELSE @])
    [] e.o = "migrate" -> IF e.by # "dao" \/ e.k = "v1" THEN Fail("migrate", s) ELSE Ok(s)
    [] e.o = "hook" -> Hook(s, e.by, e.list, e.add, e.who)
    [] e.o = "policy" -> SetPolicy(s, e.by, e.kind)
    [] e.o = "cfg" -> AdminCfg(s, e.by, e.c)
    [] e.o = "exec" -> Exec(s, e.by, e.id)
    [] e.o = "close" -> Close(s, e.id)

Fresh(c, cfg) ==
  [now |-> [h |-> 0, t |-> 0], cfg |-> cfg,
   policy |-> IF c.pp = "module" THEN [k |-> "module", a |-> "pp1"] ELSE [k |-> "anyone", a |-> ""],
   npp |-> IF c.pp = "module" THEN 1 ELSE 0,
   props |-> <<>>, ballots |-> <<>>,
   phooks |-> FilterQ(<<"l1", "l2", "l3">>, Range(c.phooks)), vhooks |-> FilterQ(<<"l1", "l2", "l3">>, Range(c.vhooks)),
   ord |-> <<>>, mocks |-> [l \in {"l1", "l2", "l3"} \cup (IF c.pp = "module" THEN {"pp1"} ELSE {}) |-> NewMock],
   pow |-> c.powers, blk |-> c.powers, active |-> TRUE,
   bal |-> [dao |-> c.fund, payee1 |-> "0", payee2 |-> "0"], fund |-> c.fund]

ObsProp(s, p) == LET u == Upd(s, p) IN [f \in DOMAIN u \ {"snap"} |-> u[f]]
RECURSIVE ObsProps(_, _)
ObsProps(s, i) == IF i = 0 THEN EmptyF
                  ELSE (("p" \o N(i)) :> ObsProp(s, s.props[i])) @@ (("b" \o N(i)) :> s.ballots[i]) @@ ObsProps(s, i - 1)
ObsCommon(s) ==
  ObsProps(s, Len(s.props)) @@
  [ids |-> [i \in DOMAIN s.props |-> i], agree |-> TRUE, count |-> Len(s.props), next |-> Len(s.props) + 1,
   cfg |-> s.cfg, policy |-> s.policy, phooks |-> s.phooks, vhooks |-> s.vhooks,
   ord |-> s.ord, logs |-> [l \in DOMAIN s.mocks |-> [n |-> s.mocks[l].n, last |-> s.mocks[l].last]],
   bal |-> s.bal]

Final == {"executed", "execution_failed", "closed", "vetoed"}
Terms == {"id", "title", "by", "start", "min", "exp", "th", "total", "msgs", "choices", "quorum", "revote", "veto", "snap"}
InvCommon(s) ==
  [ conserve |-> BAdd(s.bal["dao"], BAdd(s.bal["payee1"], s.bal["payee2"])) = s.fund,
    \* ballots carry the power the voter had when the proposal was made
    weights |-> \A i \in DOMAIN s.props : \A v \in DOMAIN s.ballots[i] :
                   /\ s.ballots[i][v].w = PowerOf(s.props[i].snap, v)
                   /\ s.ballots[i][v].w # "0",
    total |-> \A i \in DOMAIN s.props : s.props[i].total = BSumF(s.props[i].snap),
    timelock |-> \A i \in DOMAIN s.props : s.props[i].status = "timelock" => s.props[i].veto.on ]
StepCommon(x, e, y) ==
  [ \* proposals are never removed, their terms never change
    terms |-> Len(y.props) >= Len(x.props) /\ \A i \in DOMAIN x.props :
                \A f \in Terms \cap DOMAIN x.props[i] : x.props[i][f] = y.props[i][f],
    \* an ended proposal stays as it is
    final |-> \A i \in DOMAIN x.props : x.props[i].status \in Final =>
                \/ y.props[i] = x.props[i] /\ y.ballots[i] = x.ballots[i]
                \/ e.o \in {"vote", "rationale"} /\ y.props[i].status = x.props[i].status,
    \* money moves only by executing a passed proposal
    pay |-> y.bal # x.bal => e.o = "exec" /\ Upd(x, x.props[e.id]).status \in {"passed", "timelock"}
              /\ y.props[e.id].status = OkStatus,
    \* a proposal ends only through execution, closing or veto from the right state
    ends |-> \A i \in DOMAIN x.props : (x.props[i].status \notin Final /\ y.props[i].status \in Final) =>
        CASE y.props[i].status = "closed" -> e.o = "close" /\ Upd(x, x.props[i]).status = "rejected"
          [] y.props[i].status = "vetoed" -> e.o = "veto" /\ x.props[i].veto.on /\ e.by = x.props[i].veto.who
          [] OTHER -> e.o = "exec" /\ Upd(x, x.props[i]).status \in {"passed", "timelock"},
    \* before the timelock has run out only the vetoer's early execution is possible
    lock |-> \A i \in DOMAIN x.props :
        (x.props[i].veto.on /\ y.props[i].status \in {"executed", "execution_failed"} /\ x.props[i].status \notin Final) =>
           Expired(x.now, Plus(x.props[i].exp, x.props[i].veto.tl)) \/ (e.o = "exec" /\ e.by = x.props[i].veto.who /\ x.props[i].veto.early),
    \* decisions taken are not revised
    decided |-> \A i \in DOMAIN x.props :
        LET a == Upd(x, x.props[i]).status
            b == Upd(y, y.props[i]).status
        IN /\ a = "rejected" => b \in {"rejected", "closed"}
           /\ a = "passed" => b \in {"passed", "executed", "execution_failed"}
           /\ a = "timelock" => b \in {"timelock", "passed", "executed", "execution_failed", "vetoed"} ]
=============================================================================
