------------------------------- MODULE PrePro -------------------------------
(* The pre-propose modules: packages/dao-pre-propose-base and                  *)
(* contracts/pre-propose/{single,multiple,approval-single,approver}.           *)
(* kind  "single", "multiple"   proposals go straight to the module            *)
(*       "approval"             an approver decides first                      *)
(*       "approver"             the approver is another DAO's approver module  *)
(* "mod" is the DAO's proposal module, "amod" the approver DAO's; one voter     *)
(* ("alice", 100 of at most 103) decides every proposal.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigInt, Kit
People == {"alice", "bob", "carol", "dave", "zoe"}
Natives == {"ua1", "ub1"}
Tokens == {"tA", "tB"}
Denoms == Natives \cup Tokens
Accts == People \cup {"pp", "dao", "payee"}
NoDep == [d |-> "", a |-> "0", r |-> ""]
Approval(s) == s.kind \in {"approval", "approver"}
Approver(s) == s.kind = "approver"
Pow(f, w) == Get(f, w, "0")

------------------------------------------------------------------------------
\* money
Move(s, d, from, to, a) ==
  IF BLt(s.bal[d][from], a) THEN Fail("funds", s)
  ELSE Ok([s EXCEPT !.bal[d] = LET f == [@ EXCEPT ![from] = BSub(@, a)] IN [f EXCEPT ![to] = BAdd(@, a)]])
RECURSIVE PayIn(_, _, _)
PayIn(s, by, q) == IF q = <<>> THEN Ok(s)
                   ELSE LET r == Move(s, Head(q).d, by, "pp", Head(q).a)
                        IN IF r.ok = "n" THEN r ELSE PayIn(r.s, by, Tail(q))
\* exactly the configured deposit is taken from the proposer
TakeDep(s, by, q) ==
  LET r == PayIn(s, by, q)
      d == s.dep
      given == [x \in Natives |-> BSumSeq([i \in DOMAIN q |-> IF q[i].d = x THEN q[i].a ELSE "0"])]
      s1 == [r.s EXCEPT !.gift = [x \in Denoms |-> IF x \in Natives /\ d.d # x THEN BAdd(@[x], given[x]) ELSE @[x]]]
  IN IF r.ok = "n" THEN Fail("funds", s)
     ELSE IF d.d = "" THEN Ok(s1)
     ELSE IF d.d \in Natives
     THEN (IF Len(q) = 1 /\ q[1].d = d.d /\ q[1].a = d.a THEN Ok(s1) ELSE Fail("deposit", s))
     ELSE IF BLt(s.allow[d.d][by], d.a) THEN Fail("allowance", s)
     ELSE LET t == Move([s1 EXCEPT !.allow[d.d][by] = BSub(@, d.a)], d.d, by, "pp", d.a)
          IN IF t.ok = "n" THEN Fail("funds", s) ELSE t
\* a taken deposit goes to one account
Return(s, dep, to) == IF dep.d = "" THEN Ok(s) ELSE Move(s, dep.d, "pp", to, dep.a)
Refund(st, r) == r = "always" \/ (r = "only_passed" /\ st = "executed")

------------------------------------------------------------------------------
\* configuration
Names(d) == d \in Natives \cup Tokens   \* well-formed native denominations used here ("tA" is one of two letters: too short)
DenomOk(k, d) == IF k = "native" THEN d \in Natives ELSE d \in Tokens
Resolve(s, x) ==   \* the deposit a configuration asks for, or no deposit
  CASE x.k = "vmn" -> "ub1" [] x.k = "vmc" -> "tB" [] OTHER -> x.d
DepOk(s, x) ==
  \/ x.k = "none"
  \/ /\ x.a # "0"
     /\ CASE x.k = "vmn" -> s.vmn [] x.k = "vmc" -> s.vmt [] OTHER -> DenomOk(x.k, x.d)
Dep(s, x) == IF x.k = "none" THEN NoDep ELSE [d |-> Resolve(s, x), a |-> x.a, r |-> x.r]
PolOk(p) == p.k = "anyone" \/ (Range(p.al) \cap Range(p.dl) = {} /\ (p.mem \/ p.al # <<>>))
NormPol(p) == IF p.k = "anyone" THEN [k |-> "anyone", mem |-> FALSE, al |-> <<>>, dl |-> p.dl] ELSE p
CanSubmit(s, by) ==
  /\ by \notin Range(s.pol.dl)
  /\ s.pol.k = "anyone" \/ by \in Range(s.pol.al) \/ (s.pol.mem /\ Pow(s.pow, by) # "0")
SetCfg(s, by, x, p) ==
  IF by # "dao" THEN Fail("notdao", s)
  ELSE IF ~DepOk(s, x) THEN Fail("deposit", s)
  ELSE IF p.k # "keep" /\ ~PolOk(p) THEN Fail("policy", s)
  ELSE Ok([s EXCEPT !.dep = Dep(s, x), !.pol = IF p.k = "keep" THEN @ ELSE NormPol(p)])
Unset == <<"*">>
\* additions sort the list and drop repetitions, then removals
Edit(q, add, rm) ==
  LET a == IF add = Unset THEN q ELSE Sorted(Range(q) \cup Range(add))
  IN IF rm = Unset THEN a ELSE FilterQ(a, Range(a) \ Range(rm))
EditPol(s, by, e) ==
  IF by # "dao" THEN Fail("notdao", s)
  ELSE IF s.pol.k = "anyone" /\ (e.mem # "keep" \/ e.aadd # Unset \/ e.arm # Unset) THEN Fail("anyone", s)
  ELSE LET p == [s.pol EXCEPT !.mem = IF e.mem = "keep" THEN @ ELSE e.mem = "y", !.al = Edit(@, e.aadd, e.arm), !.dl = Edit(@, e.dadd, e.drm)]
       IN IF PolOk(p) THEN Ok([s EXCEPT !.pol = p]) ELSE Fail("policy", s)
Withdraw(s, by, x) ==
  LET d == IF x.k = "none" THEN s.dep.d ELSE x.d IN
  IF by # "dao" THEN Fail("notdao", s)
  ELSE IF d = "" \/ (x.k # "none" /\ ~DenomOk(x.k, d)) THEN Fail("denom", s)
  ELSE IF s.bal[d]["pp"] = "0" THEN Fail("nothing", s)
  ELSE LET r == Move(s, d, "pp", "dao", s.bal[d]["pp"]) IN Ok([r.s EXCEPT !.drained = @ \cup {d}])

------------------------------------------------------------------------------
\* proposals of the two modules ("m" the DAO's, "a" the approver DAO's)
Expired(s, p) == s.now >= p.exp
Cur(s, m, p) ==
  IF p.st = "open" THEN
    IF p.yes THEN (IF s.veto[m] > 0 /\ s.now < p.exp + s.veto[m] THEN "veto_timelock" ELSE "passed")
    ELSE IF p.no \/ Expired(s, p) THEN "rejected" ELSE "open"
  ELSE p.st
Home(m) == IF m = "m" THEN "pp" ELSE "app"
HasP(s, m, id) == id >= 1 /\ id <= Len(s.props[m])
Next(s, m) == Len(s.props[m]) + 1
\* a proposal made by account `from` naming the proposer `by`
Make(s, m, from, by, title, desc, msgs, vote) ==
  LET anyone == s.mpol[m] = "anyone"
      p == [st |-> "open", title |-> title, desc |-> desc, msgs |-> msgs, by |-> IF anyone THEN from ELSE by, exp |-> s.now + s.period,
            yes |-> FALSE, no |-> FALSE, voted |-> {}]
      w == IF m = "a" THEN (IF by = "alice" THEN "100" ELSE "0") ELSE Pow(s.blk, p.by)
      p1 == IF vote = "none" THEN p
            ELSE [p EXCEPT !.voted = {p.by}, !.yes = p.by = "alice" /\ vote = "yes", !.no = p.by = "alice" /\ vote = "no"]
  IN IF anyone /\ by # "" THEN Fail("proposer", s)
     ELSE IF ~anyone /\ (from # s.mpol[m] \/ by = "") THEN Fail("unauthorized", s)
     ELSE IF vote # "none" /\ w = "0" THEN Fail("notvoter", s)
     ELSE Ok([s EXCEPT !.props[m] = Append(@, p1), !.snap[m] = Append(@, IF m = "m" THEN s.blk ELSE [alice |-> "100"])])
Vote(s, m, by, id, v) ==
  IF ~HasP(s, m, id) THEN Fail("noprop", s)
  ELSE LET p == s.props[m][id] IN
       IF Expired(s, p) THEN Fail("expired", s)
       ELSE IF by \in p.voted THEN Fail("voted", s)
       ELSE IF Pow(s.snap[m][id], by) = "0" THEN Fail("notvoter", s)
       ELSE Ok([s EXCEPT !.props[m][id] = [p EXCEPT !.st = Cur(s, m, p), !.voted = @ \cup {by},
                 !.yes = @ \/ (by = "alice" /\ v = "yes"), !.no = @ \/ (by = "alice" /\ v = "no")]])

------------------------------------------------------------------------------
\* approval
ApproveC(s, id) ==    \* becomes a proposal, in its submitter's name, with its deposit
  LET x == s.pend[id]
      n == Next(s, "m")
      r == Make(s, "m", "pp", x.by, x.title, TRUE, x.msgs, x.vote)
  IN IF r.ok = "n" THEN Fail(r.why, s)
     ELSE Ok([r.s EXCEPT !.deps = Put(@, n, [by |-> x.by, dep |-> x.dep]), !.pend = Del(@, id),
                         !.comp = Put(@, id, [x EXCEPT !.st = "approved", !.made = n]), !.made = Put(@, n, id)])
RejectC(s, id) ==
  LET x == s.pend[id]
      r == Return(s, x.dep, IF x.dep.r = "always" THEN x.by ELSE "dao")
  IN IF r.ok = "n" THEN Fail("funds", s)
     ELSE Ok([r.s EXCEPT !.pend = Del(@, id), !.comp = Put(@, id, [x EXCEPT !.st = "rejected"])])
Decide(s, by, id, yes) ==
  IF by # s.approver THEN Fail("notapprover", s)
  ELSE IF id \notin DOMAIN s.pend THEN Fail("notpending", s)
  ELSE IF yes THEN ApproveC(s, id) ELSE RejectC(s, id)
SetApprover(s, by, who) == IF by # s.approver THEN Fail("notapprover", s) ELSE Ok([s EXCEPT !.approver = who])
HookBy(s, by) == by = "dao" \/ (Approval(s) /\ by = s.approver)
SetHook(s, by, who, add) ==
  IF ~HookBy(s, by) THEN Fail("unauthorized", s)
  ELSE IF add THEN (IF who \in Range(s.hooks) THEN Fail("dup", s) ELSE Ok([s EXCEPT !.hooks = Append(@, who)]))
  ELSE IF who \in Range(s.hooks) THEN Ok([s EXCEPT !.hooks = Without(@, who)]) ELSE Fail("nohook", s)

------------------------------------------------------------------------------
\* the end of a proposal reaches the module that submitted it; if that fails the
\* proposal module stops using it and lets anyone propose
Completed(s, m, id, st) ==
  IF s.mpol[m] = "anyone" THEN s
  ELSE LET r == IF m = "m" THEN (IF id \notin DOMAIN s.deps THEN Ok(s)
                                 ELSE LET x == s.deps[id] IN
                                      Return([s EXCEPT !.settled = @ \cup {id}], x.dep, IF Refund(st, x.dep.r) THEN x.by ELSE "dao"))
                ELSE IF id \notin DOMAIN s.link THEN Fail("unknown", s)
                ELSE Decide(s, "app", s.link[id], st = "executed")
       IN IF r.ok = "n" THEN [s EXCEPT !.mpol[m] = "anyone"] ELSE r.s
RECURSIVE Run(_, _)
Run(s, q) ==
  IF q = <<>> THEN Ok(s)
  ELSE LET m == Head(q)
           r == CASE m.k = "pay" -> Move(s, "ua1", "dao", "payee", m.a)
                  [] m.k = "withdraw" -> Withdraw(s, "dao", m.d)
                  [] OTHER -> Fail("message", s)
       IN IF r.ok = "n" THEN Fail("message", s) ELSE Run(r.s, Tail(q))
SetSt(s, m, id, st) == [s EXCEPT !.props[m][id].st = st]
Exec(s, m, id) ==
  IF ~HasP(s, m, id) THEN Fail("noprop", s)
  ELSE IF Cur(s, m, s.props[m][id]) # "passed" THEN Fail("notpassed", s)
  ELSE LET s1 == SetSt(s, m, id, "executed")
           r == Run(s1, s.props[m][id].msgs)
       IN IF r.ok = "n" /\ ~s.close THEN Fail("message", s)
          ELSE Ok(Completed(IF r.ok = "y" THEN r.s ELSE SetSt(s, m, id, "execution_failed"), m, id, "executed"))
Close(s, m, id) ==
  IF ~HasP(s, m, id) THEN Fail("noprop", s)
  ELSE IF Cur(s, m, s.props[m][id]) # "rejected" THEN Fail("notrejected", s)
  ELSE Ok(Completed(SetSt(s, m, id, "closed"), m, id, "closed"))
Veto(s, m, by, id) ==
  IF ~HasP(s, m, id) THEN Fail("noprop", s)
  ELSE IF s.veto[m] = 0 \/ by # "vera" THEN Fail("notvetoer", s)
  ELSE IF Cur(s, m, s.props[m][id]) \notin {"open", "veto_timelock"} THEN Fail("status", s)
  ELSE Ok(Completed(SetSt(s, m, id, "vetoed"), m, id, "vetoed"))

------------------------------------------------------------------------------
\* submission
RECURSIVE Tell(_, _, _, _)
\* hooks are told in order; a failing one undoes the submission
Tell(s, q, text, x) ==
  IF q = <<>> THEN Ok(s)
  ELSE LET l == Head(q)
           n == Next(s, "a")
           r == IF l = "app" THEN Make(s, "a", "app", "pp", x.title, TRUE, <<>>, "none") ELSE Ok(s)
       IN IF l \in s.failing \/ r.ok = "n" THEN Fail("hook", s)
          ELSE Tell(IF l = "app" THEN [r.s EXCEPT !.link = Put(@, n, x.id), !.back = Put(@, x.id, n)]
                    ELSE [s EXCEPT !.ord = Without(@, l) \o <<l>>, !.log[l] = [n |-> @.n + 1, last |-> text]], Tail(q), text, x)
Propose(s, e) ==
  LET t == TakeDep(s, e.by, e.funds)
      id == s.seq + 1
      x == [st |-> "pending", by |-> e.by, title |-> e.title, msgs |-> e.msgs, vote |-> e.vote, dep |-> s.dep, made |-> 0]
      n == Next(s, "m")
      r == Make(t.s, "m", "pp", e.by, e.title, TRUE, e.msgs, e.vote)
      h == IF Approval(s) THEN Tell([t.s EXCEPT !.seq = id, !.pend = Put(@, id, x)], s.hooks, "a:" \o e.title \o ":" \o ToString(id), [id |-> id, title |-> e.title])
           ELSE Tell([r.s EXCEPT !.deps = Put(@, n, [by |-> e.by, dep |-> s.dep])], s.hooks, "p:" \o e.title \o ":" \o e.by, [id |-> 0, title |-> ""])
  IN IF ~CanSubmit(s, e.by) THEN Fail("policy", s)
     ELSE IF t.ok = "n" THEN t
     ELSE IF ~Approval(s) /\ r.ok = "n" THEN Fail(r.why, s)
     ELSE IF h.ok = "n" THEN Fail("hook", s) ELSE h

Apply(s, e) ==
  CASE e.o = "propose" -> Propose(s, e)
    [] e.o = "dprop" -> Make(s, "m", e.by, IF e.named THEN e.by ELSE "", e.title, TRUE, e.msgs, e.vote)
    [] e.o = "aprop" -> Fail("notapproval", s)
    [] e.o = "vote" -> Vote(s, e.m, e.by, e.id, e.v)
    [] e.o = "exec" -> Exec(s, e.m, e.id)
    [] e.o = "close" -> Close(s, e.m, e.id)
    [] e.o = "veto" -> Veto(s, e.m, e.by, e.id)
    [] e.o \in {"cfg", "pol"} /\ e.c = "app" -> Fail("unsupported", s)
    [] e.o \in {"withdraw", "hook"} /\ e.c = "app" -> Fail("notdao", s)
    [] e.o = "cfg" -> SetCfg(s, e.by, e.dep, e.pol)
    [] e.o = "pol" -> EditPol(s, e.by, e)
    [] e.o = "withdraw" -> Withdraw(s, e.by, e.d)
    [] e.o = "hook" -> SetHook(s, e.by, e.who, e.add)
    \* only the proposal module reports an end, only of an ended proposal; unknown proposals are no concern
    [] e.o = "done" -> IF e.c = "pp" /\ e.by = "mod" /\ e.st = "closed" THEN Ok(s) ELSE Fail("done", s)
    [] e.o = "noop" -> Ok(s)
    [] e.o = "approve" -> Decide(s, e.by, e.id, TRUE)
    [] e.o = "reject" -> Decide(s, e.by, e.id, FALSE)
    [] e.o = "approver" -> SetApprover(s, e.by, e.who)
    \* the approver DAO takes the approver's role back from its module
    [] e.o = "reset" -> IF e.by # "adao" THEN Fail("notdao", s)
                        ELSE LET r == SetHook(s, "app", "app", FALSE) IN
                             IF r.ok = "n" THEN r ELSE SetApprover(r.s, "app", "adao")
    [] e.o = "allow" -> Ok([s EXCEPT !.allow[e.d][e.by] = BAdd(@, e.a)])
    [] e.o = "gift" -> LET r == Move(s, e.d, e.by, "pp", e.a) IN IF r.ok = "n" THEN r ELSE Ok([r.s EXCEPT !.gift[e.d] = BAdd(@, e.a)])
    [] e.o = "power" -> Ok([s EXCEPT !.pow = Put(@, e.who, e.p)])
    [] e.o = "fail" -> Ok([s EXCEPT !.failing = IF e.on THEN @ \cup {e.who} ELSE @ \ {e.who}])
    [] e.o = "adv" -> Ok([s EXCEPT !.now = @ + e.n, !.blk = IF e.n > 0 THEN s.pow ELSE @])
    [] e.o = "page" -> LET ids == IF e.list = "pending" THEN DOMAIN s.pend ELSE DOMAIN s.comp
                           in == { i \in ids : e.after = 0 \/ (IF e.rev THEN i < e.after ELSE i > e.after) }
                       IN Ok([s EXCEPT !.page = [in |-> in, rev |-> e.rev, lim |-> e.limit]])

Wallet == "12"
Init(c) ==
  LET s == [kind |-> c.kind, now |-> 0, dep |-> NoDep, pol |-> NormPol(c.pol), hooks |-> IF c.kind = "approver" THEN <<"app">> ELSE <<>>,
            failing |-> {}, log |-> [l \in {"l1", "l2"} |-> [n |-> 0, last |-> ""]], ord |-> <<>>,
            approver |-> IF c.kind = "approver" THEN "app" ELSE "boss", mpol |-> [m |-> "pp", a |-> "app"],
            props |-> [m |-> <<>>, a |-> <<>>], snap |-> [m |-> <<>>, a |-> <<>>], deps |-> EmptyF, settled |-> {},
            pend |-> EmptyF, comp |-> EmptyF, made |-> EmptyF, seq |-> 0, link |-> EmptyF, back |-> EmptyF,
            bal |-> [d \in Denoms |-> [w \in Accts |-> IF w \in People THEN Wallet ELSE IF w = "dao" /\ d = "ua1" THEN c.fund ELSE "0"]],
            fund0 |-> c.fund, allow |-> [d \in Tokens |-> [w \in People |-> "0"]], gift |-> [d \in Denoms |-> "0"], drained |-> {},
            pow |-> c.powers, blk |-> c.powers, veto |-> [m |-> c.veto, a |-> c.aveto], period |-> c.period, close |-> c.close,
            vmn |-> c.vmn, vmt |-> c.vmt, page |-> [in |-> {}, rev |-> FALSE, lim |-> -1]]
  IN IF DepOk(s, c.dep) /\ PolOk(c.pol) THEN [ok |-> TRUE, s |-> [s EXCEPT !.dep = Dep(s, c.dep)]] ELSE [ok |-> FALSE, s |-> s]

------------------------------------------------------------------------------
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Asc(S \ {x})
N(i) == ToString(i)
Key(p, S) == { p \o N(i) : i \in S }
Num(p, S, k) == CHOOSE i \in S : k = p \o N(i)
By(p, S, F(_)) == [k \in Key(p, S) |-> F(Num(p, S, k))]
Pg(x) == LET q == IF x.rev THEN Rev(Asc(x.in)) ELSE Asc(x.in) IN IF x.lim < 0 THEN q ELSE Take(q, x.lim)
ShowP(s, m, i) == LET p == s.props[m][i] IN [st |-> Cur(s, m, p), title |-> p.title, by |-> p.by, msgs |-> p.msgs, desc |-> p.desc]
ShowA(s, i) == LET q == i \in DOMAIN s.pend
                   x == IF q THEN s.pend[i] ELSE s.comp[i]
               IN [st |-> x.st, made |-> x.made, by |-> x.by, title |-> x.title, for |-> x.by, msgs |-> x.msgs, vote |-> x.vote, dep |-> x.dep,
                   pending |-> q, in |-> <<q, ~q>>]
Obs(s) ==
  LET ids == 1..Len(s.props["m"])
      qs == 1..Len(s.props["a"])
      F1(i) == ShowP(s, "m", i)
      F2(i) == IF i \in DOMAIN s.deps THEN s.deps[i] ELSE [by |-> "", dep |-> NoDep]
      F3(i) == Get(s.made, i, 0)
      F4(i) == ShowA(s, i)
      F5(i) == ShowP(s, "a", i)
      F6(i) == s.link[i]
      F7(i) == Get(s.back, i, 0)
  IN [dep |-> s.dep, pol |-> s.pol, hooks |-> s.hooks, mpol |-> s.mpol["m"], next |-> Next(s, "m"), page |-> Pg(s.page),
      who |-> <<"dao", "mod">>, can |-> [w \in People |-> CanSubmit(s, w)], log |-> s.log, ord |-> s.ord]
     @@ [k \in { "bal_" \o d : d \in Denoms } |-> s.bal[CHOOSE d \in Denoms : k = "bal_" \o d]]
     @@ [k \in { "allow_" \o d : d \in Tokens } |-> s.allow[CHOOSE d \in Tokens : k = "allow_" \o d]]
     @@ By("p", ids, F1) @@ By("d", ids, F2)
     @@ (IF Approval(s) THEN By("c", ids, F3) @@ By("a", 1..s.seq, F4) @@
           [approver |-> s.approver, pend |-> Asc(DOMAIN s.pend), rpend |-> Rev(Asc(DOMAIN s.pend)), comp |-> Asc(DOMAIN s.comp),
            rcomp |-> Rev(Asc(DOMAIN s.comp)), seq |-> s.seq] ELSE EmptyF)
     @@ (IF Approver(s) THEN By("q", qs, F5) @@ By("k", qs, F6) @@ By("j", 1..s.seq, F7) @@
           [apol |-> s.mpol["a"], anext |-> Next(s, "a"), acan |-> <<TRUE, FALSE, FALSE>>, ahooks |-> <<>>] ELSE EmptyF)

Final == {"executed", "execution_failed", "closed", "vetoed"}
\* deposits the module owes: of what is pending and of proposals not yet settled
Owed(s, d) ==
  BAdd(BSumF([i \in { i \in DOMAIN s.pend : s.pend[i].dep.d = d } |-> s.pend[i].dep.a]),
       BSumF([i \in { i \in DOMAIN s.deps : i \notin s.settled /\ s.deps[i].dep.d = d } |-> s.deps[i].dep.a]))
Inv(s) ==
  [ held |-> \A d \in Denoms \ s.drained : s.bal[d]["pp"] = BAdd(Owed(s, d), s.gift[d]),
    policy |-> PolOk(s.pol),
    total |-> \A d \in Denoms : BSumF(s.bal[d]) = BAdd("60", IF d = "ua1" THEN s.fund0 ELSE "0"),
    \* an approval request is in exactly one state
    once |-> DOMAIN s.pend \cap DOMAIN s.comp = {} /\ DOMAIN s.pend \cup DOMAIN s.comp = 1..s.seq,
    approved |-> \A i \in DOMAIN s.comp : s.comp[i].st = "approved" =>
                   LET n == s.comp[i].made IN /\ s.made[n] = i
                        /\ s.props["m"][n].by = s.comp[i].by /\ s.props["m"][n].title = s.comp[i].title /\ s.props["m"][n].msgs = s.comp[i].msgs
                        /\ s.deps[n] = [by |-> s.comp[i].by, dep |-> s.comp[i].dep],
    settled |-> \A i \in s.settled : s.props["m"][i].st \in Final,
    unsettled |-> s.mpol["m"] = "pp" => \A i \in DOMAIN s.deps : s.props["m"][i].st \in Final => i \in s.settled,
    mine |-> Approval(s) => \A i \in DOMAIN s.props["m"] : (s.mpol["m"] = "pp") => i \in DOMAIN s.made ]
StepP(x, e, y) ==
  [ \* proposals are only created by an allowed submitter, or after the module was given up
    submit |-> (Len(y.props["m"]) # Len(x.props["m"]) /\ ~Approval(x) /\ x.mpol["m"] = "pp") =>
                 e.o = "propose" /\ CanSubmit(x, e.by) /\ y.props["m"][Len(y.props["m"])].by = e.by,
    ask |-> y.seq # x.seq => e.o = "propose" /\ CanSubmit(x, e.by) /\ y.seq = x.seq + 1 /\ y.pend[y.seq].by = e.by,
    approve |-> (Len(y.props["m"]) # Len(x.props["m"]) /\ Approval(x) /\ x.mpol["m"] = "pp") =>
                 \/ e.o = "approve" /\ e.by = x.approver /\ e.id \in DOMAIN x.pend
                 \/ x.approver = "app" /\ e.o = "exec" /\ e.m = "a" /\ Cur(x, "a", x.props["a"][e.id]) = "passed",
    exact |-> (e.o = "propose" /\ y # x) => \A d \in Denoms : (d = x.dep.d \/ d \in Tokens) =>
                 x.bal[d][e.by] = BAdd(y.bal[d][e.by], IF d = x.dep.d THEN x.dep.a ELSE "0"),
    \* money leaves the module only for a proposal's end, a rejection or at the DAO's request
    leaves |-> \A d \in Denoms : BLt(y.bal[d]["pp"], x.bal[d]["pp"]) =>
                 \/ e.o \in {"exec", "close", "veto"} \/ (e.o = "reject" /\ e.by = x.approver) \/ (e.o = "withdraw" /\ e.by = "dao"),
    finalA |-> \A i \in DOMAIN x.comp : y.comp[i] = x.comp[i],
    pol |-> y.pol # x.pol => e.o \in {"cfg", "pol"} /\ e.by = "dao",
    vetoed |-> (e.o = "veto" /\ e.m = "a" /\ y # x /\ x.mpol["a"] = "app") => y.mpol["a"] = "app" \/ x.approver # "app" \/ x.link[e.id] \notin DOMAIN x.pend
                 \/ RejectC(x, x.link[e.id]).ok = "n" ]
=============================================================================
