------------------------------ MODULE StakeUpMC ------------------------------
(* What is handed over says everything that can be seen: taking over a pool in  *)
(* any state shows the same shares (now and at every past height), claims,      *)
(* values and owner, and the pool then goes on exactly as it would have.        *)
(* (v1 works like the present pool but for owners and hooks.)                   *)
EXTENDS StakeUp, IOUtils
VARIABLES c, s, h
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT
DH(n) == [k |-> "h", v |-> n]
C0 == [kind |-> "cw20", src |-> "shared", bals |-> [alice |-> "5", bob |-> "4", carol |-> "0", dave |-> "0"], dbal |-> "0", dur |-> DH(1), act |-> [k |-> "none", v |-> "0"]]
Cfgs == {C0, [C0 EXCEPT !.dur.k = "none"]}
Dump(x) == [h |-> x.now.h, t |-> x.now.t, pot |-> x.pot, claims |-> x.claims, wal |-> x.wal, dur |-> x.dur, hooks |-> x.hooks, log |-> x.log, ord |-> x.ord, owner |-> x.own.owner,
            at |-> [i \in 1..(x.now.h + 2) |-> AtH(x.hist, x.st, i - 1)]]
St(w, a) == [o |-> "stake", by |-> w, t |-> "token", a |-> a, funds |-> <<[d |-> "ugov", a |-> a]>>]
Un(w, a) == [o |-> "unstake", by |-> w, a |-> a]
Step(n) == [o |-> "adv", n |-> n, s |-> 5 * n]
Ops(u) ==
  { St(w, a) : w \in {"alice", "bob"}, a \in {"1", "3"} } \cup { Un(w, a) : w \in {"alice", "bob"}, a \in {"1", "2"} }
  \cup {[o |-> "fund", by |-> "bob", t |-> "token", a |-> "1"], [o |-> "claim", by |-> "alice"], Step(1), [o |-> "move", by |-> "bob", to |-> "pool", a |-> "1"]}
  \cup {[o |-> "hook", by |-> "boss", who |-> "l1", add |-> TRUE]}
  \cup { [o |-> "import", by |-> w, dump |-> <<>>] : w \in {"deployer", "boss"} }
MInit(cf) == LET r == Init(cf) IN [ok |-> r.ok, s |-> [phase |-> "old", x |-> r.s, y |-> r.s]]
\* y goes on without the upgrade
MApply(u, e) ==
  IF e.o = "import"
  THEN LET r == Import([e EXCEPT !.dump = Dump(u.x)]) IN IF u.phase = "new" THEN Fail("migrated", u) ELSE IF r.ok = "n" THEN Fail(r.why, u) ELSE Ok([u EXCEPT !.phase = "new", !.x = r.s])
  ELSE LET r == Apply(u.x, e) y == Apply(u.y, e) IN [r EXCEPT !.s = [u EXCEPT !.x = r.s, !.y = y.s]]
MInvs(u) == [same |-> Obs(u.x) = Obs(u.y), heights |-> \A k \in 0..u.x.now.h : Powers(AtH(u.x.hist, u.x.st, k)) = Powers(AtH(u.y.hist, u.y.st, k))] @@ Inv(u.x)
MStep(u, e, v) == [alike |-> e.o # "import" => Apply(u.x, e).ok = Apply(u.y, e).ok, once |-> e.o = "import" => u.phase = "old"]
M == INSTANCE MC WITH MCfgs <- Cfgs, MOps <- Ops, TInit <- MInit, TApply <- MApply, TInv <- MInvs, TStep <- MStep
Spec == M!MSpec
Invs == M!MInv
EmitC == M!MEmit
View == M!MView
=============================================================================
