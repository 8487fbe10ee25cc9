-------------------------------- MODULE VestMC --------------------------------
EXTENDS Vest, IOUtils
VARIABLES c, s, h
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT
Kind == IF "KIND" \in DOMAIN IOEnv THEN IOEnv.KIND ELSE "stake"
C0 == [kind |-> "stake", total |-> "10", dur |-> 10, start |-> 0, given |-> TRUE, q |-> <<>>, who |-> "alice", owner |-> "boss", ubs |-> 3, cubs |-> 3, hold |-> "30", sent |-> <<[d |-> "ustake", n |-> "10"]>>]
CT == [C0 EXCEPT !.kind = "tok", !.sent = <<>>, !.q = <<[x |-> 2, y |-> "0"], [x |-> 5, y |-> "4"], [x |-> 7, y |-> "10"]>>]
CU == [C0 EXCEPT !.kind = "una", !.sent = <<[d |-> "una", n |-> "10"]>>, !.start = 0 - 3]
Cfgs == IF Kind = "stake" THEN {C0} ELSE {CT, CU, [C0 EXCEPT !.start = 2]}
St(n) == [o |-> "adv", n |-> 1, s |-> n]
By(o, w, a) == [o |-> o, by |-> w, a |-> a]
D(o, w, v, a) == [o |-> o, by |-> w, v |-> v, a |-> a, pay |-> FALSE]
Facts(x) == UNION { DOMAIN x.f[v] : v \in Vals }
\* a slash of unbonding coins is registered before anything else changes until those are free
Tidy(x, r) == ~r.u \/ (r.e \in x.ends[r.v] /\ Ends(x, r.v, r.t) # {} /\ (\A y \in Ends(x, r.v, r.t) : r.e <= y) /\ \A y \in Facts(x) : ~(r.t < y /\ y < r.e))
Regs(x) == { [o |-> "reg", by |-> "boss", v |-> r.v, t |-> r.t, a |-> r.n, u |-> r.u] : r \in { r \in Range(x.real) : Tidy(x, r) } }
StakeOps(x) ==
  {D("del", "alice", "v1", "6"), D("del", "alice", "v2", "2"), D("del", "alice", "v1", "11"), D("del", "bob", "v1", "1"), D("und", "alice", "v1", "6"), D("und", "alice", "v1", "2"), D("und", "bob", "v1", "2"),
   D("und", "alice", "v2", "2"), [D("red", "alice", "v1", "6") EXCEPT !.pay = FALSE] @@ [w |-> "v2"], D("red", "alice", "v1", "3") @@ [w |-> "v2"], D("red", "alice", "v2", "2") @@ [w |-> "v1"],
   By("dist", "bob", ""), By("dist", "alice", "3"), [o |-> "cancel", by |-> "boss"], By("wd", "bob", ""), By("wd", "boss", "1"), St(2), St(3),
   [o |-> "slash", v |-> "v1", a |-> "1", u |-> FALSE], [o |-> "slash", v |-> "v1", a |-> "2", u |-> TRUE], [o |-> "slash", v |-> "v2", a |-> "2", u |-> FALSE], [o |-> "renounce", by |-> "boss"]}
  \cup Regs(x) \cup (IF x.lied THEN {} ELSE {[o |-> "reg", by |-> "boss", v |-> "v1", t |-> x.now.t, a |-> "2", u |-> FALSE], [o |-> "reg", by |-> "alice", v |-> "v1", t |-> x.now.t, a |-> "2", u |-> FALSE], [o |-> "reg", by |-> "boss", v |-> "v1", t |-> x.now.t + 1, a |-> "2", u |-> FALSE]})
PlainOps(x) ==
  { [o |-> "fund", by |-> "boss", t |-> t, a |-> a] : t \in {"tok", "fake"}, a \in {"10", "9"} } \cup { By("dist", w, a) : w \in {"alice", "bob"}, a \in {"", "2"} } \cup { [o |-> "cancel", by |-> w] : w \in {"alice", "boss"} }
  \cup { By("wd", "bob", a) : a \in {"", "1"} } \cup {St(1), St(2), St(4), [o |-> "give", by |-> "boss", d |-> "una", a |-> "3"], [o |-> "give", by |-> "boss", d |-> "ustake", a |-> "3"], D("del", "alice", "v1", "11"), D("del", "alice", "v1", "4"), D("und", "alice", "v1", "4"), [D("del", "alice", "v1", "4") EXCEPT !.pay = TRUE],
     [o |-> "slash", v |-> "v1", a |-> "3", u |-> FALSE], [o |-> "reward", v |-> "v1", a |-> "2"], [o |-> "rw", by |-> "bob", v |-> "v1"], [o |-> "addr", by |-> "alice", to |-> "carol"], [o |-> "addr", by |-> "boss", to |-> "carol"], [o |-> "addr", by |-> "alice", to |-> "vest"],
     [o |-> "offer", by |-> "boss", to |-> "bob", exp |-> Never], [o |-> "accept", by |-> "bob"], [o |-> "renounce", by |-> "boss"], [o |-> "renounce", by |-> "bob"]} \cup Regs(x)
Ops(x) == IF Kind = "stake" THEN StakeOps(x) ELSE PlainOps(x)
M == INSTANCE MC WITH MCfgs <- Cfgs, MOps <- Ops, TInit <- Init, TApply <- Apply, TInv <- Inv, TStep <- StepP
Spec == M!MSpec
Invs == M!MInv
EmitC == M!MEmit
View == M!MView
=============================================================================
