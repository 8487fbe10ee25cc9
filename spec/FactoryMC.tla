------------------------------ MODULE FactoryMC -----------------------------
EXTENDS Factory, IOUtils
VARIABLES c, s, h
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT
Cfgs == { [own |-> o, adm |-> a, n |-> "7"] : o \in {"", "boss"}, a \in {"", "alice"} }
R(t, w, d) == [total |-> t, dur |-> 10, who |-> w, d |-> d, own |-> "boss", label |-> "l"]
Ops(x) ==
  { [o |-> "nat", by |-> w, m |-> R("3", v, d), f |-> f] : w \in {"boss", "bob"}, v \in {"alice"}, d \in {"una", "tok"}, f \in {<<>>, <<[d |-> "una", a |-> "3"]>>, <<[d |-> "una", a |-> "2"]>>, <<[d |-> "ubb", a |-> "3"]>>} }
  \cup { [o |-> "cw", by |-> w, t |-> t, a |-> a, m |-> R("3", "bob", d)] : w \in {"boss", "alice"}, t \in Tokens, a \in {"2", "3"}, d \in {"tok", "una"} }
  \cup { [o |-> "nat", by |-> "boss", m |-> m, f |-> <<[d |-> "una", a |-> m.total]>>] : m \in {R("3", "X", "una"), [R("3", "bob", "una") EXCEPT !.own = "X"], [R("3", "bob", "una") EXCEPT !.own = ""], [R("3", "bob", "una") EXCEPT !.dur = 0], [R("3", "bob", "una") EXCEPT !.label = ""], R("8", "bob", "una")} }
  \cup { [o |-> "rcv", by |-> "bob", as |-> "boss", a |-> "3", m |-> R("3", "bob", "tok")], [o |-> "give", by |-> "bob", d |-> "tok", to |-> "pf", a |-> "3"] }
  \cup { [o |-> "code", by |-> w, c |-> k] : w \in {"boss", "alice"}, k \in {"vest2", "cw20", "none"} }
  \cup { [o |-> "new", by |-> w, c |-> "cw20", good |-> g, label |-> "k", a |-> a] : w \in {"alice", "bob"}, g \in BOOLEAN, a \in {"0", "5"} }
  \cup { [o |-> "new2", by |-> "alice", c |-> "cw20", good |-> TRUE, label |-> "k", a |-> "0", salt |-> t, x |-> q] : t \in {"aa", "bb"}, q \in {"", "contractaa"} }
  \cup { [o |-> "offer", by |-> "boss", to |-> "bob", exp |-> Never], [o |-> "accept", by |-> "bob"], [o |-> "renounce", by |-> "boss"] }
M == INSTANCE MC WITH MCfgs <- Cfgs, MOps <- Ops, TInit <- Init, TApply <- Apply, TInv <- Inv, TStep <- StepP
Spec == M!MSpec
Invs == M!MInv
EmitC == M!MEmit
View == M!MView
=============================================================================
