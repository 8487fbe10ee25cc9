------------------------------ MODULE IssuerMC ------------------------------
EXTENDS Issuer, IOUtils
VARIABLES c, s, h
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT
Kind == IF "KIND" \in DOMAIN IOEnv THEN IOEnv.KIND ELSE "new"
Cfgs == { [kind |-> Kind, n |-> "6"] }
Ops(x) ==
  { [o |-> "mint", by |-> w, to |-> v, a |-> a] : w \in {"alice", "bob"}, v \in {"alice", "carol", "iss"}, a \in {"2", "5"} }
  \cup { [o |-> "burn", by |-> w, from |-> v, a |-> "2"] : w \in {"alice", "bob"}, v \in {"carol", "iss"} }
  \cup { [o |-> k, by |-> w, w |-> "alice", a |-> a] : k \in {"sm", "sb"}, w \in {"boss"}, a \in {"5", "0"} }
  \cup { [o |-> "sm", by |-> "alice", w |-> "alice", a |-> "5"], [o |-> "sm", by |-> "boss", w |-> "bob", a |-> "2"], [o |-> "mint", by |-> "alice", to |-> "X", a |-> "2"], [o |-> "mint", by |-> "alice", to |-> "bob", a |-> "0"] }
  \cup { [o |-> k, by |-> "boss", b |-> b, w |-> w] : k \in {"allow", "deny"}, b \in BOOLEAN, w \in {"alice", "carol", "iss"} }
  \cup { [o |-> "freeze", by |-> w, b |-> b] : w \in {"boss"}, b \in BOOLEAN } \cup { [o |-> "freeze", by |-> "bob", b |-> TRUE], [o |-> "deny", by |-> "bob", w |-> "carol", b |-> TRUE] }
  \cup { [o |-> "hook", by |-> w, to |-> v] : w \in {"boss"}, v \in {"", "iss", "iss2", "X"} } \cup { [o |-> "hook", by |-> "alice", to |-> ""] }
  \cup { [o |-> "force", by |-> w, from |-> "carol", to |-> "bob", a |-> "1"] : w \in {"boss", "bob"} }
  \cup { [o |-> "send", by |-> w, to |-> v, a |-> "1"] : w \in {"alice", "carol"}, v \in {"alice", "carol", "bob"} }
  \cup { [o |-> "adm", by |-> w, to |-> "bob"] : w \in {"boss", "bob"} } \cup { [o |-> "chadm", by |-> w, to |-> v] : w \in {"boss", "bob"}, v \in {"iss"} }
  \cup { [o |-> "offer", by |-> "boss", to |-> "bob", exp |-> Never], [o |-> "accept", by |-> "bob"], [o |-> "renounce", by |-> "boss"] }
  \cup { [o |-> "meta", by |-> "boss", n |-> "a|b|c|d|e"] }
M == INSTANCE MC WITH MCfgs <- Cfgs, MOps <- Ops, TInit <- Init, TApply <- Apply, TInv <- Inv, TStep <- StepP
Spec == M!MSpec
Invs == M!MInv
EmitC == M!MEmit
View == M!MView
=============================================================================
