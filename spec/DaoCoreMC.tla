------------------------------ MODULE DaoCoreMC ------------------------------
EXTENDS DaoCore, IOUtils
VARIABLES c, s, h
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT
Kind == IF "KIND" \in DOMAIN IOEnv THEN IOEnv.KIND ELSE "power"
M0 == [fail |-> FALSE, cb |-> <<>>, adm |-> "core", fund |-> "0", powers |-> [alice |-> "1", bob |-> "2", total |-> "5"]]
M1 == [M0 EXCEPT !.cb = <<[k |-> "self", m |-> [k |-> "unpause"]]>>, !.fund = "1", !.adm = "alice"]
M2 == [M0 EXCEPT !.powers = [alice |-> "7", bob |-> "0", total |-> "9"]]
C0 == [name |-> "n", desc |-> "d", image |-> "", c20 |-> TRUE, c721 |-> FALSE, uri |-> ""]
Pay == [k |-> "pay", to |-> "payee1", a |-> "1"]
MF == [M0 EXCEPT !.fail = TRUE]
MC1 == [M0 EXCEPT !.cb = <<Pay>>]
Founding ==
  { [cfg |-> C0, admin |-> a, vm |-> v, mods |-> q, items |-> i, noitems |-> i = <<>>, fund |-> f] : a \in {"", "alice"}, v \in {M0, MF, MC1, M1}, f \in {"0", "2"},
      q \in {<<>>} \cup { <<x>> : x \in {M0, M1, MF, MC1} } \cup { <<x, y>> : x \in {M0, MC1}, y \in {M2, M1, MF} },
      i \in {<<>>, << <<"a", "1">> >>, << <<"a", "1">>, <<"b", "1">> >>, << <<"a", "1">>, <<"a", "2">> >>} }
Cfgs == IF Kind = "found" THEN Founding ELSE { [cfg |-> C0, admin |-> a, vm |-> M0, mods |-> <<M0, M0>>, items |-> <<>>, noitems |-> TRUE, fund |-> "2"] : a \in {"", "alice"} }
Self(m) == [k |-> "self", m |-> m]
By(w, m) == [o |-> "call", by |-> w, m |-> m]
Gov(x) == {"contract7", "contract8"}
\* who acts: authority, pause and admin
PowerOps(x) ==
  { By(w, [k |-> k, msgs |-> q]) : w \in {"contract6", "contract7", "contract8", "alice", "bob", DAO}, k \in {"hook", "admin"},
      q \in {<<Pay>>, <<Pay, [k |-> "fail"]>>} }
  \cup { By("contract7", [k |-> "hook", msgs |-> <<Self(m)>>]) : m \in
      {[k |-> "pause", dur |-> [k |-> "h", v |-> 1]], [k |-> "unpause"], [k |-> "nominate", who |-> "bob"], [k |-> "nominate", who |-> ""],
       [k |-> "withdraw"], [k |-> "pm", add |-> <<>>, dis |-> <<"contract8">>]} }
  \cup { By(w, m) : w \in {"alice", "bob", DAO}, m \in
      {[k |-> "pause", dur |-> [k |-> "h", v |-> 2]], [k |-> "unpause"], [k |-> "nominate", who |-> "bob"], [k |-> "nominate", who |-> ""],
       [k |-> "accept"], [k |-> "withdraw"]} }
  \cup {[o |-> "adv", n |-> 1, s |-> 5]}
Mods(x) == DOMAIN x.mods
Subsets(S) == { Sorted(T) : T \in SUBSET S }
ModOps(x) ==
  { By(DAO, [k |-> "pm", add |-> a, dis |-> d]) : a \in (IF x.total < 5 THEN {<<>>, <<M0>>, <<M1>>} ELSE {<<>>}), d \in Subsets(Mods(x)) }
  \cup {By(DAO, [k |-> "pm", add |-> <<>>, dis |-> <<"contract8", "contract8">>]), By("contract7", [k |-> "pm", add |-> <<>>, dis |-> <<"contract8">>]),
        By(DAO, [k |-> "pm", add |-> <<[M0 EXCEPT !.fail = TRUE]>>, dis |-> <<"contract7">>])}
  \cup (IF x.total < 5 THEN { By(DAO, [k |-> "vm", mod |-> M2]) } ELSE {})
  \cup { By(w, [k |-> "hook", msgs |-> <<Self([k |-> "pm", add |-> <<>>, dis |-> <<w>>])>>]) : w \in {"contract7", "contract8"} }
RegOps(x) ==
  { By(w, [k |-> "set_item", key |-> k, val |-> v]) : w \in {DAO}, k \in {"a", "ab"}, v \in {"1", "2"} }
  \cup { By(w, [k |-> "rm_item", key |-> "a"]) : w \in {DAO, "alice"} }
  \cup { By(DAO, [k |-> "subs", add |-> a, rm |-> r]) : a \in {<<>>, << <<"sub1", "c1">> >>, << <<"sub2", "">>, <<"sub1", "">> >>}, r \in {<<>>, <<"sub1">>} }
  \cup { By(DAO, [k |-> "c20", add |-> a, rm |-> r]) : a \in {<<>>, <<"contract0">>, <<"contract1", "contract0">>, <<"contract3">>}, r \in {<<>>, <<"contract0">>} }
  \cup { By(DAO, [k |-> "cfg", c |-> [C0 EXCEPT !.c20 = b, !.c721 = ~b]]) : b \in BOOLEAN }
  \cup { [o |-> "send20", by |-> "alice", tok |-> "contract2", a |-> "1"], [o |-> "sendnft", by |-> "alice", tok |-> "contract3"] }
FoundOps(x) == { By("alice", [k |-> "accept"]), By("bob", [k |-> "unpause"]) }
Ops(x) == CASE Kind = "found" -> FoundOps(x) [] Kind = "power" -> PowerOps(x) [] Kind = "mods" -> ModOps(x) [] OTHER -> RegOps(x)
M == INSTANCE MC WITH MCfgs <- Cfgs, MOps <- Ops, TInit <- Init, TApply <- Apply, TInv <- Inv, TStep <- StepP
Spec == M!MSpec
Invs == M!MInv
EmitC == M!MEmit
View == M!MView
=============================================================================
