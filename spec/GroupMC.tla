------------------------------- MODULE GroupMC -------------------------------
EXTENDS Group, IOUtils
VARIABLES c, s, h
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT
Kind == IF "KIND" \in DOMAIN IOEnv THEN IOEnv.KIND ELSE "cw4"
Mem(w, n) == [w |-> w, n |-> n]
Big == "18446744073709551615"
Tok(i, w, n) == [id |-> i, to |-> w, n |-> n, role |-> "", uri |-> ""]
CG == [kind |-> "cw4", src |-> "existing", members |-> <<Mem("alice", "2"), Mem("bob", "1")>>, nfts |-> <<>>]
CR == [kind |-> "roles", src |-> "existing", members |-> <<>>, nfts |-> <<Tok("r1", "alice", "2"), Tok("r2", "alice", "0"), Tok("r3", "bob", "1")>>]
Seqs2(S) == {<<>>} \cup { <<a>> : a \in S } \cup { <<a, b>> : a \in S, b \in S }
Founding ==
  { [CG EXCEPT !.src = x, !.members = q] : x \in {"existing", "new", "notgroup"}, q \in Seqs2({ Mem(w, n) : w \in {"alice", "bob", "x", "ALICE"}, n \in {"0", "1", Big} }) }
  \cup { [CR EXCEPT !.src = x, !.nfts = q] : x \in {"existing", "new"}, q \in Seqs2({ Tok(i, w, n) : i \in {"r1", "r2"}, w \in {"alice", "bob"}, n \in {"0", "1", Big} }) }
Cfgs ==
  IF Kind = "found" THEN Founding ELSE IF Kind = "cw4"
  THEN { [CG EXCEPT !.src = x] : x \in {"existing", "new"} } \cup { [CG EXCEPT !.src = "new", !.members = q] : q \in {<<Mem("bob", "0"), Mem("alice", "1")>>, <<Mem("alice", Big)>>} }
  ELSE { [CR EXCEPT !.src = x] : x \in {"existing", "new"} } \cup { [CR EXCEPT !.nfts = q] : q \in {<<>>, <<Tok("r1", "bob", "0")>>, <<Tok("r1", "carol", Big), Tok("r2", "bob", "0")>>} }
GStep(n) == [o |-> "adv", n |-> n, s |-> 5 * n]
GroupOps(x) ==
  { [o |-> "upd", by |-> w, add |-> a, rm |-> q] : w \in {"minter", "dao"}, a \in {<<>>, <<Mem("alice", "3")>>, <<Mem("carol", "0")>>, <<Mem("bob", "2"), Mem("carol", "1")>>, <<Mem("alice", "1"), Mem("alice", "2")>>},
                                                    q \in {<<>>, <<"alice">>, <<"carol", "bob">>} }
  \cup {GStep(0), GStep(1), [o |-> "gadm", by |-> "dao", to |-> "minter"], [o |-> "gadm", by |-> "minter", to |-> ""], [o |-> "gadm", by |-> "alice", to |-> "alice"]}
  \cup { [o |-> "at", h |-> k] : k \in {x.now.h - 1, x.now.h, x.now.h + 1} }
Own2(x) == IF x.own.owner = "" THEN "minter" ELSE x.own.owner
RoleOps(x) ==
  LET o == Own2(x) IN
  { [o |-> "mint", by |-> o, id |-> i, to |-> w, n |-> n, role |-> "a", uri |-> ""] : i \in {"r2", "r4"}, w \in {"alice", "bob"}, n \in {"0", "2"} }
  \cup { [o |-> "burn", by |-> w, id |-> i] : w \in {o, "alice"}, i \in {"r1", "r2", "r3"} }
  \cup { [o |-> "move", by |-> w, id |-> i, to |-> to] : w \in {o, "bob"}, i \in {"r1", "r2"}, to \in {"alice", "bob", "dave"} }
  \cup { [o |-> "send", by |-> o, id |-> i] : i \in {"r1", "r2"} }
  \cup { [o |-> "weigh", by |-> o, id |-> i, n |-> n] : i \in {"r1", "r2"}, n \in {"0", "1", "3"} }
  \cup { [o |-> "hook", by |-> o, who |-> "l1", add |-> b] : b \in BOOLEAN } \cup {[o |-> "fail", who |-> "l1", on |-> TRUE], GStep(1), GStep(0)}
  \cup { [o |-> "accept", by |-> w] : w \in {"dao", "alice"} } \cup {[o |-> "offer", by |-> o, to |-> "alice", exp |-> [k |-> "h", v |-> 1]]}
  \cup { [o |-> "at", h |-> k] : k \in {x.now.h, x.now.h + 1} }
Ops(x) == IF Kind = "found" THEN { [o |-> "upd", by |-> "alice", add |-> <<>>, rm |-> <<"bob">>], [o |-> "mint", by |-> "alice", id |-> "r9", to |-> "alice", n |-> "1", role |-> "", uri |-> ""], [o |-> "accept", by |-> "alice"] } \ { e \in {[o |-> "upd", by |-> "alice", add |-> <<>>, rm |-> <<"bob">>]} : x.kind # "cw4" } ELSE IF Kind = "cw4" THEN GroupOps(x) ELSE RoleOps(x)
M == INSTANCE MC WITH MCfgs <- Cfgs, MOps <- Ops, TInit <- Init, TApply <- Apply, TInv <- Inv, TStep <- StepP
Spec == M!MSpec
Invs == M!MInv
EmitC == M!MEmit
View == M!MView
=============================================================================
