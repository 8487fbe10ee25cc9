------------------------------- MODULE StakeUp --------------------------------
(* cw20-stake v1 migrated to the present one, then used by a DAO.              *)
EXTENDS Stake
Import(e) ==
  LET d == e.dump
      owed == BAdd(d.pot, BSumF([w \in Users |-> BSumSeq([i \in DOMAIN d.claims[w] |-> d.claims[w][i].a])]))
      hist == HistOf(d.at, 1)
      x == [kind |-> "cw20", src |-> "shared", now |-> [h |-> d.h, t |-> d.t], wal |-> [dao |-> "0"] @@ d.wal, pot |-> d.pot,
            gift |-> BSub(d.wal["pool"], owed), st |-> d.at[Len(d.at)], hist |-> hist, claims |-> d.claims, dur |-> d.dur, act |-> [k |-> "none", v |-> "0"],
            hooks |-> d.hooks, failing |-> {}, log |-> d.log, ord |-> d.ord, own |-> [owner |-> d.owner, pending |-> ""],
            at |-> [h |-> 0, st |-> d.at[1]], page |-> [q |-> <<>>, st |-> EmptyF, lim |-> 0]]
  IN IF e.by # "deployer" THEN Fail("migrate", 0) ELSE Ok(x)
May(x, e) == FALSE
U == INSTANCE Up WITH UImport <- Import, UMay <- May, UApply <- Apply, UObs <- Obs, UInv <- Inv
=============================================================================
