------------------------------- MODULE StreamUp -------------------------------
(* v1 of the pool and both reward contracts, migrated one after the other.     *)
EXTENDS Stream
Import(e) ==
  LET d == e.dump
      x0 == [kind |-> d.kind, now |-> [h |-> d.h, t |-> d.t], hold |-> d.hold, st |-> d.at[Len(d.at)], hist |-> HistOf(d.at, 1), pot |-> d.pot,
             x |-> d.x, xown |-> Owned(d.xo), down |-> Owned(d.dow), d |-> d.d, got |-> EmptyF, due |-> [w \in Users |-> "0"], funded |-> "0", n |-> 1]
      \* what is owed so far counts as given (up to what is lost by rounding), with the rest of the running period
      x == [x0 EXCEPT !.due = [w \in Users |-> BMul(BAdd(Pend(x0, w), "1"), E39)],
                      !.funded = BAdd(BAdd(Owe(x0), "4"), BMul(x0.x.rate, BI(MaxI(0, x0.x.fin - x0.now.h))))]
  IN IF e.by # "deployer" THEN Fail("migrate", 0) ELSE Ok(x)
May(x, e) == FALSE
U == INSTANCE Up WITH UImport <- Import, UMay <- May, UApply <- Apply, UObs <- Obs, UInv <- Inv
=============================================================================
