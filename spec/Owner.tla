-------------------------------- MODULE Owner --------------------------------
(* Ownership that moves in two steps: offered by the owner, accepted by the     *)
(* one it was offered to.  o = [owner, pend, exp]; "" is nobody.                *)
EXTENDS Kit
Never == [k |-> "never", v |-> 0]
Owned(w) == [owner |-> w, pend |-> "", exp |-> Never]
Passed(now, x) == (x.k = "h" /\ now.h >= x.v) \/ (x.k = "t" /\ now.t >= x.v)
OwnerOps == {"offer", "accept", "renounce"}
\* the ownership after e, or ""-free failure
Transfer(o, now, e) ==
  CASE e.o = "offer" -> IF o.owner = "" \/ e.by # o.owner THEN Fail("unauthorized", o) ELSE Ok([o EXCEPT !.pend = e.to, !.exp = e.exp])
    [] e.o = "accept" -> IF o.pend = "" \/ e.by # o.pend \/ Passed(now, o.exp) THEN Fail("unauthorized", o) ELSE Ok(Owned(e.by))
    [] e.o = "renounce" -> IF o.owner = "" \/ e.by # o.owner THEN Fail("unauthorized", o) ELSE Ok(Owned(""))
OwnerSteps(x, now, e, y) ==
  x.owner # y.owner => e.o \in OwnerOps /\ ((e.o = "accept" /\ y.owner = x.pend /\ e.by = x.pend) \/ (e.o = "renounce" /\ e.by = x.owner /\ y.owner = ""))
=============================================================================
