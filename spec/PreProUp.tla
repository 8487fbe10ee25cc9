------------------------------- MODULE PreProUp -------------------------------
(* Pre-propose modules that start on 2.4.1, where either everybody or the       *)
(* members may submit, and move to the present code in the middle of it all:    *)
(* what is pending, deposited and recorded goes on as if nothing had happened.  *)
EXTENDS PrePro
UpInit(c) == LET r == Init(c) IN [ok |-> r.ok, s |-> [phase |-> "old", x |-> r.s]]
Upgrade(u, e) ==
  IF e.by # "dao" \/ u.phase = "new" THEN Fail("migrate", u)
  ELSE IF e.pol.k = "keep" THEN Ok([u EXCEPT !.phase = "new"])
  ELSE IF PolOk(e.pol) THEN Ok([u EXCEPT !.phase = "new", !.x.pol = NormPol(e.pol)]) ELSE Fail("policy", u)
UpApply(u, e) == IF e.o = "upgrade" THEN Upgrade(u, e) ELSE LET r == Apply(u.x, e) IN [r EXCEPT !.s = [u EXCEPT !.x = r.s]]
UpObs(u) == IF u.phase = "old" THEN [phase |-> "old"] ELSE Obs(u.x) @@ [phase |-> "new"]
UpInv(u) == Inv(u.x)
=============================================================================
