----------------------------- MODULE GovSingleUp ------------------------------
(* cw-proposal-single v1 migrated to dao-proposal-single.                      *)
EXTENDS GovSingle
Kept == {"id", "title", "by", "start", "min", "exp", "th", "total", "msgs", "status", "yes", "no", "ab", "revote", "snap"}
Import(e) ==
  LET d == e.dump
      cfg == [f \in CfgFields |-> IF f = "close" THEN e.close ELSE IF f = "veto" THEN e.veto ELSE d.cfg[f]]
      props == [i \in DOMAIN d.props |-> [tl |-> G!None, veto |-> G!NoVeto] @@ [f \in Kept |-> d.props[i][f]]]
      ls == {"l1", "l2", "l3"} \cup (IF e.pp = "module" THEN {"pp1"} ELSE {})
      x == [now |-> [h |-> d.h, t |-> d.t], cfg |-> cfg,
            policy |-> IF e.pp = "module" THEN [k |-> "module", a |-> "pp1"] ELSE [k |-> "anyone", a |-> ""],
            npp |-> IF e.pp = "module" THEN 1 ELSE 0, props |-> props, ballots |-> d.ballots, phooks |-> d.phooks, vhooks |-> d.vhooks,
            ord |-> d.ord, mocks |-> [l \in ls |-> IF l = "pp1" THEN G!NewMock ELSE [n |-> d.logs[l].n, last |-> d.logs[l].last, fail |-> FALSE]],
            pow |-> d.pow, blk |-> d.blk, active |-> TRUE, bal |-> d.bal, fund |-> BSumF(d.bal)]
  IN IF e.by # "dao" THEN Fail("migrate", 0)
     ELSE IF ~G!VetoOk(e.veto, d.cfg.max) THEN Fail("badveto", 0)
     ELSE IF e.pp = "broken" THEN Fail("broken", 0)
     \* deposits held by the module would be stranded
     ELSE IF \E i \in DOMAIN d.props : d.props[i].dep # "0" /\ d.props[i].status \notin {"closed", "executed"} THEN Fail("deposits", 0)
     ELSE Ok(x)
May(x, e) == e.by = "dao"
U == INSTANCE Up WITH UImport <- Import, UMay <- May, UApply <- Apply, UObs <- Obs, UInv <- Inv
=============================================================================
