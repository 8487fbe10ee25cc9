------------------------------- MODULE Issuer -------------------------------
(* cw-tokenfactory-issuer: a contract that issues a denomination for its owner. *)
(*  den   what the chain knows: who controls the denomination (admin), the      *)
(*        listener asked before coins move, the metadata                        *)
(*  mint, burn   allowances;  allow, deny   addresses;  feat   what the issuer  *)
(*        remembers about the listener                                          *)
(* The issuer can act on the denomination only while it is its admin, and       *)
(* freezing and denying only bind while the listener is the issuer.             *)
EXTENDS Owner
Accts == {"alice", "bob", "boss", "carol", "iss", "iss2"}
Valid(w) == w \notin {"X", ""}
IsOwner(s, w) == s.own.owner # "" /\ w = s.own.owner
NotFrozen(s, from, to) == ~s.frozen \/ from \in s.allow \/ to \in s.allow
Passes(s, from, to) == s.den.hook # "iss" \/ (NotFrozen(s, from, to) /\ from \notin s.deny /\ to \notin s.deny)
Move(s, from, to, a) ==
  IF ~Passes(s, from, to) THEN Fail("held", s)
  ELSE IF BLt(s.hold[from], a) THEN Fail("funds", s)
  ELSE LET f == [s.hold EXCEPT ![from] = BSub(@, a)] IN Ok([s EXCEPT !.hold = [f EXCEPT ![to] = BAdd(@, a)]])
\* an allowance after a is used of it
Used(f, w, a) == LET n == BSub(Get(f, w, "0"), a) IN IF n = "0" THEN Del(f, w) ELSE Put(f, w, n)
SetA(f, w, a) == IF a = "0" THEN Del(f, w) ELSE Put(f, w, a)
Mint(s, e) ==
  IF ~Valid(e.to) \/ e.a = "0" THEN Fail("bad", s)
  ELSE IF BLt(Get(s.mint, e.by, "0"), e.a) THEN Fail("allowance", s)
  ELSE IF ~NotFrozen(s, e.by, e.to) THEN Fail("frozen", s)
  ELSE IF s.den.admin # "iss" THEN Fail("admin", s)
  ELSE Move([s EXCEPT !.mint = Used(@, e.by, e.a), !.hold["iss"] = BAdd(@, e.a)], "iss", e.to, e.a)
Burn(s, e) ==
  IF ~Valid(e.from) \/ e.a = "0" THEN Fail("bad", s)
  ELSE IF BLt(Get(s.burn, e.by, "0"), e.a) THEN Fail("allowance", s)
  ELSE IF s.den.admin # "iss" THEN Fail("admin", s)
  ELSE IF BLt(s.hold[e.from], e.a) THEN Fail("funds", s)
  ELSE Ok([s EXCEPT !.burn = Used(@, e.by, e.a), !.hold[e.from] = BSub(@, e.a)])
W(i) == IF i < 10 THEN "w0" \o ToString(i) ELSE "w" \o ToString(i)
Ws(n) == { W(i) : i \in 1..n }
Listing == {"freeze", "allow", "deny"}
Owners == {"sm", "sb", "adm", "meta", "hook", "force", "many"} \cup Listing
Raw(s, e) ==
  IF e.o \in Owners /\ ~IsOwner(s, e.by) THEN Fail("unauthorized", s)
  ELSE IF e.o \in Listing /\ ~s.feat.on THEN Fail("features", s)
  ELSE IF e.o \in {"sm", "sb", "allow", "deny"} /\ ~Valid(e.w) THEN Fail("address", s)
  ELSE CASE e.o = "mint" -> Mint(s, e)
    [] e.o = "burn" -> Burn(s, e)
    [] e.o = "sm" -> Ok([s EXCEPT !.mint = SetA(@, e.w, e.a)])
    [] e.o = "sb" -> Ok([s EXCEPT !.burn = SetA(@, e.w, e.a)])
    [] e.o = "freeze" -> Ok([s EXCEPT !.frozen = e.b, !.allow = IF e.b THEN @ \cup {"iss"} ELSE @ \ {"iss"}])
    [] e.o = "allow" -> Ok([s EXCEPT !.allow = IF e.b THEN @ \cup {e.w} ELSE @ \ {e.w}])
    [] e.o = "deny" -> IF e.w = "iss" THEN Fail("self", s) ELSE Ok([s EXCEPT !.deny = IF e.b THEN @ \cup {e.w} ELSE @ \ {e.w}])
    [] e.o = "many" -> IF e.l \in {"allow", "deny"} /\ ~s.feat.on THEN Fail("features", s)
                       ELSE Ok(CASE e.l = "sm" -> [s EXCEPT !.mint = [w \in Ws(e.n) |-> "7"] @@ @]
                                 [] e.l = "sb" -> [s EXCEPT !.burn = [w \in Ws(e.n) |-> "7"] @@ @]
                                 [] e.l = "allow" -> [s EXCEPT !.allow = @ \cup Ws(e.n)]
                                 [] e.l = "deny" -> [s EXCEPT !.deny = @ \cup Ws(e.n)])
    [] e.o = "adm" -> IF ~Valid(e.to) THEN Fail("address", s) ELSE IF s.den.admin # "iss" THEN Fail("admin", s) ELSE Ok([s EXCEPT !.den.admin = e.to])
    [] e.o = "meta" -> IF s.den.admin # "iss" THEN Fail("admin", s) ELSE Ok([s EXCEPT !.den.meta = e.n])
    [] e.o = "hook" -> IF e.to # "" /\ ~Valid(e.to) THEN Fail("address", s) ELSE IF s.den.admin # "iss" THEN Fail("admin", s)
                       ELSE Ok([s EXCEPT !.den.hook = e.to, !.feat = [on |-> e.to = "iss", a |-> e.to]])
    [] e.o = "force" -> IF s.den.admin # "iss" THEN Fail("admin", s) ELSE IF e.a = "0" THEN Fail("bad", s) ELSE Move(s, e.from, e.to, e.a)
    [] e.o = "send" -> Move(s, e.by, e.to, e.a)
    [] e.o = "chadm" -> IF s.den.admin # e.by THEN Fail("admin", s) ELSE Ok([s EXCEPT !.den.admin = e.to])
    [] e.o \in OwnerOps -> LET r == Transfer(s.own, s.now, e) IN IF r.ok = "n" THEN Fail(r.why, s) ELSE Ok([s EXCEPT !.own = r.s])
    [] e.o = "adv" -> Ok([s EXCEPT !.now = [h |-> @.h + e.n, t |-> @.t + e.s]])
Apply(s, e) == Raw(s, e)
\* an existing denomination belongs to boss, who has n of it; a new one to the issuer
Init(c) ==
  [ok |-> TRUE, s |-> [now |-> [h |-> 0, t |-> 0], own |-> Owned("boss"), frozen |-> FALSE, feat |-> [on |-> FALSE, a |-> ""], mint |-> EmptyF, burn |-> EmptyF, allow |-> {}, deny |-> {},
     den |-> [admin |-> IF c.kind = "new" THEN "iss" ELSE "boss", hook |-> "", meta |-> ""], hold |-> [w \in Accts |-> IF w = "boss" /\ c.kind = "old" THEN c.n ELSE "0"]]]
-----------------------------------------------------------------------------
After(q, w) == IF w = "" THEN q ELSE SelectSeq(q, LAMBDA x : SLt(w, x))
Page(q, w, n) == Take(After(q, w), MinI(n, 30))
Pages(S, f(_)) == LET q == Sorted(S)
                      g(p) == [i \in DOMAIN p |-> f(p[i])]
                  IN << g(Page(q, "", 10)), g(Page(q, "w11", 3)), g(Page(q, "", 50)), g(Page(q, "carol", 4)) >>
Asked == {"alice", "bob", "boss", "carol", "iss", "w02"}
Obs(s) ==
  [now |-> s.now, own |-> s.own, frozen |-> s.frozen, feat |-> s.feat, den |-> s.den, hold |-> s.hold,
   mint |-> Pages(DOMAIN s.mint, LAMBDA w : [w |-> w, a |-> s.mint[w]]), burn |-> Pages(DOMAIN s.burn, LAMBDA w : [w |-> w, a |-> s.burn[w]]),
   allow |-> Pages(s.allow, LAMBDA w : w), deny |-> Pages(s.deny, LAMBDA w : w),
   who |-> [w \in Asked |-> [m |-> Get(s.mint, w, "0"), b |-> Get(s.burn, w, "0"), a |-> w \in s.allow, d |-> w \in s.deny]]]
Supply(s) == BSumF(s.hold)
Inv(s) ==
  [ self |-> "iss" \notin s.deny,
    listed |-> s.feat.on = (s.feat.a = "iss"),
    \* while the denomination is the issuer's, they agree on the listener
    agree |-> s.den.hook = s.feat.a,
    kept |-> \A w \in DOMAIN s.mint : s.mint[w] # "0" ]
Changed(x, y) == { w \in Accts : x.hold[w] # y.hold[w] }
StepP(x, e, y) ==
  [ supply |-> Supply(x) # Supply(y) =>
       IF e.o = "mint" THEN Supply(y) = BAdd(Supply(x), e.a) /\ Get(x.mint, e.by, "0") = BAdd(Get(y.mint, e.by, "0"), e.a)
       ELSE e.o = "burn" /\ Supply(x) = BAdd(Supply(y), e.a) /\ Get(x.burn, e.by, "0") = BAdd(Get(y.burn, e.by, "0"), e.a),
    allowances |-> (\E w \in DOMAIN y.mint \cup DOMAIN y.burn : BLt(Get(x.mint, w, "0"), Get(y.mint, w, "0")) \/ BLt(Get(x.burn, w, "0"), Get(y.burn, w, "0"))) => e.o \in {"sm", "sb", "many"} /\ e.by = x.own.owner,
    lists |-> (x.allow # y.allow \/ x.deny # y.deny \/ x.frozen # y.frozen) => e.o \in Listing \cup {"many"} /\ e.by = x.own.owner /\ x.feat.on,
    \* what belongs to someone else moves only for the owner or by an allowance
    mine |-> \A w \in Accts : BLt(y.hold[w], x.hold[w]) => (e.o = "send" /\ e.by = w) \/ (e.o = "force" /\ e.by = x.own.owner) \/ (e.o = "burn" /\ BLt("0", Get(x.burn, e.by, "0"))),
    denied |-> x.den.hook = "iss" => \A w \in x.deny \cap Changed(x, y) : e.o = "burn",
    frozen |-> x.den.hook = "iss" /\ x.frozen /\ e.o # "burn" => Changed(x, y) = {} \/ Changed(x, y) \cap x.allow # {} \/ (e.o = "mint" /\ "iss" \in x.allow),
    admin |-> x.den.admin = "iss" /\ x.den # y.den => e.by = x.own.owner /\ e.o \in {"adm", "meta", "hook"},
    owner |-> OwnerSteps(x.own, x.now, e, y.own) ]
=============================================================================
