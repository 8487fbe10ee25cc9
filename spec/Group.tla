-------------------------------- MODULE Group --------------------------------
(* Voting power from membership.                                               *)
(* kind "cw4"    dao-voting-cw4 over a membership group (cw4-group)             *)
(*      "roles"  dao-voting-cw721-roles over role NFTs (cw721-roles)            *)
(* A membership is a map from members to weights (members of weight zero        *)
(* exist); its history is kept per block.                                      *)
EXTENDS Staking, Owner
Users == {"alice", "bob", "carol"}
Valid(w) == w \in Users \cup {"dave", "dao", "vote", "cbox", "minter"}
All == Users \cup {"cbox", "dave"}
W(m, w) == Get(m, w, "0")
SumW(m) == BSumF(m)
Fits64(a) == BLe(a, U64MAX)
\* the membership from now on is m
SetMem(s, m) == IF ~Fits64(SumW(m)) THEN Fail("overflow", s) ELSE Ok([s EXCEPT !.hist = Remember(@, s.now.h, s.mem), !.mem = m])
Opt(m, w) == IF w \in DOMAIN m THEN m[w] ELSE "-"
Diff(m, n, w) == w \o ":" \o Opt(m, w) \o ">" \o Opt(n, w)
\* ...and listeners hear of the change
Change(s, m, text) == LET r == SetMem(s, m) IN IF r.ok = "n" THEN r ELSE Tell(r.s, "nft", text)
-----------------------------------------------------------------------------
\* groups
RECURSIVE AddAll(_, _)
AddAll(m, q) == IF q = <<>> THEN m ELSE AddAll(Put(m, q[1].w, q[1].n), Tail(q))
Names(q) == { q[i].w : i \in DOMAIN q }
Unique(q) == Cardinality(Names(q)) = Len(q)
Update(s, e) ==
  IF s.gadmin = "" \/ e.by # s.gadmin THEN Fail("unauthorized", s)
  ELSE IF ~Unique(e.add) THEN Fail("duplicate", s)
  ELSE LET m == AddAll(s.mem, e.add)
           \* whichever order the group works them off in
           most == [w \in DOMAIN m |-> BMax(m[w], W(s.mem, w))]
       IN
       IF ~Fits64(SumW(m)) THEN Fail("overflow", s)
       ELSE IF ~Fits64(SumW(most)) THEN Maybe("overflow", SetMem(s, [w \in DOMAIN m \ Range(e.rm) |-> m[w]]).s)
       ELSE SetMem(s, [w \in DOMAIN m \ Range(e.rm) |-> m[w]])
-----------------------------------------------------------------------------
\* roles
Held(s, w) == { id \in DOMAIN s.nft : s.nft[id].to = w }
Less(m, w, n) == LET r == BSub(W(m, w), n) IN IF r = "0" THEN Del(m, w) ELSE Put(m, w, r)
Mint(s, e) ==
  IF e.id \in DOMAIN s.nft THEN Fail("exists", s)
  ELSE LET m == Put(s.mem, e.to, BAdd(W(s.mem, e.to), e.n)) IN
       Change([s EXCEPT !.nft = Put(@, e.id, [to |-> e.to, n |-> e.n, role |-> e.role, uri |-> e.uri])], m, Diff(s.mem, m, e.to))
Burn(s, e) ==
  IF e.id \notin DOMAIN s.nft THEN Fail("unknown", s)
  ELSE LET x == s.nft[e.id]
           m == Less(s.mem, x.to, x.n)
       IN Change([s EXCEPT !.nft = Del(@, e.id)], m, Diff(s.mem, m, x.to))
\* the weight goes with the role
Move(s, id, to) ==
  IF id \notin DOMAIN s.nft THEN Fail("unknown", s)
  ELSE LET x == s.nft[id]
           s1 == [s EXCEPT !.nft[id].to = to]
           m0 == Less(s.mem, x.to, x.n)
           m == Put(m0, to, BAdd(W(m0, to), x.n))
       IN IF x.to = to THEN Ok(s1) ELSE Change(s1, m, Diff(s.mem, m, x.to) \o "," \o Diff(s.mem, m, to))
Weigh(s, e) ==
  IF e.id \notin DOMAIN s.nft THEN Fail("unknown", s)
  ELSE IF s.nft[e.id].n = e.n THEN Fail("same", s)
  ELSE LET x == s.nft[e.id]
           m == Put(s.mem, x.to, BAdd(BSub(W(s.mem, x.to), x.n), e.n))
       IN Change([s EXCEPT !.nft[e.id].n = e.n], m, Diff(s.mem, m, x.to))
Describe(s, e) == IF e.id \notin DOMAIN s.nft THEN Fail("unknown", s) ELSE Ok([s EXCEPT !.nft[e.id][IF e.o = "role" THEN "role" ELSE "uri"] = e.v])
RoleOp(s, e) ==
  CASE e.o = "mint" -> Mint(s, e)
    [] e.o = "burn" -> Burn(s, e)
    [] e.o = "move" -> Move(s, e.id, e.to)
    \* to a contract, which hears of it
    [] e.o = "send" -> IF "cbox" \in s.failing THEN Fail("receiver", s)
                       ELSE LET r == Move(s, e.id, "cbox") IN IF r.ok = "n" THEN r ELSE Ok([r.s EXCEPT !.cbox = [n |-> @.n + 1, last |-> e.by \o ":" \o e.id]])
    [] e.o = "weigh" -> Weigh(s, e)
    [] e.o \in {"role", "uri"} -> Describe(s, e)
    [] e.o = "hook" -> SetHook(s, e.by, s.own.owner, e.who, e.add)
Apply(s, e) ==
  CASE e.o = "upd" -> Update(s, e)
    [] e.o = "gadm" -> IF s.gadmin = "" \/ e.by # s.gadmin THEN Fail("unauthorized", s) ELSE Ok([s EXCEPT !.gadmin = e.to])
    [] e.o \in {"mint", "burn", "move", "send", "weigh", "role", "uri", "hook"} ->
         IF s.own.owner = "" \/ e.by # s.own.owner THEN Fail("unauthorized", s) ELSE RoleOp(s, e)
    [] e.o \in OwnerOps -> LET r == Transfer(s.own, s.now, e) IN IF r.ok = "n" THEN Fail(r.why, s) ELSE Ok([s EXCEPT !.own = r.s])
    \* a newer release of the same code: the administrator's alone, and nothing changes
    [] e.o = "renew" -> IF e.by = "dao" THEN Ok(s) ELSE Fail("unauthorized", s)
    [] e.o = "fail" -> Ok([s EXCEPT !.failing = IF e.on THEN @ \cup {e.who} ELSE @ \ {e.who}])
    [] e.o = "adv" -> Adv(s, e)
    [] e.o = "at" -> Ok([s EXCEPT !.at = [h |-> e.h, m |-> AtH(s.hist, s.mem, e.h)]])
    [] e.o = "page" -> Ok([s EXCEPT !.page = LET q == SelectSeq(Sorted(DOMAIN s.mem), LAMBDA w : e.after = "" \/ SLt(e.after, w)) IN
                                              Take(q, IF e.limit >= 0 THEN MinI(e.limit, 30) ELSE 10)])
-----------------------------------------------------------------------------
RECURSIVE MintAll(_, _)
MintAll(s, q) == IF q = <<>> THEN Ok(s) ELSE LET r == Mint(s, q[1]) IN IF r.ok = "n" THEN r ELSE MintAll(r.s, Tail(q))
Init(c) ==
  LET s0 == [kind |-> c.kind, src |-> c.src, now |-> [h |-> 0, t |-> 0], mem |-> EmptyF, hist |-> <<>>, nft |-> EmptyF, gadmin |-> "", own |-> Owned(""),
             hooks |-> <<>>, failing |-> {}, log |-> [l \in Listeners |-> [n |-> 0, last |-> ""]], ord |-> <<>>, cbox |-> [n |-> 0, last |-> ""], at |-> [h |-> 0, m |-> EmptyF], page |-> <<>>]
      q == c.members
      m == AddAll(EmptyF, q)
      valid == \A i \in DOMAIN q : Valid(q[i].w)
  IN IF c.kind = "cw4"
     THEN [ok |-> /\ q # <<>>
                  /\ Fits64(SumW(m))
                  /\ Unique(q) /\ valid /\ c.src \in {"new", "existing"}
                  /\ c.src = "new" => SumW(m) # "0",
           s |-> [s0 EXCEPT !.mem = m, !.hist = Remember(@, 0, EmptyF), !.gadmin = IF c.src = "new" THEN "dao" ELSE "minter"]]
     ELSE LET s1 == [s0 EXCEPT !.own = IF c.src = "new" THEN [owner |-> "vote", pend |-> "dao", exp |-> Never] ELSE Owned("minter"), !.hist = Remember(@, 0, EmptyF)]
              r == MintAll(s1, c.nfts)
          IN [ok |-> r.ok = "y" /\ (c.src = "new" => c.nfts # <<>>), s |-> r.s]

Now(s) == AtH(s.hist, s.mem, s.now.h)
Powers(m) == [w \in All |-> W(m, w)]
Obs(s) ==
  [now |-> s.now, power |-> Powers(s.mem), total |-> SumW(s.mem), at |-> [h |-> s.at.h, p |-> Powers(s.at.m), t |-> SumW(s.at.m)],
   cur |-> [p |-> Powers(Now(s)), t |-> SumW(Now(s))],
   mem |-> s.mem, list |-> Sorted(DOMAIN s.mem), page |-> s.page, gadmin |-> s.gadmin, own |-> s.own, nft |-> s.nft,
   held |-> [w \in All |-> Sorted(Held(s, w))], num |-> Cardinality(DOMAIN s.nft),
   hooks |-> s.hooks, log |-> s.log, ord |-> s.ord, cbox |-> s.cbox, daoq |-> "dao", made |-> [vote |-> "dao", group |-> IF s.src = "new" THEN "dao" ELSE ""]]
Inv(s) ==
  [ roles |-> s.kind = "roles" => \A w \in All : W(s.mem, w) = BSumF([id \in Held(s, w) |-> s.nft[id].n]),
    members |-> s.kind = "roles" => \A w \in All : (\E id \in Held(s, w) : s.nft[id].n # "0") => w \in DOMAIN s.mem,
    fits |-> Fits64(SumW(s.mem)) ]
StepP(x, e, y) ==
  [ past |-> \A h \in Moments(x.hist, x.now.h) : AtH(x.hist, x.mem, h) = AtH(y.hist, y.mem, h),
    owner |-> OwnerSteps(x.own, x.now, e, y.own),
    who |-> (x.mem # y.mem \/ x.nft # y.nft) => (IF x.kind = "cw4" THEN e.by = x.gadmin ELSE e.by = x.own.owner),
    told |-> x.kind = "roles" /\ x.mem # y.mem => \A l \in Range(x.hooks) : y.log[l].n = x.log[l].n + 1 ]
=============================================================================
