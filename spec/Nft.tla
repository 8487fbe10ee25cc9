--------------------------------- MODULE Nft ---------------------------------
(* Voting power from staked NFTs.                                              *)
(* kind "cw721"  dao-voting-cw721-staked: an NFT sent to the module is staked   *)
(*      "onft"   dao-voting-onft-staked: NFTs of the chain, staked in three     *)
(*               steps (prepare, transfer, confirm)                             *)
(* "vote" is the module; own says who holds each NFT of the collection.         *)
EXTENDS Staking
Users == {"alice", "bob", "carol"}
MaxClaims == 70
N(n) == ToString(n)
Staked(s, w) == s.stk[w]
Sum(b) == b["alice"] + b["bob"] + b["carol"]
Supply(s) == N(Cardinality(DOMAIN s.own))
Ids(q) == Range(q)
Prefix(q) == [i \in DOMAIN q |-> q[i]]
RECURSIVE JoinC(_)
JoinC(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o JoinC(Tail(q))
Move(s, from, to, id) ==
  IF id \in DOMAIN s.own /\ s.own[id] = from THEN Ok([s EXCEPT !.own[id] = to]) ELSE Fail("owner", s)
RECURSIVE MoveAll(_, _, _, _)
MoveAll(s, from, to, q) == IF q = <<>> THEN Ok(s) ELSE LET r == Move(s, from, to, q[1]) IN IF r.ok = "n" THEN r ELSE MoveAll(r.s, from, to, Tail(q))
SetBal(s, w, n) == [s EXCEPT !.hist = Remember(@, s.now.h, s.bal), !.bal[w] = n]
\* the tokens become w's stake; listeners hear of each
RECURSIVE TellEach(_, _, _)
TellEach(s, w, q) == IF q = <<>> THEN Ok(s) ELSE LET r == Tell(s, "vote", "stake:" \o w \o ":" \o q[1]) IN IF r.ok = "n" THEN r ELSE TellEach(r.s, w, Tail(q))
AddStake(s, w, q) ==
  LET s1 == SetBal(s, w, s.bal[w] + Len(q))
      s2 == [s1 EXCEPT !.stk[w] = @ \cup Ids(q), !.prep = [id \in DOMAIN @ \ Ids(q) |-> @[id]]]
  IN TellEach(s2, w, q)
Stake(s, w, id) == LET r == Move(s, w, "vote", id) IN IF r.ok = "n" THEN r ELSE AddStake(r.s, w, <<id>>)
Exist(s, q) == Ids(q) \subseteq DOMAIN s.own
Prepare(s, w, q) ==
  IF \A id \in Ids(q) : id \in DOMAIN s.own /\ s.own[id] = w
  THEN Ok([s EXCEPT !.prep = [id \in Ids(q) |-> w] @@ @]) ELSE Fail("owner", s)
Confirm(s, w, q) ==
  IF \A id \in Ids(q) : id \in DOMAIN s.own /\ s.own[id] = "vote" /\ id \in DOMAIN s.prep /\ s.prep[id] = w
  THEN AddStake(s, w, Sorted(Ids(q))) ELSE Fail("prepared", s)
\* undo: the DAO may send any NFT the module holds to whom it wants; others only get back
\* what they prepared and have not confirmed
Cancel(s, by, q, to) ==
  LET back(id) == IF to # "" /\ by = "dao" THEN to ELSE IF id \in DOMAIN s.prep THEN s.prep[id] ELSE ""
      held == SelectSeq(q, LAMBDA id : s.own[id] = "vote")
      s1 == [s EXCEPT !.prep = [id \in DOMAIN @ \ Ids(q) |-> @[id]], !.rescued = @ \cup {id \in Ids(held) : by = "dao"}]
  IN IF ~Exist(s, q) THEN Fail("onft", s)
     ELSE IF by # "dao" /\ \E id \in Ids(q) : s.own[id] # by /\ (id \notin DOMAIN s.prep \/ s.prep[id] # by) THEN Fail("preparer", s)
     ELSE IF by = "dao" /\ \E id \in Ids(held) : back(id) = "" THEN Fail("recipient", s)
     ELSE IF Cardinality(Ids(held)) # Len(held) THEN Fail("twice", s)
     ELSE Ok([s1 EXCEPT !.own = [id \in DOMAIN @ |-> IF id \in Ids(held) THEN back(id) ELSE @[id]]])
Unstake(s, w, q) ==
  IF q = <<>> THEN Fail("zero", s)
  ELSE IF Cardinality(Ids(q)) # Len(q) \/ ~(Ids(q) \subseteq s.stk[w]) THEN Fail("staked", s)
  ELSE LET s1 == [SetBal(s, w, s.bal[w] - Len(q)) EXCEPT !.stk[w] = @ \ Ids(q)]
           r == IF s.dur.k = "none" THEN MoveAll(s1, "vote", w, q)
                ELSE IF Len(s.claims[w]) + Len(q) > MaxClaims THEN Fail("claims", s)
                ELSE Ok([s1 EXCEPT !.claims[w] = @ \o [i \in DOMAIN q |-> [id |-> q[i], e |-> After(s.now, s.dur)]]])
       IN IF r.ok = "n" THEN r ELSE Tell(r.s, "vote", "unstake:" \o w \o ":" \o JoinC(q))
Claim(s, w) ==
  LET ripe == SelectSeq(s.claims[w], LAMBDA c : Reached(s.now, c.e)) IN
  IF ripe = <<>> THEN Fail("nothing", s)
  ELSE MoveAll([s EXCEPT !.claims[w] = SelectSeq(@, LAMBDA c : ~Reached(s.now, c.e))], "vote", w, [i \in DOMAIN ripe |-> ripe[i].id])
Mint(s, id, to) == IF id \in DOMAIN s.own THEN Fail("exists", s) ELSE Ok([s EXCEPT !.own = Put(@, id, to)])
\* many new NFTs, minted to and staked by one user
RECURSIVE Bulk(_, _, _)
Bulk(s, w, q) == IF q = <<>> THEN Ok(s) ELSE LET r == Mint(s, q[1], w) IN IF r.ok = "n" THEN r ELSE
                 LET r2 == Stake(r.s, w, q[1]) IN IF r2.ok = "n" THEN r2 ELSE Bulk(r2.s, w, Tail(q))
Cw(s) == s.kind = "cw721"
Apply(s, e) ==
  \* nothing to do: whether that is refused does not matter
  CASE e.o \in {"prep", "conf", "cancel"} /\ e.ids = <<>> -> Maybe("", s)
    [] e.o = "stake" -> IF e.t = "nft" THEN Stake(s, e.by, e.id) ELSE Fail("collection", s)
    [] e.o = "recv" -> Fail("collection", s)
    [] e.o = "prep" -> Prepare(s, e.by, e.ids)
    [] e.o = "conf" -> Confirm(s, e.by, e.ids)
    [] e.o = "cancel" -> Cancel(s, e.by, e.ids, e.to)
    [] e.o = "unstake" -> Unstake(s, e.by, e.ids)
    [] e.o = "claim" -> Claim(s, e.by)
    [] e.o = "bulk" -> Bulk(s, e.by, e.ids)
    [] e.o = "dur" -> SetDur(s, e.by, "dao", e.d)
    [] e.o = "thr" -> SetThr(s, e.by, e.t, Supply(s))
    [] e.o = "hook" -> SetHook(s, e.by, "dao", e.who, e.add)
    \* a newer release of the same code: the administrator's alone, and nothing changes
    [] e.o = "renew" -> IF e.by = "dao" THEN Ok(s) ELSE Fail("unauthorized", s)
    [] e.o = "fail" -> Ok([s EXCEPT !.failing = IF e.on THEN @ \cup {e.who} ELSE @ \ {e.who}])
    [] e.o = "move" -> LET r == Move(s, e.by, e.to, e.id) IN IF r.ok = "y" /\ e.to = "vote" THEN Ok([r.s EXCEPT !.sent = @ \cup {e.id}]) ELSE r
    [] e.o = "mint" -> Mint(s, e.id, e.to)
    [] e.o = "burn" -> IF e.id \in DOMAIN s.own /\ s.own[e.id] = e.by THEN Ok([s EXCEPT !.own = Del(@, e.id)]) ELSE Fail("owner", s)
    [] e.o = "adv" -> Adv(s, e)
    [] e.o = "at" -> Ok([s EXCEPT !.at = [h |-> e.h, b |-> AtH(s.hist, s.bal, e.h)]])
    [] e.o = "page" -> Ok([s EXCEPT !.page = LET q == SelectSeq(Sorted(s.stk[e.who]), LAMBDA t : e.after = "" \/ SLt(e.after, t)) IN
                                              IF e.limit >= 0 THEN Take(q, e.limit) ELSE q])

Init(c) ==
  LET zero == [w \in Users |-> 0]
      own == c.own
      s == [kind |-> c.kind, src |-> c.src, now |-> [h |-> 0, t |-> 0], own |-> own, stk |-> [w \in Users |-> {}], bal |-> zero, hist |-> <<>>,
            prep |-> EmptyF, claims |-> [w \in Users |-> <<>>], dur |-> c.dur, act |-> c.act, hooks |-> <<>>, failing |-> {}, rescued |-> {}, sent |-> {},
            log |-> [l \in Listeners |-> [n |-> 0, last |-> ""]], ord |-> <<>>, at |-> [h |-> 0, b |-> zero], page |-> <<>>]
      supply == N(Cardinality(DOMAIN own))
      ok == /\ DurOk(c.dur) /\ PctOk(c.act)
            /\ CASE c.src = "existing" -> CntOk(c.act, supply)
                 [] c.src = "new" -> DOMAIN own # {} /\ CntOk(c.act, supply)
                 \* a factory answers for what it makes
                 [] c.src = "factory" -> TRUE
                 [] OTHER -> FALSE
  IN [ok |-> ok, s |-> s]

Now(s) == AtH(s.hist, s.bal, s.now.h)
Powers(b) == [w \in Users |-> N(b[w])]
Active(s) == IsActive(s.act, N(Sum(Now(s))), Supply(s)) /\ (s.act.k = "pct" => Sum(Now(s)) > 0)
Obs(s) ==
  [now |-> s.now, power |-> Powers(Now(s)), total |-> N(Sum(Now(s))), at |-> [h |-> s.at.h, p |-> Powers(s.at.b), t |-> N(Sum(s.at.b))],
   own |-> s.own, staked |-> [w \in Users |-> Sorted(s.stk[w])], page |-> s.page, act |-> s.act, active |-> Active(s), dur |-> s.dur, claims |-> s.claims,
   hooks |-> s.hooks, log |-> s.log, ord |-> s.ord, daoq |-> "dao", made |-> [vote |-> "dao", nft |-> IF s.src = "new" THEN "dao" ELSE ""], minter |-> IF s.src = "new" THEN "dao" ELSE "minter"]

Waiting(s, w) == { s.claims[w][i].id : i \in DOMAIN s.claims[w] }
Inv(s) ==
  [ \* what is staked or awaits release is in the module (unless the DAO used its power to move it)
    held |-> \A w \in Users : \A id \in s.stk[w] \cup Waiting(s, w) : id \in s.rescued \/ (id \in DOMAIN s.own /\ s.own[id] = "vote"),
    once |-> s.rescued = {} => \A v, w \in Users : (v # w => (s.stk[v] \cup Waiting(s, v)) \cap (s.stk[w] \cup Waiting(s, w)) = {}) /\ s.stk[v] \cap Waiting(s, v) = {}
                                                   /\ Cardinality(Waiting(s, v)) = Len(s.claims[v]),
    count |-> s.rescued = {} => \A w \in Users : s.bal[w] = Cardinality(s.stk[w]),
    \* nothing the module holds is without an owner, but for what was sent to it plainly
    mine |-> \A id \in DOMAIN s.own : s.own[id] = "vote" => id \in s.sent \/ \E w \in Users : id \in s.stk[w] \cup Waiting(s, w),
    durok |-> DurOk(s.dur),
    pctok |-> PctOk(s.act),
    many |-> \A w \in Users : Len(s.claims[w]) <= MaxClaims ]
StepP(x, e, y) ==
  [ past |-> \A h \in Moments(x.hist, x.now.h) : AtH(x.hist, x.bal, h) = AtH(y.hist, y.bal, h),
    stake |-> \A w \in Users : x.stk[w] # y.stk[w] => e.o \in {"stake", "conf", "unstake", "bulk"} /\ e.by = w,
    \* an NFT leaves the module only to the one it belongs to, or by the DAO's hand
    leave |-> \A id \in DOMAIN x.own : (x.own[id] = "vote" /\ (id \notin DOMAIN y.own \/ y.own[id] # "vote")) =>
                 \/ e.o = "cancel" /\ e.by = "dao"
                 \/ e.o \in {"claim", "unstake", "cancel"} /\ y.own[id] = e.by /\ (x.rescued = {} => \A w \in Users \ {e.by} : id \notin x.stk[w] \cup Waiting(x, w)),
    claims |-> \A w \in Users : x.claims[w] # y.claims[w] => e.o \in {"unstake", "claim"} /\ e.by = w,
    early |-> \A w \in Users : \A i \in DOMAIN x.claims[w] : (~Reached(x.now, x.claims[w][i].e)) => x.claims[w][i] \in Range(y.claims[w]),
    thr |-> x.act # y.act => e.o = "thr" /\ e.by = "dao" ]
=============================================================================
