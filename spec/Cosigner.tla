------------------------------ MODULE Cosigner ------------------------------
(* One cosigner: a key share, a watermark kept in memory and in a file, and   *)
(* the nonces it has dealt, which live in memory only.                        *)
(*                                                                            *)
(* The state g of a cosigner as its users see it:                             *)
(*   max    highest height/round/step it released a share for or learned of   *)
(*   maxC   the content signed there ("" if none)                             *)
(*   rec    the share recorded there: [on, p, share, eph]; on is FALSE when   *)
(*          the entry was learned by notification rather than signed here     *)
(*   non    live nonces by request key: [id, given, opt]                      *)
(*            id    the nonce dealt at the key ("?" if dealt but never shown) *)
(*            given source -> nonce ids it was given at this key              *)
(*   seen   every nonce id ever dealt;  used  nonce ids that shares were made *)
(*          with                                                              *)
(*                                                                            *)
(* An operation e has a name e.e, arguments, and its observed result e.out.   *)
(* Ok_Cxx(g, e) says whether the result is one property Cxx allows in state   *)
(* g; Follow(g, e) is the state afterwards.  Result(g, e) is the result the   *)
(* design gives: MCCosigner checks that the design satisfies every Ok_Cxx,    *)
(* and that any cosigner satisfying them has the global safety properties.    *)
(* CosignerTrace evaluates them on what the real code did.                    *)
EXTENDS HRS

NoRec == [on |-> FALSE, p |-> NoPayload, share |-> "", eph |-> ""]

Start == [max |-> Zero, maxC |-> "", rec |-> NoRec, non |-> Empty, seen |-> {}, used |-> {}]

NonceAt(g, k) == IF k \in DOMAIN g.non THEN g.non[k].id ELSE "?"
GivenAt(g, k) == IF k \in DOMAIN g.non THEN g.non[k].given ELSE {}

AllValid(e) == \A i \in 1..Len(e.parts) : e.parts[i].valid
PartIds(e) == {e.parts[i].id : i \in 1..Len(e.parts)}

\* the parts before the first bad one may have been taken over even if the request failed
Taken(e) == LET bad == {i \in 1..Len(e.parts) : ~e.parts[i].valid}
                lim == IF bad = {} THEN Len(e.parts) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
            IN {e.parts[i].id : i \in 1..lim}

Released(e) == e.e = "sign" /\ e.out = "share"
\* asked for exactly the bytes it recorded a share for
Repeat(g, e) == e.e = "sign" /\ e.wf /\ g.rec.on /\ Hrs(e.p) = g.max /\ SameBytes(e.p, g.rec.p)
IsCached(g, e) == Released(e) /\ Repeat(g, e) /\ e.share = g.rec.share /\ e.eph = g.rec.eph

----------------------------------------------------------------------------
(* What a share was made of.  e.cand lists, for every choice of given parts,  *)
(* the nonce that remains when they are taken out of the nonce key of the     *)
(* share ("none" if nothing remains), and whether the share fits it.          *)
CandOk(g, e, cd) ==
  LET k == Key(e.p)
      gs == ToSet(cd.g)
      mine == NonceAt(g, k)
  IN /\ (IF e.k = k THEN PartIds(e) ELSE {}) \subseteq gs
     /\ gs \subseteq (GivenAt(g, k) \cup (IF e.k = k THEN PartIds(e) ELSE {}))
     /\ cd.own # "none"
     /\ cd.k # "no"
     /\ IF mine = "?" THEN cd.own \notin g.seen ELSE cd.own = mine
     /\ cd.own \notin g.used
FitCands(g, e) == {i \in 1..Len(e.cand) : CandOk(g, e, e.cand[i])}
\* the nonce a released share was made with, "" if it cannot be told
OwnOf(g, e) == LET fit == FitCands(g, e)
               IN IF fit = {} THEN "" ELSE e.cand[CHOOSE i \in fit : TRUE].own

----------------------------------------------------------------------------
(* The result the design gives.  fresh is a nonce id, share/eph ids are       *)
(* derived from what the share is made of.                                    *)
MayStore(g, e) ==
  /\ e.wf /\ AllValid(e)
  /\ ~Lt(Hrs(e.p), g.max)
  /\ Hrs(e.p) = g.max => e.p.c = g.maxC

DesignOut(g, e) ==
  IF Repeat(g, e) /\ AllValid(e) THEN "share"
  ELSE IF MayStore(g, e) /\ (Key(e.p) \in DOMAIN g.non \/ (e.k = Key(e.p) /\ Len(e.parts) > 0))
       THEN "share" ELSE "err"
----------------------------------------------------------------------------
(* C02: never backwards, never different content at one step.                 *)
Ok_C02(g, e) ==
  Released(e) => /\ e.wf
                 /\ ~Lt(Hrs(e.p), g.max)
                 /\ (Hrs(e.p) = g.max => e.p.c = g.maxC)

(* C03: whatever is released is in the file by then, and nothing is released  *)
(* when it cannot be stored.                                                  *)
Covers(f, p) == /\ ~Lt(Hrs(f), Hrs(p))
                /\ (Hrs(f) = Hrs(p) => f.c = p.c)
Ok_C03(g, e) ==
  Released(e) => IF e.store THEN Covers(e.f, e.p)
                 ELSE Hrs(e.p) = g.max /\ e.p.c = g.maxC      \* there is nothing new to store

(* C09: only authentic parts are used, and parts are only for their receiver. *)
Ok_C09(g, e) ==
  /\ Released(e) => AllValid(e)
  /\ e.e = "get" /\ e.out = "ok" => e.private

(* C10: nonces.  The parts handed out are complete: one for everyone else;    *)
(* consistent: any threshold of them gives the nonce, hidden: fewer do not.   *)
Ok_C10(g, e) ==
  /\ e.e = "get" /\ e.out = "ok" =>
       /\ e.complete /\ e.consistent /\ e.hidden
       /\ e.id # "mixed"
       /\ IF NonceAt(g, e.k) = "?" THEN e.id \notin g.seen
          ELSE e.id = NonceAt(g, e.k)
  /\ Released(e) /\ e.wf /\ ~IsCached(g, e) => FitCands(g, e) # {}

(* C22: a repeated request gets the identical share.                          *)
Ok_C22(g, e) ==
  (Repeat(g, e) /\ AllValid(e)) => IsCached(g, e)

(* C21: ill-formed requests never give a share nor crash, and good ones are   *)
(* still served.                                                              *)
Ok_C21(g, e) ==
  /\ e.e \in {"sign", "get", "lss"} => e.out # "panic" \/ (e.e = "sign" /\ ~e.store)
  /\ e.e = "sign" /\ ~e.wf => e.out = "err"
  /\ e.e = "sign" /\ e.wf /\ e.store /\ DesignOut(g, e) = "share" => e.out = "share"

----------------------------------------------------------------------------
Forget(non, p) == Drop(non, {k \in DOMAIN non : Lt(HrsOfKey(k), Hrs(p)) \/ k = Key(p)})

FollowGet(g, e) ==
  IF e.out # "ok" THEN g
  ELSE [g EXCEPT !.non = Put(@, e.k, [id |-> e.id, given |-> GivenAt(g, e.k)]),
                 !.seen = @ \cup {e.id}]

FollowSign(g, e) ==
  LET tk == Taken(e)
      non1 == IF tk = {} THEN g.non
              ELSE Put(g.non, e.k, [id |-> NonceAt(g, e.k), given |-> GivenAt(g, e.k) \cup tk])
  IN IF ~Released(e) \/ ~e.wf \/ IsCached(g, e) THEN [g EXCEPT !.non = non1]
     ELSE LET own == OwnOf(g, e)
              g1 == [g EXCEPT !.non = Forget(non1, e.p),
                              !.seen = @ \cup ({own} \ {""}),
                              !.used = @ \cup ({own} \ {""})]
          IN IF Lt(g.max, Hrs(e.p))
             THEN [g1 EXCEPT !.max = Hrs(e.p), !.maxC = e.p.c,
                             !.rec = [on |-> TRUE, p |-> e.p, share |-> e.share, eph |-> e.eph]]
             ELSE g1

FollowLss(g, e) ==
  IF Lt(g.max, Hrs(e.p))
  THEN [g EXCEPT !.max = Hrs(e.p), !.maxC = e.p.c, !.rec = NoRec]
  ELSE g

Follow(g, e) == CASE e.e = "get" -> FollowGet(g, e)
                  [] e.e = "sign" -> FollowSign(g, e)
                  [] e.e = "lss" -> FollowLss(g, e)
                  [] e.e = "restart" -> [g EXCEPT !.non = Empty]
                  [] OTHER -> g

(* C04: watermarks.  f and m are the watermarks in the file and in memory     *)
(* after the operation, of and om those before; g2 is the state after it.     *)
Succeeded(e) == Released(e) \/ (e.e = "lss")
Ok_C04(g2, e, of, om) ==
  /\ ~Lt(Hrs(e.f), Hrs(of))
  /\ e.e # "restart" => ~Lt(Hrs(e.m), Hrs(om))
  /\ ~Lt(Hrs(e.f), g2.max)
  /\ ~Lt(Hrs(e.m), g2.max)
  /\ Succeeded(e) => Hrs(e.f) = g2.max /\ Hrs(e.m) = g2.max
  /\ e.e = "restart" => e.out = "ok" /\ Hrs(e.m) = Hrs(e.f)
============================================================================
