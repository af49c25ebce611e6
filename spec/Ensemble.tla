------------------------------ MODULE Ensemble -----------------------------
(* A cluster of members as its users and its operator see it: any member can  *)
(* be asked for signatures, members stop and return, leadership moves.        *)
(*                                                                            *)
(* Events:                                                                    *)
(*   reset{n, t}                                                              *)
(*   req{n, p, out, sig, valid, calm, level, up, lead}  member n was asked to *)
(*        sign payload p.  out: "sig", "error", or "none" (no answer); sig    *)
(*        names the signature, valid: it is one over p or, for a proposal,    *)
(*        over p as last signed; calm: one member was leader throughout and   *)
(*        no member stopped or started; level: all that were up had applied   *)
(*        the same operations before; up: how many were up; lead: the leader, *)
(*        by: the members that could have begun to sign it, then or later;    *)
(*        kept: the leader was leader until it answered                       *)
(*   rounds{n}        member n began a signing round though another one was   *)
(*                    leader throughout, or though it did not lead and most   *)
(*                    members were down                                       *)
(*   seen{n, pv, sh}  what the two state files of n hold once members had     *)
(*                    time to learn of what was signed, as payloads           *)
(*   probe{n, p, out} n was asked for a share over p with all that takes      *)
(*   transfer{to, before, after, calm}  member before was asked to hand over  *)
(*                    to member to, which is up; after leads then             *)
(*   moved{before, after, calm}  the same, without a name                     *)
(*   recovered{ok, up}  there was a leader in time after members stopped      *)
(*   held{n, answered, up}  a member that passed a request on to a leader     *)
(*                    which was held then came back with an answer, if only   *)
(*                    an error, though the leader is still held               *)
(*   kill{n}, start{n, ok}, pause{n}, cont{n}                                 *)
EXTENDS HRS, TLC

Members == 1..9
Blank == [n |-> 0, t |-> 0, sigs |-> {}, max |-> NoPayload, tried |-> Zero, asked |-> {},
          begun |-> [n \in Members |-> Zero], known |-> [n \in Members |-> NoPayload]]
Need(o) == LET m == o.n \div 2 + 1 IN IF o.t > m THEN o.t ELSE m

At(o, h) == {x \in o.sigs : Hrs(x.p) = h}
Consistent(o, e) == \A x \in At(o, Hrs(e.p)) : SameContent(x.p, e.p) \/ x.sig = e.sig
\* it goes beyond all that was asked for, or is the same again and was not begun by the leader
New(o, e) == Lt(o.tried, Hrs(e.p)) \/ (/\ o.tried = Hrs(e.p) /\ Lt(o.begun[e.lead], Hrs(e.p))
                                      /\ \A x \in o.asked : SameContent(x, e.p))
Later(a, b) == IF Lt(Hrs(a), Hrs(b)) THEN b ELSE a

Ok_C13(o, e) ==
  CASE e.e = "req" ->
         /\ e.out = "sig" => e.valid /\ Consistent(o, e)
         /\ e.calm /\ e.up >= Need(o) /\ New(o, e) => e.out = "sig"
         /\ e.calm /\ e.level /\ e.up >= Need(o) /\ e.p = o.max /\ o.tried = Hrs(e.p)
              => e.out = "sig" /\ \E x \in At(o, Hrs(e.p)) : x.sig = e.sig
    [] e.e = "rounds" -> FALSE
    [] e.e = "transfer" -> e.calm => e.after = e.to
    [] e.e = "moved" -> e.calm => e.after # 0
    [] e.e = "recovered" -> e.up >= Need(o) => e.ok
    \* or its chain node waits, and asks nothing else
    [] e.e = "held" -> e.up >= Need(o) => e.answered
    [] OTHER -> TRUE

\* a state file tells of what was signed
Reached(o, x) == /\ Leq(Hrs(o.max), Hrs(x))
                 /\ Hrs(x) = Hrs(o.max) /\ o.max.h > 0 => \E y \in At(o, Hrs(x)) : SameContent(y.p, x)
Refuses(k, p) == Lt(Hrs(p), Hrs(k)) \/ (Hrs(p) = Hrs(k) /\ ~SameContent(p, k))
Ok_C11(o, e) ==
  CASE e.e = "seen" -> Reached(o, e.pv) /\ Reached(o, e.sh)
    [] e.e = "probe" -> Refuses(o.known[e.n], e.p) => e.out # "share"
    [] e.e = "req" -> \* once all know of it, it is not signed again
         /\ e.calm /\ e.level /\ e.up >= Need(o) /\ e.p = o.max /\ o.tried = Hrs(e.p)
              => e.out = "sig" /\ \E x \in At(o, Hrs(e.p)) : x.sig = e.sig
         /\ e.out = "sig" => Consistent(o, e)
    [] OTHER -> TRUE

Tried(o, p) == [o EXCEPT !.tried = Max(@, Hrs(p)),
                         !.asked = IF Lt(Hrs(p), o.tried) THEN @ ELSE IF Hrs(p) = o.tried THEN @ \cup {p} ELSE {p}]
Begun(o, e) == [n \in Members |-> IF \E i \in 1..Len(e.by) : e.by[i] = n THEN Max(o.begun[n], Hrs(e.p)) ELSE o.begun[n]]
Follow(o, e) ==
  CASE e.e = "reset" -> [Blank EXCEPT !.n = e.n, !.t = e.t]
    [] e.e = "req" -> [Tried(o, e.p) EXCEPT !.sigs = IF e.out = "sig" /\ e.valid THEN @ \cup {[p |-> e.p, sig |-> e.sig]} ELSE @,
                                !.max = IF e.out = "sig" /\ e.kept THEN Later(@, e.p) ELSE @,
                                !.begun = Begun(o, e)]
    [] e.e = "probe" -> Tried(o, e.p)
    [] e.e = "seen" -> IF Reached(o, e.sh) THEN [o EXCEPT !.known[e.n] = IF Hrs(o.max) = Hrs(e.sh) THEN o.max ELSE @] ELSE o
    [] OTHER -> o
============================================================================
