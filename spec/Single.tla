------------------------------- MODULE Single -------------------------------
(* What a single signer has signed, seen from the chain nodes.                *)
(*                                                                            *)
(* The observer's state o:                                                    *)
(*   top   the highest payload signed so far, or what the sign state held     *)
(*         when the history began; its content is "" if that is not known     *)
(* Events:                                                                    *)
(*   reset{mark}       a home directory with this sign state                  *)
(*   start{ok}, kill, stop   the process                                      *)
(*   reinit, rename    the configuration is initialised again, the chain      *)
(*                     renamed (the chain is part of a payload's content)     *)
(*   sign{asked, rel}  requests that were on their way together, and the      *)
(*                     payloads for which valid signatures came back; their   *)
(*                     order is not known                                     *)
EXTENDS HRS, TLC

NewSigner == [top |-> NoPayload]

\* one more signature
May(top, p) == Lt(Hrs(top), Hrs(p)) \/ (Hrs(top) = Hrs(p) /\ top.c = p.c)

Ok_C19(o, e) ==
  e.e = "sign" =>
    LET R == ToSet(e.rel) IN
    /\ \A p \in R : May(o.top, p)
    \* in some order of theirs
    /\ \A p, q \in R : Hrs(p) = Hrs(q) => p.c = q.c

Highest(R) == CHOOSE p \in R : \A q \in R : Leq(Hrs(q), Hrs(p))
Follow(o, e) ==
  CASE e.e = "reset" -> [top |-> e.mark]
    [] e.e = "sign" -> IF e.rel = <<>> THEN o ELSE [o EXCEPT !.top = LET x == Highest(ToSet(e.rel)) IN IF Lt(Hrs(o.top), Hrs(x)) THEN x ELSE @]
    [] OTHER -> o
=============================================================================
