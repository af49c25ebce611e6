------------------------------- MODULE MCWire -------------------------------
(* How a signer's process takes messages off the network: decode, check, one   *)
(* lock, watermark, signing; and how it takes the answers of another cosigner. *)
(* Bugs are wrong ways the monitor must notice.                                *)
EXTENDS Wire, Json, TLCExt

CONSTANTS Emit, Bug
VARIABLES d, ev
vars == <<d, ev>>

\* heights matter only in how they lie to the next one that is asked for: a watermark may have been taken beyond it
Init == /\ d = [alive |-> TRUE, begun |-> FALSE, stored |-> FALSE, lock |-> FALSE, prev |-> <<"good", "", "">>]
        /\ ev = [e |-> "tau"]

\* a claim that the content of the message does not bear out
Claims(what, how) == what \in {"sign", "share"} /\ how \notin {"nothing", "junk"}

Handle(what, how) ==
  /\ d.alive
  /\ LET dies == (Bug = "nil" /\ how \in {"noblock", "nohrst", "emptypart"}) \/ (Bug = "length" /\ how = "nobytes")
         serves == (Bug = "serve" /\ Claims(what, how) /\ how \in {"height", "time"}) \/ MayServe(what, how)
         begins == Bug = "burn" /\ what = "sign" /\ Claims(what, how)
         stores == Bug = "early" /\ what = "share" /\ Claims(what, how)
     IN IF dies THEN d' = [d EXCEPT !.alive = FALSE, !.prev = <<"msg", what, how>>] /\ ev' = [e |-> "crash"]
        ELSE /\ d' = [d EXCEPT !.prev = <<"msg", what, how>>, !.begun = @ \/ begins, !.stored = @ \/ stores,
                               !.lock = @ \/ (Bug = "stuck" /\ what = "share" /\ how = "badpart")]
             /\ ev' = [e |-> "msg", what |-> what, how |-> how, out |-> IF serves THEN "ok" ELSE "err", moved |-> stores]

\* a block that has not been asked for yet: it is signed if nothing is in the way
Fresh(e, what, how, fails) ==
  LET ok == ~d.lock /\ ~d.begun /\ ~d.stored /\ ~fails
  IN /\ d.alive
     /\ ev' = [e |-> e, what |-> what, how |-> how, out |-> IF ok THEN "ok" ELSE "err", valid |-> ok /\ ~(Bug = "unverified" /\ e = "own")]
     /\ d' = [d EXCEPT !.prev = <<e, what, how>>, !.lock = @ \/ (Bug = "wait" /\ e = "own" /\ what = "share")]

Good == Fresh("good", "", "", FALSE)
Own(what, how) ==
  IF Bug = "answer" /\ how = "shortsig"
  THEN d.alive /\ d' = [d EXCEPT !.alive = FALSE] /\ ev' = [e |-> "crash"]
  ELSE Fresh("own", what, how, Bug # "unverified")

Next == \/ \E what \in Calls : \E how \in HowsOf(what) : Handle(what, how)
        \/ \E what \in Asked : \E how \in AnswersOf(what) : Own(what, how)
        \/ Good
MView == d
PrintEdge == Emit => PrintT("EDGE " \o ToJson([s |-> TLCFP(d), d |-> TLCFP(d'), o |-> d'.prev]))
Spec == Init /\ [][Next]_vars
MonitorsHold == [][ev'.e # "tau" => Ok_C21(ev')]_vars
=============================================================================
