------------------------------ MODULE Startup ------------------------------
(* Starting a signer on a home directory that may lack something.             *)
(*                                                                            *)
(* The observer's state o:                                                    *)
(*   mode             "cosigner" or "single"                                  *)
(*   cfg, key, share  "ok", "missing" or "bad" (there, but of no use)         *)
(* Events:                                                                    *)
(*   reset{mode}      an empty home directory                                 *)
(*   home{cfg, key, share}   what is in it now                                *)
(*   run{exited, zero, dialled, same}  a signer was started: whether it       *)
(*        exited by itself, with success, connected to a chain node before,   *)
(*        and whether the share states on disk are as they were               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NewHome == [mode |-> "cosigner", cfg |-> "missing", key |-> "missing", share |-> "missing"]

Lacks(o) == \/ o.cfg # "ok"
            \/ o.key # "ok"
            \/ o.mode = "cosigner" /\ o.share # "ok"

Ok_C20(o, e) ==
  (e.e = "run" /\ Lacks(o)) => e.exited /\ ~e.zero /\ ~e.dialled /\ e.same

Follow(o, e) ==
  CASE e.e = "reset" -> [NewHome EXCEPT !.mode = e.mode]
    [] e.e = "home" -> [o EXCEPT !.cfg = e.cfg, !.key = e.key, !.share = e.share]
    [] OTHER -> o
============================================================================
