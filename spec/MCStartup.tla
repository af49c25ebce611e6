----------------------------- MODULE MCStartup -----------------------------
(* The start of a signer step by step, on a home directory in which things    *)
(* break and are repaired.  Bugs are wrong designs that the monitor must      *)
(* notice.                                                                    *)
EXTENDS Startup, Json, TLCExt

CONSTANTS Emit, Bug, Modes

VARIABLES o, d, ev
vars == <<o, d, ev>>

Tau == [e |-> "tau"]
What == {"cfg", "key", "share"}
Fates == {"ok", "missing", "bad"}

\* steps of a start; conn is a connection to a chain node
Steps == IF o.mode = "single" THEN <<"cfg", "key", "conn">>
         ELSE IF Bug = "early" THEN <<"cfg", "key", "conn", "share">>
         ELSE <<"cfg", "key", "share", "conn">>

Idle == [pc |-> 0, out |-> "", dialled |-> FALSE, same |-> TRUE]
Init == /\ \E m \in Modes : o = [NewHome EXCEPT !.mode = m]
        /\ d = Idle
        /\ ev = [e |-> "reset", mode |-> o.mode]

Set(w, f) ==
  /\ d.pc = 0 /\ o[w] # f /\ (w = "share" => o.mode = "cosigner")
  /\ ev' = [e |-> "home", cfg |-> IF w = "cfg" THEN f ELSE o.cfg, key |-> IF w = "key" THEN f ELSE o.key,
            share |-> IF w = "share" THEN f ELSE o.share, what |-> w]
  /\ o' = Follow(o, ev') /\ d' = d
Start == /\ d.pc = 0 /\ d' = [Idle EXCEPT !.pc = 1] /\ ev' = [e |-> "start"] /\ o' = o

\* does this start find what it needs
Finds(w) == \/ o[w] = "ok"
            \/ Bug = "anykey" /\ w = "key" /\ o.key = "bad"
            \/ Bug = "anyshare" /\ w = "share" /\ o.share = "bad"
            \/ Bug = "create" /\ w = "share" /\ o.share = "missing"
            \/ Bug = "nocheck" /\ w = "cfg" /\ o.cfg = "bad"
Refuse(x) == d' = [x EXCEPT !.pc = 9, !.out = IF Bug = "exit0" THEN "zero" ELSE IF Bug = "hang" THEN "hang" ELSE "error"]
Step ==
  /\ d.pc \in 1..5
  /\ ev' = Tau /\ o' = o
  /\ LET s == IF d.pc > Len(Steps) THEN "run" ELSE Steps[d.pc] IN
     CASE s = "run" -> d' = [d EXCEPT !.pc = 9, !.out = "runs"]
       [] s = "conn" -> d' = [d EXCEPT !.pc = @ + 1, !.dialled = TRUE]
       [] s = "share" /\ Bug = "reset" /\ o.share = "bad" -> Refuse([d EXCEPT !.same = FALSE])
       [] ~Finds(s) -> Refuse(d)
       [] s = "share" /\ o.share = "missing" -> d' = [d EXCEPT !.pc = @ + 1, !.same = FALSE]
       [] OTHER -> d' = [d EXCEPT !.pc = @ + 1]
End == /\ d.pc = 9
       /\ ev' = [e |-> "run", exited |-> d.out \in {"zero", "error"}, zero |-> d.out = "zero", dialled |-> d.dialled, same |-> d.same]
       /\ d' = Idle
       /\ o' = IF ~d.same THEN [o EXCEPT !.share = "ok"] ELSE o

Next == Start \/ Step \/ End \/ \E w \in What, f \in Fates : Set(w, f)
Spec == Init /\ [][Next]_vars

MonitorsHold == [][ev'.e = "run" => Ok_C20(o, ev')]_vars
\* with everything in place it does run
Runs == [][(ev'.e = "run" /\ ~Lacks(o)) => ev'.dialled /\ ~ev'.exited]_vars

MView == <<o, d>>
OpOf == CASE ev'.e = "home" -> [op |-> "set", w |-> ev'.what, f |-> ev'[ev'.what]]
          [] ev'.e = "start" -> [op |-> "start"]
          [] OTHER -> [op |-> "tau"]
PrintEdge == Emit => PrintT("EDGE " \o ToJson([s |-> TLCFP(MView), d |-> TLCFP(MView'), o |-> OpOf]))
============================================================================
