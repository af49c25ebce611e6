------------------------------- MODULE MCState -----------------------------
(* Threads that each save one height to a sign state, step by step: compare  *)
(* with what is held, then change memory and write the file.  All of it is   *)
(* done under one lock.  Bugs: the lock is let go between comparing and      *)
(* changing (gap), equal ones are accepted (equal), the file is written      *)
(* after the lock was let go (late), nothing is compared (blind).            *)
EXTENDS State

CONSTANTS Threads, Heights, Storms, Bug
VARIABLES pc, want, mem, file, lock, round, o, ev
vars == <<pc, want, mem, file, lock, round, o, ev>>

K(h) == <<h, 0, 1>>
None == [e |-> "none"]
Fits(k, m) == IF Bug = "equal" THEN Leq(m, k) ELSE Bug = "blind" \/ Lt(m, k)

Init == /\ pc = [t \in Threads |-> "start"] /\ want \in [Threads -> Heights] /\ mem = Zero /\ file = Zero /\ lock = 0 /\ round = 1
        /\ o = Blank /\ ev = None
Quiet == ev' = None /\ o' = o
Same == UNCHANGED <<want, round>> /\ Quiet

Compare(t) == /\ pc[t] = "start" /\ lock = 0 /\ UNCHANGED <<mem, file>> /\ Same
              /\ IF ~Fits(K(want[t]), mem) THEN pc' = [pc EXCEPT ![t] = "refused"] /\ UNCHANGED lock
                 ELSE pc' = [pc EXCEPT ![t] = "change"] /\ lock' = IF Bug = "gap" THEN 0 ELSE t
Change(t) == /\ pc[t] = "change" /\ (lock = t \/ (Bug = "gap" /\ lock = 0)) /\ mem' = K(want[t]) /\ pc' = [pc EXCEPT ![t] = "write"]
             /\ lock' = IF Bug = "late" THEN 0 ELSE t
             /\ UNCHANGED file /\ Same
Write(t) == /\ pc[t] = "write" /\ file' = K(want[t]) /\ pc' = [pc EXCEPT ![t] = "stored"] /\ lock' = IF lock = t THEN 0 ELSE lock
            /\ UNCHANGED <<mem, want, round>>
            \* somebody reads the file now
            /\ ev' = [e |-> "seen", k |-> file'] /\ o' = Follow(o, ev')
Done == /\ \A t \in Threads : pc[t] \in {"refused", "stored"} /\ UNCHANGED <<mem, file, lock>>
        /\ round < Storms /\ round' = round + 1 /\ want' \in [Threads -> Heights] /\ pc' = [t \in Threads |-> "start"]
        /\ LET n == Cardinality(Threads)
               f == CHOOSE x \in [1..n -> Threads] : \A i, j \in 1..n : x[i] = x[j] => i = j
           IN ev' = [e |-> "storm", ops |-> [i \in 1..n |-> [k |-> K(want[f[i]]), ok |-> pc[f[i]] = "stored"]], file |-> file]
        /\ o' = Follow(o, ev')
Next == Done \/ \E t \in Threads : Compare(t) \/ Change(t) \/ Write(t)
Spec == Init /\ [][Next]_vars

MonitorsHold == [][Ok_C04(o, ev')]_vars
NeverDown == [][Leq(mem, mem') /\ Leq(file, file')]_vars
============================================================================
