------------------------------ MODULE MCStore ------------------------------
(* A replicated store built on an agreed order of operations: members apply   *)
(* the operations in that order, forget what is not on disk when they die,    *)
(* and start from their last snapshot.  Operations that were given up for     *)
(* snapshots reach a member that lags as the snapshot of the leader.          *)
(* Bugs are wrong designs that the monitor must notice.                       *)
EXTENDS Store, Json, TLCExt

CONSTANTS N, Keys, MaxWrites, MaxDeaths, MaxSnaps, Free, Emit, Bug

VARIABLES com,    \* the agreed operations, as [k, v]; v is "" for a deletion
          s,      \* member -> [up, held back, applied, contents, snapshot [i, m], operations dropped from its log]
          lead, cnt, o, ev, act
vars == <<com, s, lead, cnt, o, ev, act>>

Ids == 1..N
None == [e |-> "none"]
Empty == [k \in Keys |-> ""]
Up == {n \in Ids : s[n].up}
Quorum == 2 * Cardinality(Up \ {n \in Ids : s[n].held}) > N

Put(m, c) == IF c.k = Event THEN IF Bug = "retain" THEN [k \in Keys |-> IF k = CHOOSE x \in Keys : TRUE THEN c.v ELSE m[k]] ELSE m
             ELSE IF c.v = "" /\ Bug = "nodelete" THEN m ELSE [m EXCEPT ![c.k] = c.v]
RECURSIVE Run(_, _, _)
Run(m, i, j) == IF i > j THEN m ELSE Run(Put(m, com'[i]), i + 1, j)

Init == /\ com = <<>> /\ s = [n \in Ids |-> [up |-> TRUE, held |-> FALSE, ap |-> 0, m |-> Empty, sn |-> [i |-> 0, m |-> Empty], cut |-> 0]]
        /\ lead = 0 /\ act = [op |-> "tau"] /\ cnt = [w |-> 0, d |-> 0, sn |-> 0] /\ o = Blank /\ ev = None
Tell(e) == ev' = e /\ o' = Follow(o, e)
Silent == ev' = None /\ o' = o

Elect(n) == /\ lead = 0 /\ Quorum /\ s[n].up /\ ~s[n].held /\ lead' = n /\ UNCHANGED <<com, s, cnt>> /\ Silent
            /\ cnt.w + cnt.d = 0 => n = 1  \* they are all alike

\* the leader has applied everything when it answers
Write(n, k, del) ==
  LET v == IF del THEN "" ELSE "v" \o ToString(cnt.w + 1)
      E(out, role) == [e |-> "write", n |-> n, op |-> IF del THEN "del" ELSE "set", k |-> k, vs |-> <<v>>, out |-> out, role |-> role, quorum |-> Quorum] IN
  /\ cnt.w < MaxWrites /\ s[n].up /\ ~s[n].held /\ (cnt.w = 0 => k = CHOOSE x \in Keys : TRUE) /\ cnt' = [cnt EXCEPT !.w = @ + 1]
  /\ IF n = lead /\ Quorum
       THEN /\ com' = Append(com, [k |-> k, v |-> v]) /\ UNCHANGED lead
            /\ s' = [s EXCEPT ![n].m = Run(@, s[n].ap + 1, Len(com')), ![n].ap = Len(com')]
            /\ Tell(E("ok", "leader"))
     ELSE IF n = lead
       THEN \* it loses the leadership, and the write may be lost or not
            /\ com' \in {com, Append(com, [k |-> k, v |-> v])} /\ lead' = 0 /\ UNCHANGED s
            /\ Tell(E("error", "unknown"))
     ELSE /\ UNCHANGED <<com, lead>>
          /\ s' = IF Bug = "follower" THEN [s EXCEPT ![n].m = Put(@, [k |-> k, v |-> v])] ELSE s
          /\ Tell(E("error", "follower"))
\* the leader dies while it writes
WriteDie(n, k) == LET v == "v" \o ToString(cnt.w + 1) IN
  /\ cnt.w < MaxWrites /\ cnt.d < MaxDeaths /\ n = lead /\ Quorum /\ s[n].up
  /\ cnt' = [cnt EXCEPT !.w = @ + 1, !.d = @ + 1] /\ lead' = 0
  /\ com' \in {com, Append(com, [k |-> k, v |-> v])}
  /\ s' = [s EXCEPT ![n].up = FALSE, ![n].m = Empty, ![n].ap = 0, ![n].held = FALSE]
  /\ LET w == [e |-> "write", n |-> n, op |-> "set", k |-> k, vs |-> <<v>>, out |-> "none", role |-> "unknown", quorum |-> TRUE] IN
     ev' = w /\ o' = Follow(Follow(o, w), [e |-> "kill", n |-> n])
Announce == /\ cnt.w < MaxWrites /\ lead # 0 /\ Quorum /\ cnt' = [cnt EXCEPT !.w = @ + 1]
            /\ com' = Append(com, [k |-> Event, v |-> "lss"]) /\ UNCHANGED lead
            /\ s' = [s EXCEPT ![lead].m = Run(@, s[lead].ap + 1, Len(com')), ![lead].ap = Len(com')]
            /\ Tell([e |-> "write", n |-> lead, op |-> "set", k |-> Event, vs |-> <<"lss">>, out |-> "ok", role |-> "leader", quorum |-> TRUE])
Apply(n) == /\ s[n].up /\ ~s[n].held /\ lead \notin {0, n} /\ s[n].ap < Len(com)
            /\ IF s[n].ap < s[lead].cut
                 THEN LET sn == s[lead].sn
                          m == IF Bug = "merge" THEN [k \in Keys |-> IF sn.m[k] = "" THEN s[n].m[k] ELSE sn.m[k]]
                               ELSE IF Bug = "keep" /\ sn.m = Empty THEN s[n].m ELSE sn.m IN
                      s' = [s EXCEPT ![n].m = m, ![n].ap = sn.i, ![n].sn = [i |-> sn.i, m |-> m], ![n].cut = sn.i]
                 ELSE s' = [s EXCEPT ![n].m = Put(@, com[s[n].ap + 1]), ![n].ap = @ + 1]
            /\ UNCHANGED <<com, lead, cnt>> /\ Silent
Get(n, k) == /\ s[n].up /\ ~s[n].held /\ UNCHANGED <<com, s, lead, cnt>>
             /\ Tell([e |-> "get", n |-> n, k |-> k, v |-> IF k = Event THEN "" ELSE s[n].m[k]])
Kill(n) == /\ cnt.d < MaxDeaths /\ s[n].up /\ cnt' = [cnt EXCEPT !.d = @ + 1]
           /\ s' = [s EXCEPT ![n].up = FALSE, ![n].m = Empty, ![n].ap = 0, ![n].held = FALSE]
           /\ lead' = IF lead = n THEN 0 ELSE lead
           /\ UNCHANGED com /\ Tell([e |-> "kill", n |-> n])
Start(n) == /\ ~s[n].up
            /\ s' = [s EXCEPT ![n].up = TRUE, ![n].m = s[n].sn.m, ![n].ap = IF Bug = "skip" THEN Len(com) ELSE s[n].sn.i]
            /\ UNCHANGED <<com, lead, cnt>> /\ Tell([e |-> "start", n |-> n, ok |-> TRUE])
Hold(n) == /\ s[n].up /\ ~s[n].held /\ cnt.d < MaxDeaths /\ cnt' = [cnt EXCEPT !.d = @ + 1]
           /\ lead' = IF lead = n THEN 0 ELSE lead
           /\ s' = [s EXCEPT ![n].held = TRUE] /\ UNCHANGED com /\ Silent
Release(n) == /\ s[n].held /\ s' = [s EXCEPT ![n].held = FALSE] /\ UNCHANGED <<com, lead, cnt>> /\ Silent
\* a snapshot replaces the operations before it
Snap(n, much) == /\ s[n].up /\ ~s[n].held /\ cnt.sn < MaxSnaps /\ s[n].ap > s[n].sn.i /\ cnt' = [cnt EXCEPT !.sn = @ + 1]
                 /\ LET i == IF Bug = "ahead" THEN Len(com) ELSE s[n].ap
                        m == IF Bug = "emptysnap" THEN Empty ELSE s[n].m IN s' = [s EXCEPT ![n].sn = [i |-> i, m |-> m], ![n].cut = IF much THEN i ELSE @]
                 /\ much => n = lead
                 /\ UNCHANGED <<com, lead>> /\ Silent
Settle == /\ lead # 0 /\ Quorum /\ \A n \in Up : ~s[n].held /\ s[n].ap = Len(com)
          /\ ev.e # "settled"
          /\ LET RECURSIVE Held(_)
                 Held(n) == IF n > N THEN <<>> ELSE (IF s[n].up THEN <<[n |-> n, m |-> s[n].m]>> ELSE <<>>) \o Held(n + 1)
             IN Tell([e |-> "settled", ok |-> TRUE, held |-> Held(1)])
          /\ UNCHANGED <<com, s, lead, cnt>>

\* what is asked for, and of which kind of member: one that leads, follows, is down, or is held back
Role(n) == IF ~s[n].up THEN "D" ELSE IF s[n].held THEN "P" ELSE IF n = lead THEN "L" ELSE "F"
Ask(op, n, k) == act' = [op |-> op, at |-> Role(n), i |-> Cardinality({x \in 1..(n - 1) : Role(x) = Role(n)}), k |-> k]
Tau == act' = [op |-> "tau"]

Next ==
  \/ \E n \in Ids :
       \/ Elect(n) /\ Tau
       \/ Apply(n) /\ Tau
       \/ Kill(n) /\ Ask("kill", n, "")
       \/ Start(n) /\ Ask("start", n, "")
       \/ Hold(n) /\ Ask("pause", n, "")
       \/ Release(n) /\ Ask("cont", n, "")
       \/ Snap(n, TRUE) /\ Ask("bulksnap", n, "")
       \/ Snap(n, FALSE) /\ Ask("snap", n, "")
  \/ \E n \in Ids, k \in Keys :
       \/ Write(n, k, TRUE) /\ Ask("del", n, k)
       \/ Write(n, k, FALSE) /\ Ask("set", n, k)
       \/ WriteDie(n, k) /\ Ask("setkill", n, k)
       \/ Free /\ Get(n, k) /\ Ask("get", n, k)
  \/ Announce /\ Ask("lss", lead, "")
  \/ Settle /\ Ask("settle", lead, "")
Spec == Init /\ [][Next]_vars

MonitorsHold == [][Ok_C12(o, ev')]_vars
\* what has been agreed on is what is held
Agreed == \A n \in Ids : s[n].up /\ Bug = "" => s[n].ap <= Len(com)
MView == <<com, s, lead, cnt, o>>
\* what the system itself is like
SView == <<com, s, lead, cnt>>
PrintEdge == Emit => PrintT("EDGE " \o ToJson([s |-> TLCFP(SView), d |-> TLCFP(SView'), o |-> act']))
============================================================================
