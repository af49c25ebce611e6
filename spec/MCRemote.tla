------------------------------ MODULE MCRemote ------------------------------
(* A client, a network that loses and delays, and a cosigner that answers or  *)
(* refuses.  Several requests may be on their way.                            *)
EXTENDS Remote, FiniteSets, Json, TLCExt

CONSTANTS Clients, Vals, MaxAsks, Emit, Bug

\* a request is [op, k, x]: what is asked, its key and its contents
VARIABLES c,     \* client -> [st, sent, came, gave, net, fate]
          last,  \* what the cosigner said last
          asks, ev
vars == <<c, last, asks, ev>>

Idle == [st |-> "idle", sent |-> [op |-> "", k |-> 0, x |-> 0], wire |-> [op |-> "", k |-> 0, x |-> 0], came |-> <<>>, gave |-> "none", back |-> "none", fate |-> ""]
None == [e |-> "none"]

Init == c = [i \in Clients |-> Idle] /\ last = "none" /\ asks = 0 /\ ev = None

Wire(q) == CASE Bug = "losekey" -> [q EXCEPT !.k = 0]
             [] Bug = "losebytes" -> [q EXCEPT !.x = 0]
             [] Bug = "otherop" -> [q EXCEPT !.op = IF @ = "get" THEN "sign" ELSE "get"]
             [] OTHER -> q
Answer(q) == ToString(<<q.op, q.k, q.x>>)

Ask(i) == /\ c[i].st = "idle" /\ asks < MaxAsks /\ asks' = asks + 1
          /\ \E op \in {"get", "sign"}, k, x \in Vals, f \in {"ok", "refuse", "hang", "late", "down"} :
               LET q == [op |-> op, k |-> k, x |-> x] IN
               c' = [c EXCEPT ![i] = [Idle EXCEPT !.st = "sent", !.sent = q, !.wire = Wire(q), !.fate = f]]
          /\ UNCHANGED last /\ ev' = None
\* the request gets there
Arrive(i) == /\ c[i].st = "sent" /\ c[i].fate # "down"
             /\ c' = [c EXCEPT ![i].st = "there", ![i].came = <<c[i].wire>>]
             /\ UNCHANGED <<last, asks>> /\ ev' = None
Serve(i) == /\ c[i].st = "there" /\ c[i].fate # "hang"
            /\ LET a == IF c[i].fate = "refuse" THEN "error" ELSE Answer(c[i].wire) IN
               /\ c' = [c EXCEPT ![i].st = "served", ![i].gave = a, ![i].back = IF Bug = "stale" /\ last # "none" THEN last ELSE a]
               /\ last' = a
            /\ UNCHANGED asks /\ ev' = None
Tell(i, got) == /\ ev' = [e |-> "ask", fate |-> c[i].fate, reached |-> c[i].fate # "down", sent |-> c[i].sent, came |-> c[i].came, gave |-> c[i].gave, got |-> got, ms |-> 1]
                /\ c' = [c EXCEPT ![i] = Idle] /\ UNCHANGED <<last, asks>>
\* the reply gets back
Reply(i) == /\ c[i].st = "served" /\ c[i].fate # "late"
            /\ Tell(i, IF c[i].back = "error" /\ Bug = "noerr" THEN "" ELSE c[i].back)
\* no reply in time
Expire(i) == /\ c[i].st \in {"sent", "there", "served"} /\ c[i].fate \in {"hang", "late", "down"}
             /\ Tell(i, IF Bug = "emptyok" THEN "" ELSE "error")
Next == \E i \in Clients : Ask(i) \/ Arrive(i) \/ Serve(i) \/ Reply(i) \/ Expire(i)
Spec == Init /\ [][Next]_vars

MonitorsHold == [][Ok_C23(ev')]_vars
\* every fate with every operation is reached
MView == <<c, last, asks>>
Others == Cardinality({j \in Clients : c[j].st # "idle"}) - 1
PrintEdge == Emit /\ ev'.e = "ask" =>
  PrintT("EDGE " \o ToJson([s |-> 0, d |-> 0, o |-> [op |-> ev'.sent.op, fate |-> ev'.fate, with |-> Others, k |-> ev'.sent.k, x |-> ev'.sent.x]]))
============================================================================
