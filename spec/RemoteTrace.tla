---------------------------- MODULE RemoteTrace ----------------------------
(* Checks recorded requests over the network.                                 *)
EXTENDS Remote, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<l>>
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN e.e # "reset" => Ok_C23(e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == /\ PrintT(<<"PROGRESS", TLCGet(1), Len(Trace)>>)
            /\ TLCGet(1) = Len(Trace) + 1
============================================================================
