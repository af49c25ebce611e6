------------------------------ MODULE WireTrace ------------------------------
(* Checks recorded executions of a real signer process on the network.         *)
EXTENDS Wire, Json, IOUtils

Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Ok_C21(Trace[l])
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == /\ PrintT(<<"PROGRESS", TLCGet(1), Len(Trace)>>)
            /\ TLCGet(1) = Len(Trace) + 1
============================================================================
