----------------------------- MODULE StateTrace ----------------------------
(* Checks recorded storms of saves *)
EXTENDS State, TLC, Json, IOUtils

Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, o
vars == <<l, o>>
Init == l = 1 /\ o = Blank
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN (e.e # "reset" => Ok_C04(o, e)) /\ o' = Follow(o, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted_ == /\ PrintT(<<"PROGRESS", TLCGet(1), Len(Trace)>>)
             /\ TLCGet(1) = Len(Trace) + 1
============================================================================
