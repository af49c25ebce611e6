---------------------------- MODULE SingleTrace ----------------------------
(* Checks recorded histories of single signers.      *)
EXTENDS Single, Json, IOUtils

Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, o
vars == <<l, o>>
Ok(x, e) == CASE Prop = "C19" -> Ok_C19(x, e)
              [] OTHER -> FALSE
Init == l = 1 /\ o = NewSigner
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN (e.e # "reset" => Ok(o, e)) /\ o' = Follow(o, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == /\ PrintT(<<"PROGRESS", TLCGet(1), Len(Trace)>>)
            /\ TLCGet(1) = Len(Trace) + 1
============================================================================
