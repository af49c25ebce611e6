---------------------------- MODULE SessionTrace ----------------------------
(* Checks recorded executions of real connections and guards.                 *)
EXTENDS Session, Json, IOUtils

Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, o
vars == <<l, o>>
Ok(x, e) == CASE Prop = "C14" -> Ok_C14(x, e)
              [] Prop = "C15" -> Ok_C15(x, e)
              [] Prop = "C21" -> Ok_C21(x, e)
              [] OTHER -> FALSE
Init == l = 1 /\ o = NewWorld
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN (e.e # "reset" => Ok(o, e)) /\ o' = Follow(o, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == /\ PrintT(<<"PROGRESS", TLCGet(1), Len(Trace)>>)
            /\ TLCGet(1) = Len(Trace) + 1
============================================================================
