-------------------------- MODULE CoordinatorTrace --------------------------
(* Checks recorded executions of real coordinators against Coordinator.tla.   *)
EXTENDS Coordinator, Json, IOUtils

Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, o
vars == <<l, o>>

Ok(x, e) ==
  CASE Prop = "C03" -> Ok_C03(x, e)
    [] Prop = "C04" -> Ok_C04(x, e)
    [] Prop = "C05" -> Ok_C05(x, e)
    [] Prop = "C06" -> Ok_C06(x, e)
    [] Prop = "C07" -> Ok_C07(x, e)
    [] Prop = "C08" -> Ok_C08(x, e)
    [] OTHER -> TRUE

Init == l = 1 /\ o = NewWorld(1, 1)
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               o1 == IF e.e = "reset" THEN o ELSE See(o, e)
               o2 == Follow(o1, e)
           IN /\ (e.e # "reset" => Ok(o1, e))
              /\ (Prop = "C01" => NoConflict(o2))
              /\ o' = o2
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars

Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == /\ PrintT(<<"PROGRESS", TLCGet(1), Len(Trace)>>)
            /\ TLCGet(1) = Len(Trace) + 1
============================================================================
