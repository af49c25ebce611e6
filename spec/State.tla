-------------------------------- MODULE State ------------------------------
(* One sign state that several threads save to at the same time: the saved   *)
(* height/round/step only goes up, whatever the order in which they come.    *)
(*                                                                           *)
(* Events (k is <<height, round, step>>):                                    *)
(*   reset{kind}          a fresh sign state, at zero                        *)
(*   storm{ops, file}     the saves that were made at once, each as          *)
(*                        [k, ok], all of them done; file: what the state    *)
(*                        file holds then, <<-1,0,0>> if it is not complete, *)
(*                        <<>> if there is none                              *)
(*   seen{k}              the state file was read meanwhile                  *)
(*   load{k, file}        the state was read from its file again             *)
EXTENDS HRS

Blank == [top |-> Zero, lo |-> Zero]

Accepted(e) == {i \in 1..Len(e.ops) : e.ops[i].ok}
Highest(o, e) == LET S == {e.ops[i].k : i \in 1..Len(e.ops)} \cup {o.top} IN CHOOSE x \in S : \A y \in S : Leq(y, x)

\* as if they had been made in some order, each accepted one above all that were accepted before it
InSomeOrder(o, e) ==
  /\ \A i \in Accepted(e) : Lt(o.top, e.ops[i].k)
  /\ \A i, j \in Accepted(e) : e.ops[i].k = e.ops[j].k => i = j
  /\ Highest(o, e) # o.top => \E i \in Accepted(e) : e.ops[i].k = Highest(o, e)

Ok_C04(o, e) ==
  CASE e.e = "storm" -> InSomeOrder(o, e) /\ (e.file # <<>> => e.file = Highest(o, e))
    [] e.e = "seen" -> Leq(o.lo, e.k)
    [] e.e = "load" -> e.k = o.top
    [] OTHER -> TRUE

Follow(o, e) ==
  CASE e.e = "storm" -> [o EXCEPT !.top = Highest(o, e), !.lo = Highest(o, e)]
    [] e.e = "seen" -> [o EXCEPT !.lo = IF Leq(@, e.k) THEN e.k ELSE @]
    [] e.e = "reset" -> Blank
    [] OTHER -> o
============================================================================
