------------------------------- MODULE Remote -------------------------------
(* A cosigner reached over the network.                                       *)
(*                                                                            *)
(* Events:                                                                    *)
(*   ask{fate, reached, sent, came, gave, got, ms}                            *)
(*        a request was made.  sent is what the caller asked, came the        *)
(*        requests the cosigner got for it, gave what the cosigner answered   *)
(*        ("none" if it has not, "error" if it refused), got what the caller  *)
(*        was told ("error" if it failed), ms how long that took, reached     *)
(*        whether there was a cosigner at the other end                       *)
(*   pair{remote, direct}  the same was asked over the network and directly   *)
(* A refusal keeps its meaning, not its text.                                 *)
EXTENDS Integers, Sequences, TLC

Patience == 20000

Ok_C23(e) ==
  CASE e.e = "ask" ->
         /\ \A i \in 1..Len(e.came) : e.came[i] = e.sent
         \* told what the cosigner said, nothing else
         /\ e.got \notin {"error"} => e.reached /\ e.came # <<>> /\ e.gave \notin {"none", "error"} /\ e.got = e.gave
         \* and told if the cosigner said it in time
         /\ e.fate = "ok" => e.got # "error" /\ e.gave # "none"
         /\ e.ms <= Patience
    [] e.e = "pair" -> e.remote = e.direct
    \* of what differs in the request, the answers differ
    [] e.e = "apart" -> e.one # e.other
    [] OTHER -> TRUE
============================================================================
