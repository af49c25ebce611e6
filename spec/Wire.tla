-------------------------------- MODULE Wire --------------------------------
(* A signer's process on the network of the cosigners: what others send it,   *)
(* and what they answer when it asks them, however malformed.                 *)
(*                                                                            *)
(* Events:                                                                    *)
(*   msg{what, how, out, moved}   another process called `what`, malformed    *)
(*        as `how` says; out is ok or err; moved: a watermark in the files is *)
(*        another one now                                                     *)
(*   own{what, how, out, valid}   the signer was asked for a fresh block, and *)
(*        the other cosigner's answers to `what` are malformed as `how` says  *)
(*   good{out, valid}   it was asked for a fresh block, all others behave     *)
(*   crash              the process crashed                                   *)
EXTENDS Naturals, Sequences, TLC

\* what can be wrong with a message or an answer
Calls == {"sign", "share", "get", "transfer", "unknown"}
HowsOf(what) ==
  CASE what = "sign" -> {"nothing", "noblock", "nobytes", "badbytes", "height", "round", "step", "time", "zero", "junk"}
    [] what = "share" -> {"nothing", "nohrst", "nobytes", "badbytes", "emptypart", "badpart", "manyparts", "junk"}
    [] what = "get" -> {"nothing", "oddhrst", "junk"}
    [] what = "transfer" -> {"nothing", "odd", "junk"}
    [] OTHER -> {"nothing", "junk"}
Asked == {"get", "share"}
AnswersOf(what) ==
  CASE what = "get" -> {"nothing", "emptypart", "badpart", "noids", "manyparts", "junk"}
    [] OTHER -> {"nothing", "nosig", "shortsig", "longsig", "badsig", "badpublic", "junk"}

\* a key or a name that is odd may be taken as it is; all else is no request that could be granted
MayServe(what, how) == what \in {"get", "transfer"} /\ how # "junk"

Ok_C21(e) ==
  CASE e.e = "msg" -> /\ e.out = "err" \/ (e.out = "ok" /\ MayServe(e.what, e.how))
                      /\ ~e.moved
    [] e.e = "own" -> e.out = "ok" => e.valid
    [] e.e = "good" -> e.out = "ok" /\ e.valid
    [] e.e = "crash" -> FALSE
    [] OTHER -> TRUE
=============================================================================
