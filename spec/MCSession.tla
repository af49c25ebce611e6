----------------------------- MODULE MCSession -----------------------------
(* The signer's side of its connections, step by step: one loop per           *)
(* connection, one guard, one validator.  Bugs are wrong designs that the     *)
(* monitors must notice.                                                      *)
EXTENDS Session, Json, TLCExt

CONSTANTS Conns, Kinds,
          MaxSends, MaxDowns,
          Direct,      \* connections that are direct callers of the guard: they do not break
          Emit, Bug

VARIABLES o, d, n, ev
vars == <<o, d, n, ev>>

Tau == [e |-> "tau"]
P(i) == "p" \o ToString(i)

Init == /\ o = [NewWorld EXCEPT !.up = Conns]
        /\ d = [box |-> [c \in Conns |-> <<>>],   \* requests on their way
                at |-> [c \in Conns |-> "read"],  \* where the loop is
                cur |-> [c \in Conns |-> <<>>],   \* its request
                res |-> [c \in Conns |-> <<>>],   \* its result
                ep |-> [c \in Conns |-> 0],       \* which connection it is the loop thinks it has
                link |-> [c \in Conns |-> 0],     \* which connection there is
                lock |-> FALSE, last |-> <<>>]
        /\ n = [sends |-> 0, downs |-> 0]
        /\ ev = Tau

Event(e, x) == ev' = e /\ o' = Follow(o, e) /\ d' = x /\ UNCHANGED n
Tell(x) == ev' = Tau /\ o' = o /\ d' = x /\ UNCHANGED n

\* a request: the payload of a call is unique; bad ones are refused before they reach the guard
Send(c, k, bad) ==
  /\ c \in o.up /\ n.sends < MaxSends /\ n' = [n EXCEPT !.sends = @ + 1]
  /\ bad => k \in {"vote", "proposal"}
  /\ Direct => d.box[c] = <<>> /\ d.at[c] = "read" /\ k \in Calls /\ ~bad
  /\ LET p == P(n.sends)
         e == [e |-> "send", n |-> c, k |-> k, p |-> p, bad |-> bad, fresh |-> FALSE]
     IN ev' = e /\ o' = Follow(o, e) /\ d' = [d EXCEPT !.box[c] = Append(@, [k |-> k, p |-> p, bad |-> bad])]

\* the other end breaks the connection, and is there again
Down(c) ==
  /\ ~Direct /\ n.downs < MaxDowns /\ n' = [n EXCEPT !.downs = @ + 1]
  /\ ev' = [e |-> "gone", n |-> c]
  /\ o' = Follow(o, ev')
  /\ d' = [d EXCEPT !.box[c] = <<>>, !.link[c] = @ + 1]
Up(c) == /\ c \notin o.up /\ d.ep[c] = d.link[c]
         /\ Event([e |-> "up", n |-> c], d)

\* the loop
Dead(c) == d.ep[c] # d.link[c]
Redial(c) == /\ d.at[c] = "read" /\ Dead(c)
             /\ Tell([d EXCEPT !.ep[c] = d.link[c]])
Read(c) ==
  /\ d.at[c] = "read" /\ ~Dead(c) /\ c \in o.up /\ d.box[c] # <<>>
  /\ LET r == Head(d.box[c]) IN
     Tell([d EXCEPT !.box[c] = Tail(@), !.cur[c] = r,
                    !.at[c] = IF r.k = "ping" \/ (r.bad /\ Bug # "nocheck") THEN "reply" ELSE "lock",
                    !.res[c] = [err |-> r.bad, tok |-> ""]])
Lock(c) ==
  /\ d.at[c] = "lock" /\ (~d.lock \/ Bug = "nolock" \/ (Bug = "voteonly" /\ d.cur[c].k # "vote"))
  /\ Event([e |-> "enter", k |-> d.cur[c].k, p |-> d.cur[c].p, chain |-> TRUE], [d EXCEPT !.lock = TRUE, !.at[c] = "in"])
Exit(c, out) ==
  /\ d.at[c] = "in"
  /\ LET r == d.cur[c]
         tok == r.p
         again == Bug = "twice" /\ out = "err" /\ d.res[c].tok = ""
     IN Event([e |-> "exit", k |-> r.k, p |-> r.p, out |-> out, tok |-> tok],
              [d EXCEPT !.lock = (Bug = "keeplock" /\ out = "err"), !.at[c] = IF again THEN "lock" ELSE "reply",
                        !.last = [err |-> (out = "err"), tok |-> tok],
                        !.res[c] = [err |-> (out = "err"), tok |-> tok]])
Reply(c) ==
  /\ d.at[c] = "reply"
  /\ LET r == d.cur[c]
         a == IF Bug = "shared" /\ d.last # <<>> /\ r.k \in Calls THEN d.last ELSE d.res[c]
         x == [d EXCEPT !.at[c] = "read", !.cur[c] = <<>>, !.res[c] = <<>>]
         k == IF Bug = "wrongkind" /\ a.err /\ r.k = "proposal" THEN "vote" ELSE r.k
         e == [e |-> "recv", n |-> c, k |-> k, p |-> IF a.err THEN "" ELSE r.p, err |-> a.err,
               sig |-> ((~a.err /\ r.k \in {"vote", "proposal"}) \/ (Bug = "sigonerr" /\ a.err)), valid |-> ~a.err, tok |-> a.tok]
     IN IF Dead(c) THEN Tell(IF Bug = "stale" THEN [d EXCEPT !.ep[c] = d.link[c]] ELSE x)
        ELSE IF Bug = "mute" /\ a.err THEN Tell(x)
        ELSE IF c \in o.up THEN Event(e, x)
        ELSE Tell(x)
\* nothing more will happen on its own, and somebody waits for a response
Loops(c) == Redial(c) \/ Read(c) \/ Lock(c) \/ Reply(c) \/ Exit(c, "ok") \/ Exit(c, "err")
Silent(c) == /\ c \in o.up /\ Pend(o, c) # <<>>
             /\ ~ ENABLED (\E x \in Conns : Loops(x))
             /\ Event([e |-> "silent", n |-> c], d)

Next == \E c \in Conns :
          \/ \E k \in Kinds, b \in BOOLEAN : Send(c, k, b)
          \/ Down(c) \/ Up(c) \/ Redial(c) \/ Read(c) \/ Lock(c) \/ Reply(c) \/ Silent(c)
          \/ \E x \in {"ok", "err"} : Exit(c, x)
Spec == Init /\ [][Next]_vars
Fair == \A c \in Conns : /\ WF_vars(Redial(c)) /\ WF_vars(Read(c)) /\ SF_vars(Lock(c)) /\ WF_vars(Reply(c)) /\ WF_vars(Up(c))
                         /\ WF_vars(Exit(c, "ok") \/ Exit(c, "err"))
LiveSpec == Spec /\ Fair

MonitorsHold == [][ev'.e # "tau" => Ok_C14(o, ev') /\ Ok_C15(o, ev') /\ Ok_C21(o, ev')]_vars
OneInside == Len(o.inside) <= 1
\* every request is answered, unless the connection breaks
Answered == \A c \in Conns : (Pend(o, c) # <<>>) ~> (Pend(o, c) = <<>>)
Reconnects == \A c \in Conns : (c \notin o.up) ~> (c \in o.up)

MView == <<o, d, n>>
OpOf == CASE ev'.e = "send" -> [op |-> "send", n |-> ev'.n, k |-> ev'.k, bad |-> ev'.bad]
          [] ev'.e = "gone" -> [op |-> "down", n |-> ev'.n]
          [] ev'.e = "exit" -> [op |-> "exit", out |-> ev'.out]
          [] OTHER -> [op |-> "tau"]
PrintEdge == Emit => PrintT("EDGE " \o ToJson([s |-> TLCFP(MView), d |-> TLCFP(MView'), o |-> OpOf]))
============================================================================
