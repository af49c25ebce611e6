------------------------------ MODULE MCSingle ------------------------------
(* A single signer step by step: requests on two connections, a guard, the    *)
(* sign state in memory and on disk, kills at any point, restarts, and the    *)
(* configuration initialised again.  Bugs are wrong designs that the monitor  *)
(* must notice.                                                               *)
EXTENDS Single, Json, TLCExt

CONSTANTS Conns, MaxKills, MaxReqs, Emit, Bug, HRSs, Contents, Times

VARIABLES o, d, n, ev
vars == <<o, d, n, ev>>

Tau == [e |-> "tau"]
ThreeHrs == {<<1, 0, 2>>, <<1, 0, 3>>, <<2, 0, 1>>}
Payloads == {[h |-> x[1], r |-> x[2], s |-> x[3], c |-> c, t |-> t] : x \in HRSs, c \in Contents, t \in Times}

Init == /\ o = NewSigner
        /\ d = [up |-> FALSE, mem |-> NoPayload, disk |-> NoPayload, lock |-> FALSE,
                at |-> [c \in Conns |-> "idle"], req |-> [c \in Conns |-> NoPayload], res |-> [c \in Conns |-> NoPayload]]
        /\ n = [kills |-> 0, reqs |-> 0]
        /\ ev = Tau
Tell(x) == ev' = Tau /\ o' = o /\ d' = x /\ UNCHANGED n

Start == /\ ~d.up
         /\ Tell([d EXCEPT !.up = TRUE, !.mem = IF Bug = "empty" THEN NoPayload ELSE d.disk])
Kill == /\ d.up /\ n.kills < MaxKills /\ n' = [n EXCEPT !.kills = @ + 1]
        /\ ev' = [e |-> "kill"] /\ o' = o
        /\ d' = [d EXCEPT !.up = FALSE, !.lock = FALSE, !.at = [c \in Conns |-> "idle"],
                          !.req = [c \in Conns |-> NoPayload], !.res = [c \in Conns |-> NoPayload]]
Reinit == /\ ~d.up /\ n.kills < MaxKills /\ n' = [n EXCEPT !.kills = @ + 1]
          /\ ev' = [e |-> "reinit"] /\ o' = o
          /\ d' = IF Bug = "reinit" THEN [d EXCEPT !.disk = NoPayload] ELSE d

Ask(c, p) == /\ d.up /\ d.at[c] = "idle" /\ n.reqs < MaxReqs /\ n' = [n EXCEPT !.reqs = @ + 1]
             /\ ev' = [e |-> "ask", p |-> p, c |-> c] /\ o' = o
             /\ d' = [d EXCEPT !.at[c] = "lock", !.req[c] = p]
Take(c) == /\ d.at[c] = "lock" /\ (~d.lock \/ Bug = "nolock")
           /\ Tell([d EXCEPT !.at[c] = "check", !.lock = TRUE])
\* a signature counts as made when the guard lets go of it: replies of two connections may overtake each other
Sign(c, p, x) == /\ ev' = [e |-> "sign", rel |-> <<p>>] /\ o' = Follow(o, ev') /\ d' = x /\ UNCHANGED n
Done(x, c) == [x EXCEPT !.at[c] = "idle", !.res[c] = NoPayload, !.req[c] = NoPayload]
Check(c) ==
  /\ d.at[c] = "check"
  /\ LET p == d.req[c]
         m == d.mem
         new == \/ Lt(Hrs(m), Hrs(p))
                \/ Bug = "lower" /\ m.h = p.h /\ Lt(Hrs(p), Hrs(m))
                \/ Bug = "content" /\ Hrs(m) = Hrs(p) /\ m.c # p.c
         old == Hrs(m) = Hrs(p) /\ m.c = p.c
         free == [d EXCEPT !.lock = FALSE]
     IN IF new THEN Tell([d EXCEPT !.at[c] = "save", !.res[c] = p])
        ELSE IF old THEN Sign(c, m, Done(free, c))
        ELSE Tell(Done(free, c))
Save(c) == /\ d.at[c] = "save"
           /\ Tell([d EXCEPT !.at[c] = "reply", !.mem = d.res[c], !.disk = IF Bug \in {"nosave", "late"} THEN @ ELSE d.res[c]])
Reply(c) ==
  /\ d.at[c] = "reply"
  /\ Sign(c, d.res[c], IF Bug = "late" THEN [d EXCEPT !.at[c] = "later"] ELSE Done([d EXCEPT !.lock = FALSE], c))
Later(c) == /\ d.at[c] = "later"
            /\ Tell(Done([d EXCEPT !.lock = FALSE, !.disk = d.res[c]], c))

Next == \/ Start \/ Kill \/ Reinit
        \/ \E c \in Conns : Take(c) \/ Check(c) \/ Save(c) \/ Reply(c) \/ Later(c) \/ \E p \in Payloads : Ask(c, p)
Spec == Init /\ [][Next]_vars

MonitorsHold == [][ev'.e = "sign" => Ok_C19(o, ev')]_vars
\* what was released is on disk
OnDisk == o.top # NoPayload => Leq(Hrs(o.top), Hrs(d.disk))

MView == <<o, d, n>>
WView == <<o, d>>
OpOf == CASE ev'.e = "ask" -> [op |-> "ask", c |-> ev'.c, p |-> ev'.p]
          [] ev'.e \in {"kill", "reinit"} -> [op |-> ev'.e]
          [] ev'.e = "sign" -> [op |-> "reply"]
          [] OTHER -> [op |-> "tau"]
PrintEdge == Emit => PrintT("EDGE " \o ToJson([s |-> TLCFP(WView), d |-> TLCFP(WView'), o |-> OpOf]))
=============================================================================
