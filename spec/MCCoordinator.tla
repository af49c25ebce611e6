--------------------------- MODULE MCCoordinator ---------------------------
(* One coordinator, step by step as the code does it, on small sets of        *)
(* payloads, with up to MaxPend requests and notifications under way at once. *)
(* Checked: every event satisfies the monitors of Coordinator.tla, and the    *)
(* global properties below.  Each Bug is a way of getting it wrong that the   *)
(* monitors must notice.  Edges of the graph are printed for replay.          *)
EXTENDS Coordinator, Json, TLCExt

CONSTANTS Hs, Ss, Cs, Ts,  \* payloads (round 0)
          MaxPend,         \* concurrent requests
          MaxOps,          \* calls, notifications and restarts, 0 = any number
          Fresh,           \* TRUE: contents other than the first come at timestamp 0 only
          LssOn, AbsentOn, \* with notifications; with requests for which too few cosigners answer
          Emit, Bug

VARIABLES o,    \* the monitor
          d,    \* the coordinator and its cosigners
          n,    \* operations so far
          ev
vars == <<o, d, n, ev>>

First == CHOOSE c \in Cs : TRUE
Payloads == {p \in [h : Hs, r : {0}, s : Ss, c : Cs, t : Ts] : Fresh /\ p.c # First => p.t = 0}
SigOf(p) == "G" \o ToString(p)
NoFile == [h |-> 0, r |-> 0, s |-> 0, c |-> "", t |-> 0]
Tau == [e |-> "tau"]
C == 1
Cos == {1, 2}

Init == /\ o = NewWorld(2, 2)
        /\ d = [ini |-> Zero, saved |-> Zero, cache |-> Empty, file |-> NoFile, fsig |-> "",
                cos |-> [c \in Cos |-> [m |-> Zero, c |-> ""]], reqs |-> Empty]
        /\ n = 0
        /\ ev = Tau

F == [h |-> d.file.h, r |-> d.file.r, s |-> d.file.s, c |-> d.file.c, t |-> d.file.t, sig |-> d.fsig, sigok |-> TRUE]
CosFile(x) == [h |-> x.m[1], r |-> x.m[2], s |-> x.m[3], c |-> x.c, t |-> 0]

CosAllows(x, p) == Lt(x.m, Hrs(p)) \/ (x.m = Hrs(p) /\ x.c = p.c)
CosBump(x, p) == IF Lt(x.m, Hrs(p)) THEN [m |-> Hrs(p), c |-> p.c] ELSE x

----------------------------------------------------------------------------
(* the signed state of the validator *)
KeepD == IF Bug = "keep2" THEN 2 ELSE Keep
SaveP(x, p, sig) ==
  LET hrs == Hrs(p)
      cache == Put(x.cache, hrs, [p |-> p, sig |-> sig])
  IN [x EXCEPT !.saved = hrs, !.cache = Drop(cache, {k \in DOMAIN cache : k[1] < hrs[1] - KeepD}),
               !.file = p, !.fsig = sig]
CanSave(x, p) == Lt(x.saved, Hrs(p))

\* what the recorded signatures say about a payload: a signature, refuse, again, or wait
Look(x, p) ==
  LET hrs == Hrs(p) IN
  IF hrs \in DOMAIN x.cache
  THEN LET r == x.cache[hrs] IN
       IF ~IsVote(p) \/ SameBytes(r.p, p) THEN [a |-> "sig", sig |-> r.sig]
       ELSE IF Bug = "voteany" THEN [a |-> "sig", sig |-> r.sig]
       ELSE IF r.p.c # p.c /\ Bug # "contents" THEN [a |-> "refuse", sig |-> ""]
       ELSE [a |-> "again", sig |-> ""]
  ELSE IF Lt(hrs, x.saved) THEN [a |-> "refuse", sig |-> ""]
  ELSE [a |-> "wait", sig |-> ""]

Req(i) == d.reqs[i]
SetReq(i, q) == [d EXCEPT !.reqs = Put(@, i, q)]
Done(q, out, sig) == [q EXCEPT !.pc = "done", !.out = out, !.sig = sig]
Internal(d2) == d' = d2 /\ o' = o /\ n' = n /\ ev' = Tau
InternalAs(a, i, d2) == d' = d2 /\ o' = o /\ n' = n /\ ev' = [e |-> "tau", a |-> a, id |-> i]
Event(e, d2) == d' = d2 /\ ev' = e /\ o' = Follow(See(o, e), e) /\ n' = n
Op(e, d2) == d' = d2 /\ ev' = e /\ o' = Follow(See(o, e), e) /\ n' = (IF MaxOps = 0 THEN 0 ELSE n + 1) /\ (MaxOps > 0 => n < MaxOps)

Call(i, p, absent) ==
  /\ i \notin DOMAIN d.reqs
  /\ \A j \in 1..(i-1) : j \in DOMAIN d.reqs
  /\ Op([e |-> "call", id |-> i, c |-> C, p |-> p, avail |-> IF absent THEN 0 ELSE 1, hurt |-> FALSE,
         calm |-> DOMAIN d.reqs = {} /\ MaxPend = 1, store |-> TRUE],
        SetReq(i, [p |-> p, pc |-> "decide", out |-> "", sig |-> "", absent |-> absent, shares |-> {}, asked |-> {}, lss |-> FALSE]))

Decide(i) ==
  LET q == Req(i)
      hrs == Hrs(q.p)
      k == Look(d, q.p)
  IN /\ i \in DOMAIN d.reqs /\ ~q.lss /\ q.pc = "decide"
     /\ Internal(IF Lt(d.ini, hrs) \/ Bug = "noini" THEN [SetReq(i, [q EXCEPT !.pc = "round"]) EXCEPT !.ini = Max(d.ini, hrs)]
                 ELSE IF d.ini = hrs
                 THEN CASE k.a = "sig" -> SetReq(i, Done(q, "ok", k.sig))
                        [] k.a = "again" -> SetReq(i, [q EXCEPT !.pc = "round"])
                        [] k.a = "refuse" -> SetReq(i, Done(q, "err", ""))
                        [] OTHER -> SetReq(i, [q EXCEPT !.pc = "wait"])
                 ELSE IF k.a = "sig" THEN SetReq(i, Done(q, "ok", k.sig))
                 ELSE IF Bug = "oldagain" /\ k.a = "again" THEN SetReq(i, [q EXCEPT !.pc = "round"])
                 ELSE IF Bug = "emptyok" /\ k.a = "again" THEN SetReq(i, Done(q, "ok", ""))
                 ELSE SetReq(i, Done(q, "err", "")))

Wait(i) ==
  LET q == Req(i)
      k == Look(d, q.p)
  IN /\ i \in DOMAIN d.reqs /\ ~q.lss /\ q.pc = "wait"
     /\ \/ k.a = "sig" /\ Internal(SetReq(i, Done(q, "ok", k.sig)))
        \/ k.a = "again" /\ Internal(SetReq(i, [q EXCEPT !.pc = "round"]))
        \/ k.a = "refuse" /\ Internal(SetReq(i, Done(q, "err", "")))
        \/ /\ k.a = "wait" \* the time is up, and nobody is about to record it
           /\ ~ \E j \in DOMAIN d.reqs : j # i /\ d.reqs[j].pc \in {"signing", "save", "round", "lss1", "lss2"}
           /\ Internal(SetReq(i, IF Bug = "waitsign" THEN [q EXCEPT !.pc = "round"] ELSE Done(q, "err", "")))

Round(i) ==
  LET q == Req(i) IN
  /\ i \in DOMAIN d.reqs /\ ~q.lss /\ q.pc = "round"
  /\ Event([e |-> "start", c |-> C, k |-> Key(q.p), id |-> i],
           SetReq(i, IF q.absent /\ Bug # "alone" THEN Done(q, "err", "") ELSE [q EXCEPT !.pc = "signing"]))

Share(i, c) ==
  LET q == Req(i)
      yes == CosAllows(d.cos[c], q.p)
      e == [e |-> "share", by |-> C, c |-> c, out |-> IF yes THEN "share" ELSE "err", p |-> q.p, id |-> i]
      q2 == [q EXCEPT !.asked = @ \cup {c}, !.shares = IF yes THEN @ \cup {c} ELSE @]
      need == IF Bug = "alone" /\ q.absent THEN {1} ELSE Cos
  IN /\ i \in DOMAIN d.reqs /\ ~q.lss /\ q.pc = "signing" /\ c \in need \ q.asked
     /\ \A x \in need \ q.asked : c <= x
     /\ Event(e, [SetReq(i, IF q2.asked # need THEN q2
                            ELSE IF q2.shares = need THEN [q2 EXCEPT !.pc = "save"]
                            ELSE Done(q2, "err", "")) EXCEPT !.cos[c] = IF yes THEN CosBump(@, q.p) ELSE @])

Save(i) ==
  LET q == Req(i)
      d2 == SetReq(i, Done(q, "ok", SigOf(q.p)))
  IN /\ i \in DOMAIN d.reqs /\ ~q.lss /\ q.pc = "save"
     /\ InternalAs("save", i, IF Bug = "nosave" THEN d2
                 ELSE IF CanSave(d, q.p) THEN SaveP(d2, q.p, SigOf(q.p))
                 ELSE IF d.saved = Hrs(q.p) THEN IF Bug = "resave" THEN SaveP(d2, q.p, SigOf(q.p)) ELSE d2
                 ELSE SetReq(i, Done(q, "err", "")))

Return(i) ==
  LET q == Req(i) IN
  /\ i \in DOMAIN d.reqs /\ ~q.lss /\ q.pc = "done"
  /\ Event([e |-> "ret", id |-> i, c |-> C, out |-> q.out, sig |-> q.sig, empty |-> q.sig = "",
            valid |-> q.out = "ok" /\ q.sig = SigOf(q.p), same |-> TRUE, late |-> FALSE, f |-> F],
           [d EXCEPT !.reqs = Drop(@, {i})])

\* a signature for p exists, or another coordinator can have obtained one
Obtainable(p) == \/ \E x \in o.sigs : SameBytes(x.p, p)
                 \/ \A c \in Cos : CosAllows(d.cos[c], p) /\ ~(\E x \in o.sigs : Hrs(x.p) = Hrs(p))
BumpAll(x, p) == [x EXCEPT !.cos = [c \in Cos |-> CosBump(@[c], p)]]
Learn(x, p) ==
  LET y == BumpAll(x, p)
      z == IF Bug = "lssini" THEN y ELSE [y EXCEPT !.ini = Max(@, Hrs(p))]
  IN IF CanSave(z, p) THEN SaveP(z, p, SigOf(p)) ELSE z

\* a notification while nothing else goes on
Lss(p) ==
  /\ LssOn /\ d.reqs = Empty /\ Obtainable(p)
  /\ LET d2 == Learn(d, p) IN
     Op([e |-> "lss", c |-> C, p |-> p, sig |-> SigOf(p), out |-> "ok", cf |-> CosFile(d2.cos[1]),
         f |-> [h |-> d2.file.h, r |-> d2.file.r, s |-> d2.file.s, c |-> d2.file.c, t |-> d2.file.t, sig |-> d2.fsig, sigok |-> TRUE]], d2)

\* a notification among requests
LssCall(i, p) ==
  /\ LssOn /\ MaxPend > 1 /\ i \notin DOMAIN d.reqs /\ (\A j \in 1..(i-1) : j \in DOMAIN d.reqs)
  /\ d.reqs # Empty /\ ~ \E j \in DOMAIN d.reqs : d.reqs[j].lss
  /\ Obtainable(p)
  /\ Op([e |-> "lsscall", id |-> i, c |-> C, p |-> p, sig |-> SigOf(p)],
        [BumpAll(d, p) EXCEPT !.reqs = Put(@, i, [p |-> p, pc |-> "lss1", lss |-> TRUE])])
LssStep(i) ==
  /\ i \in DOMAIN d.reqs /\ Req(i).lss
  /\ CASE Req(i).pc = "lss1" -> Internal([SetReq(i, [Req(i) EXCEPT !.pc = "lss2"]) EXCEPT !.ini = IF Bug = "lssini" THEN @ ELSE Max(@, Hrs(Req(i).p))])
       [] Req(i).pc = "lss2" -> Internal(LET x == SetReq(i, [Req(i) EXCEPT !.pc = "lss3"]) IN
                                         IF CanSave(x, Req(i).p) THEN SaveP(x, Req(i).p, SigOf(Req(i).p)) ELSE x)
       [] OTHER -> Event([e |-> "lss", id |-> i, c |-> C, p |-> Req(i).p, sig |-> SigOf(Req(i).p), out |-> "ok",
                          cf |-> CosFile(d.cos[1]), f |-> F], [d EXCEPT !.reqs = Drop(@, {i})])

\* the process is killed and started again
Restart ==
  /\ \E p \in Payloads : TRUE
  /\ Op([e |-> "restart", c |-> C, f |-> F, cf |-> CosFile(d.cos[1]), torn |-> ""],
        [d EXCEPT !.ini = Hrs(d.file), !.saved = Hrs(d.file), !.reqs = Empty,
                  !.cache = IF d.fsig = "" THEN Empty ELSE Put(Empty, Hrs(d.file), [p |-> d.file, sig |-> d.fsig])])

Slots == 1..MaxPend
Next == \/ \E i \in Slots, p \in Payloads, a \in (IF AbsentOn THEN BOOLEAN ELSE {FALSE}) : Call(i, p, a)
        \/ \E i \in Slots : Decide(i) \/ Wait(i) \/ Round(i) \/ Save(i) \/ Return(i) \/ LssStep(i)
        \/ \E i \in Slots, c \in Cos : Share(i, c)
        \/ \E p \in Payloads : Lss(p)
        \/ \E i \in Slots, p \in Payloads : LssCall(i, p)
        \/ Restart
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
MonitorsHold == [][ev'.e # "tau" => LET s == See(o, ev') IN
                     /\ Ok_C03(s, ev') /\ Ok_C04(s, ev') /\ Ok_C05(s, ev') /\ Ok_C06(s, ev')
                     /\ Ok_C07(s, ev') /\ Ok_C08(s, ev')]_vars
Safe == NoConflict(o)
\* the coordinator knows at least what the monitor says it must know, and the monitor's marks are never ahead
Sound == LET x == o.cs[C] IN
         /\ \A k \in DOMAIN x.rec : k \notin x.amb /\ k[1] >= d.saved[1] - Keep =>
              k \in DOMAIN d.cache /\ SameBytes(d.cache[k].p, x.rec[k].p)
         /\ ~Lt(d.saved, x.saved) /\ ~Lt(d.ini, x.saved)
Covered == \A x \in o.sigs : \A c \in Cos : ~Lt(d.cos[c].m, Hrs(x.p))

MView == <<o, d, n>>
OpOf == CASE ev'.e = "call" -> [op |-> "call", id |-> ev'.id, p |-> ev'.p, absent |-> ev'.avail = 0]
          [] ev'.e = "share" /\ ev'.c = 1 -> [op |-> "go", id |-> ev'.id]
          [] ev'.e = "tau" /\ "a" \in DOMAIN ev' -> [op |-> ev'.a, id |-> ev'.id]
          [] ev'.e = "lss" -> [op |-> "lss", p |-> ev'.p, conc |-> "id" \in DOMAIN ev']
          [] ev'.e = "lsscall" -> [op |-> "lsscall", p |-> ev'.p, id |-> ev'.id]
          [] ev'.e = "restart" -> [op |-> "restart", busy |-> \E i \in DOMAIN d.reqs : d.reqs[i].pc \in {"signing", "save"}]
          [] ev'.e = "ret" -> [op |-> "ret", id |-> ev'.id, out |-> ev'.out]
          [] OTHER -> [op |-> "tau"]
PrintEdge == Emit => PrintT("EDGE " \o ToJson([s |-> TLCFP(MView), d |-> TLCFP(MView'), o |-> OpOf]))
============================================================================
