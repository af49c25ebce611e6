----------------------------- MODULE MCEnsemble ----------------------------
(* Members that share the signing key, agree on an order of announcements of  *)
(* what was signed, and have a leader that all requests end up with.  What a  *)
(* member misses it gets later, from the agreed order or from a snapshot.     *)
(* Bugs are wrong designs that the monitors must notice.                      *)
EXTENDS Ensemble, Json, TLCExt

CONSTANTS N, T, MaxReqs, MaxStops, MaxMoves, MaxSnaps, Free, Emit, Bug

VARIABLES com,   \* the agreed announcements: payloads, with the signature
          s,     \* member -> [up, held, pv, sh, ini, ap, sn, cut]
          lead,
          torn,  \* something happened that the harness takes for unrest
          cnt, o, ev, act
vars == <<com, s, lead, torn, cnt, o, ev, act>>

Ids == 1..N
None == [e |-> "none"]
P(h, c) == [h |-> h, r |-> 0, s |-> 1, c |-> c, t |-> 0]
NoSig == [p |-> NoPayload, sig |-> ""]
Alive(x) == {n \in Ids : x[n].up /\ ~x[n].held}
Majority(x) == 2 * Cardinality(Alive(x)) > N
Level == lead # 0 /\ \A n \in Alive(s) : s[n].ap = Len(com)

Init == /\ com = <<>> /\ lead = 0 /\ torn = TRUE /\ cnt = [r |-> 0, st |-> 0, mv |-> 0, sn |-> 0] /\ ev = None /\ act = [op |-> "tau"]
        /\ s = [n \in Ids |-> [up |-> TRUE, held |-> FALSE, pv |-> NoSig, sh |-> NoSig, ini |-> 0, ap |-> 0, sn |-> [i |-> 0, l |-> NoSig], cut |-> 0]]
        /\ o = Follow(Blank, [e |-> "reset", n |-> N, t |-> T])

Tell(e) == ev' = e /\ o' = Follow(o, e)
Silent == ev' = None /\ o' = o
Tau == act' = [op |-> "tau"]
Role(n) == IF ~s[n].up THEN "D" ELSE IF s[n].held THEN "P" ELSE IF n = lead THEN "L" ELSE "F"
Ask(op, n, k) == act' = [op |-> op, at |-> Role(n), i |-> Cardinality({x \in 1..(n - 1) : Role(x) = Role(n)}), k |-> k]

Elect(n) == /\ lead = 0 /\ Majority(s) /\ n \in Alive(s) /\ (cnt.st + cnt.mv = 0 => n = 1)
            \* it has all that is agreed on
            /\ s[n].ap <= Len(com)
            /\ lead' = n /\ torn' = FALSE /\ UNCHANGED <<com, s, cnt>> /\ Silent /\ Tau

Higher(a, x) == IF Lt(Hrs(a.p), Hrs(x.p)) THEN x ELSE a
Learn(m, l) ==
  [m EXCEPT !.pv = IF Bug = "shonly" THEN @ ELSE Higher(@, l),
            !.sh = IF Bug = "pvonly" \/ (Bug = "firstonly" /\ Leq(Hrs(l.p), Hrs(m.pv.p))) THEN @ ELSE Higher(@, l),
            !.ini = IF l.p.h > @ THEN l.p.h ELSE @]

CanShare(m, p) == Lt(Hrs(m.sh.p), Hrs(p)) \/ m.sh.p = p
Sig(p) == "S" \o ToString(p.h) \o p.c
\* the leader L is asked to sign p; what everyone is then, and the answer
Signed(L, S, p) == [n \in Ids |-> IF n \in S THEN [s[n] EXCEPT !.sh = [p |-> p, sig |-> Sig(p)], !.ini = IF n = L THEN p.h ELSE @,
                                                              !.pv = IF n = L THEN [p |-> p, sig |-> Sig(p)] ELSE @] ELSE s[n]]
Answer(n, p, out, sig) == [e |-> "req", n |-> n, p |-> p, out |-> out, sig |-> sig, valid |-> TRUE, calm |-> ~torn, level |-> Level,
                           up |-> Cardinality(Alive(s)), lead |-> lead, kept |-> ~torn, by |-> IF lead = 0 THEN <<>> ELSE <<lead>>]
Req(n, p) ==
  /\ n \in Alive(s) /\ lead # 0 /\ Majority(s) /\ cnt.r < MaxReqs /\ cnt' = [cnt EXCEPT !.r = @ + 1] /\ UNCHANGED <<lead, torn>>
  /\ LET L == IF Bug = "noproxy" /\ n # lead THEN n ELSE lead
         out(o1, sig) == Tell(Answer(n, p, o1, sig)) IN
     IF Bug = "norefer" /\ n # lead THEN UNCHANGED <<com, s>> /\ out("error", "")
     ELSE IF p.h > s[L].ini
       THEN LET able == {m \in Alive(s) : CanShare(s[m], p)} IN
            \/ /\ L \in able
               /\ \E S \in SUBSET able : /\ L \in S /\ Cardinality(S) = T
                                         /\ s' = [Signed(L, S, p) EXCEPT ![lead].ap = IF Bug = "silent" THEN @ ELSE @ + 1]
               /\ com' = IF Bug = "silent" THEN com ELSE Append(com, [p |-> p, sig |-> Sig(p)])
               /\ Bug # "silent" => s[lead].ap = Len(com)
               /\ IF Bug = "noproxy" /\ L # lead THEN Tell([e |-> "rounds", n |-> n]) ELSE out("sig", Sig(p))
            \/ /\ (L \notin able \/ Cardinality(able) < T)
               /\ s' = [s EXCEPT ![L].ini = p.h] /\ UNCHANGED com /\ out("error", "")
     ELSE IF s[L].pv.p = p
       THEN \* it may be that it was not announced yet
            /\ IF Bug = "unannounced" \/ \E i \in 1..s[L].ap : com[i].p = p THEN UNCHANGED <<com, s>>
               ELSE com' = Append(com, s[L].pv) /\ UNCHANGED s
            /\ out("sig", s[L].pv.sig)
     ELSE UNCHANGED <<com, s>> /\ out("error", "")
\* without a leader nobody signs
ReqAlone(n, p) == /\ n \in Alive(s) /\ lead = 0 /\ ~Majority(s) /\ cnt.r < MaxReqs /\ cnt' = [cnt EXCEPT !.r = @ + 1]
                  /\ s' = IF Bug = "followini" THEN [s EXCEPT ![n].ini = p.h] ELSE s
                  /\ UNCHANGED <<com, lead, torn>>
                  /\ Tell(IF Bug = "candidate" THEN [e |-> "rounds", n |-> n] ELSE Answer(n, p, "error", ""))
\* a member that takes part stops while it signs
ReqTorn(p) ==
  /\ lead # 0 /\ cnt.r < MaxReqs /\ cnt.st < MaxStops /\ p.h > s[lead].ini /\ lead \in Alive(s) /\ s[lead].ap = Len(com)
  /\ cnt' = [cnt EXCEPT !.r = @ + 1, !.st = @ + 1]
  /\ \E S \in SUBSET {m \in Alive(s) : CanShare(s[m], p)}, done \in {"no", "file", "told"} :
       /\ Cardinality(S) <= T /\ (done # "no" => lead \in S /\ Cardinality(S) = T)
       /\ LET x == Signed(lead, S, p)
              y == [x EXCEPT ![lead].pv = IF done = "no" THEN s[lead].pv ELSE @] IN
          s' = [y EXCEPT ![lead].up = FALSE, ![lead].ini = 0, ![lead].ap = 0]
       /\ com' = IF done = "told" THEN Append(com, [p |-> p, sig |-> Sig(p)]) ELSE com
  /\ lead' = 0 /\ torn' = TRUE
  /\ Tell([Answer(lead, p, "none", "") EXCEPT !.calm = FALSE, !.kept = FALSE])

Gone(n) == lead' = (IF lead = n THEN 0 ELSE lead) /\ torn' = (IF lead = n THEN TRUE ELSE torn)
Apply(n) == /\ n \in Alive(s) /\ lead # 0 /\ s[n].ap < Len(com)
            /\ s' = IF s[n].ap < s[lead].cut /\ n # lead
                      THEN LET m == IF Bug = "snapless" THEN s[n] ELSE Learn(s[n], s[lead].sn.l) IN
                           [s EXCEPT ![n] = [m EXCEPT !.ap = s[lead].sn.i, !.sn = s[lead].sn, !.cut = s[lead].sn.i]]
                      ELSE [s EXCEPT ![n] = [Learn(@, com[s[n].ap + 1]) EXCEPT !.ap = @ + 1]]
            /\ UNCHANGED <<com, lead, torn, cnt>> /\ Silent /\ Tau
\* it stops after it stored one of the two states
ApplyTorn(n) == /\ n \in Alive(s) /\ lead # 0 /\ s[n].ap < Len(com) /\ s[n].ap >= s[lead].cut /\ cnt.st < MaxStops /\ cnt' = [cnt EXCEPT !.st = @ + 1]
                /\ LET m == Learn(s[n], com[s[n].ap + 1]) IN
                   \E b \in BOOLEAN : s' = [s EXCEPT ![n] = [(IF b THEN [s[n] EXCEPT !.pv = m.pv] ELSE [s[n] EXCEPT !.sh = m.sh]) EXCEPT !.up = FALSE, !.held = FALSE, !.ap = 0, !.ini = 0]]
                /\ Gone(n) /\ UNCHANGED com /\ Tell([e |-> "kill", n |-> n])
Snap(n, much) == /\ n \in Alive(s) /\ cnt.sn < MaxSnaps /\ s[n].ap > s[n].sn.i /\ cnt' = [cnt EXCEPT !.sn = @ + 1]
                 /\ s' = [s EXCEPT ![n].sn = [i |-> s[n].ap, l |-> com[s[n].ap]], ![n].cut = IF much THEN s[n].ap ELSE @]
                 /\ (much => n = lead) /\ UNCHANGED <<com, lead, torn>> /\ Silent
Kill(n) == /\ s[n].up /\ cnt.st < MaxStops /\ cnt' = [cnt EXCEPT !.st = @ + 1]
           /\ s' = [s EXCEPT ![n].up = FALSE, ![n].held = FALSE, ![n].ap = 0, ![n].ini = 0] /\ Gone(n)
           /\ UNCHANGED com /\ Tell([e |-> "kill", n |-> n])
Start(n) == /\ ~s[n].up
            /\ s' = [s EXCEPT ![n] = [(IF s[n].sn.i > 0 THEN Learn(@, s[n].sn.l) ELSE @) EXCEPT !.up = TRUE, !.ini = s[n].pv.p.h, !.ap = s[n].sn.i]]
            /\ UNCHANGED <<com, lead, torn, cnt>> /\ Tell([e |-> "start", n |-> n, ok |-> TRUE])
Hold(n) == /\ n \in Alive(s) /\ cnt.st < MaxStops /\ cnt' = [cnt EXCEPT !.st = @ + 1]
           /\ s' = [s EXCEPT ![n].held = TRUE] /\ Gone(n) /\ UNCHANGED com /\ Tell([e |-> "pause", n |-> n])
\* a member passes a request on to a leader that is held before it answers
Held(n) == /\ lead # 0 /\ n \in Alive(s) /\ n # lead /\ lead \in Alive(s) /\ cnt.st < MaxStops /\ cnt' = [cnt EXCEPT !.st = @ + 1]
           /\ s' = [s EXCEPT ![lead].held = TRUE] /\ lead' = 0 /\ torn' = TRUE /\ UNCHANGED com
           /\ Tell([e |-> "held", n |-> n, up |-> Cardinality(Alive(s')), answered |-> Bug # "wait"])
Release(n) == /\ s[n].held /\ s' = [s EXCEPT ![n].held = FALSE] /\ UNCHANGED <<com, lead, torn, cnt>> /\ Tell([e |-> "cont", n |-> n])
\* lost majority, lost leader
Lose == /\ lead # 0 /\ ~Majority(s) /\ lead' = 0 /\ torn' = TRUE /\ UNCHANGED <<com, s, cnt>> /\ Silent /\ Tau
Transfer(n) == /\ lead # 0 /\ Level /\ Majority(s) /\ n \in Alive(s) /\ cnt.mv < MaxMoves /\ cnt' = [cnt EXCEPT !.mv = @ + 1]
               /\ lead' \in CASE Bug = "anyone" -> Alive(s) \ {lead}
                              [] Bug = "selfmove" /\ n = lead -> Alive(s) \ {lead}
                              [] Bug = "stay" -> {lead}
                              [] OTHER -> {n}
               /\ UNCHANGED <<com, s, torn>> /\ Tell([e |-> "transfer", to |-> n, before |-> lead, after |-> lead', calm |-> TRUE])
Seen(n) == /\ n \in Alive(s) /\ Level /\ Majority(s) /\ UNCHANGED <<com, s, lead, torn, cnt>>
           /\ Tell([e |-> "seen", n |-> n, pv |-> s[n].pv.p, sh |-> s[n].sh.p])
\* (a member that is yet to learn of a signature could be led to sign something else)
Probe(n, p) == /\ o.known[n] = o.max /\ n \in Alive(s) /\ cnt.r < MaxReqs /\ cnt' = [cnt EXCEPT !.r = @ + 1]
               /\ LET ok == CanShare(s[n], p) IN
                  /\ s' = IF ok THEN [s EXCEPT ![n].sh = [p |-> p, sig |-> "share"]] ELSE s
                  /\ Tell([e |-> "probe", n |-> n, p |-> p, out |-> IF ok THEN "share" ELSE "error"])
               /\ UNCHANGED <<com, lead, torn>>

\* heights go up; what was asked for last is asked for again, or something else in its place, or for what is below
Fresh == P(o.tried[1] + 1, "A")
Kinds == [fresh |-> Fresh, again |-> o.max, conflict |-> [o.max EXCEPT !.c = "B"], lower |-> P(o.max.h - 1, "B"), retry |-> P(o.tried[1], "A")]
Usable(k) == IF k \in {"again", "conflict"} THEN o.max.h > 0 ELSE IF k = "lower" THEN o.max.h > 1
             ELSE IF k = "retry" THEN o.tried[1] > o.max.h ELSE TRUE
Next ==
  \/ \E n \in Ids :
       \/ Elect(n) \/ Apply(n)
       \/ Kill(n) /\ Ask("kill", n, "")
       \/ Free /\ ApplyTorn(n) /\ Ask("half", n, "")
       \/ Start(n) /\ Ask("start", n, "")
       \/ Hold(n) /\ Ask("pause", n, "")
       \/ Free /\ Held(n) /\ Ask("held", n, "")
       \/ Release(n) /\ Ask("cont", n, "")
       \/ Snap(n, TRUE) /\ Ask("bulksnap", n, "")
       \/ Snap(n, FALSE) /\ Ask("snap", n, "")
       \/ Transfer(n) /\ Ask("transfer", n, "")
       \/ Free /\ Seen(n) /\ Ask("seen", n, "")
       \/ \E k \in DOMAIN Kinds : Usable(k) /\ Req(n, Kinds[k]) /\ Ask("req", n, k)
       \/ \E k \in {"fresh", "conflict", "lower"} : Free /\ Usable(k) /\ Probe(n, Kinds[k]) /\ Ask("probe", n, k)
  \/ \E n \in Ids : Free /\ ReqAlone(n, Fresh) /\ Tau
  \/ ReqTorn(Fresh) /\ Ask("reqkill", lead, "fresh")
  \/ Lose
Spec == Init /\ [][Next]_vars

MonitorsHold == [][Ok_C11(o, ev') /\ Ok_C13(o, ev')]_vars
\* nothing is signed twice in different ways
OneSignature == \A i, j \in 1..Len(com) : Hrs(com[i].p) = Hrs(com[j].p) => com[i] = com[j]
MView == <<com, s, lead, torn, cnt, o>>
SView == <<com, s, lead, torn, cnt, o.max, o.tried>>
PrintEdge == Emit => PrintT("EDGE " \o ToJson([s |-> TLCFP(SView), d |-> TLCFP(SView'), o |-> act']))
============================================================================
