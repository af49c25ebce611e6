---------------------------- MODULE Coordinator ----------------------------
(* Coordinators (threshold validators) and their requests, as an observer     *)
(* outside sees them.                                                         *)
(*                                                                            *)
(* The observer's state o:                                                    *)
(*   cs     per node: saved   highest HRS known to be recorded as signed      *)
(*                    top     highest HRS started, learned or loaded          *)
(*                    rec     HRS -> [p, sig] signatures it must still have   *)
(*                    amb     HRSs where concurrency hides what is recorded   *)
(*                    began   HRS -> payloads whose round came first          *)
(*                    tried   HRS -> payloads with a round                    *)
(*                    base    HRS -> payloads learned or loaded               *)
(*                    f       last state file seen                            *)
(*   pend   requests under way, with what was known when they were made       *)
(*   sigs   valid signatures returned or learned: set of [sig, p]             *)
(*   fsigs  valid signatures seen in state files                              *)
(*   claims signatures answered to repeated proposals whose first reply is    *)
(*          still under way                                                   *)
(*   votes  set of [p, c]: cosigner c released a share for p                  *)
(*   gmax   highest HRS mentioned so far anywhere                             *)
(*   t      threshold                                                         *)
(* Events: call start share ret lsscall lss restart twins torn (see Follow).  *)
(* Ok_Cxx(o, e): property Cxx allows event e in state o.                      *)
EXTENDS HRS, TLC

Keep == 3      \* heights for which signatures stay available

ZeroFile == [h |-> 0, r |-> 0, s |-> 0, c |-> "", t |-> 0]
NewNode == [saved |-> Zero, top |-> Zero, rec |-> Empty, amb |-> {}, began |-> Empty, tried |-> Empty, base |-> Empty, f |-> ZeroFile,
            cf |-> ZeroFile]
NewWorld(n, t) == [cs |-> [c \in 1..n |-> NewNode], pend |-> Empty, sigs |-> {}, fsigs |-> {}, claims |-> {}, votes |-> {}, gmax |-> Zero, t |-> t]

At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE {}
IsVote(p) == p.s # 1

Recorded(x, hrs) == hrs \in DOMAIN x.rec /\ hrs[1] >= x.saved[1] - Keep
Retain(rec, saved) == Drop(rec, {k \in DOMAIN rec : k[1] < saved[1] - Keep})

KnownSig(o, sig) == \E x \in o.sigs : x.sig = sig
SeenSig(o, sig) == \E x \in o.sigs \cup o.fsigs : x.sig = sig
SigsOf(o, sig) == {x.p : x \in {y \in o.sigs \cup o.fsigs : y.sig = sig}}

FileP(f) == [h |-> f.h, r |-> f.r, s |-> f.s, c |-> f.c, t |-> f.t]
\* the signature in a state file is one that exists
See(o, e) == IF e.e \in {"ret", "lss", "restart"} /\ "sig" \in DOMAIN e.f /\ e.f.h > 0 /\ e.f.sig # "" /\ e.f.sigok
             THEN [o EXCEPT !.fsigs = @ \cup {[sig |-> e.f.sig, p |-> FileP(e.f)]}]
             ELSE o

----------------------------------------------------------------------------
\* what is promised about a request when it is made
Promise(o, e) ==
  LET x == o.cs[e.c]
      p == e.p
      hrs == Hrs(p)
      on == Recorded(x, hrs)
      r == x.rec[hrs]
      unsure == hrs \in x.amb
  IN [c |-> e.c, p |-> p, lss |-> FALSE,
      must |-> IF on /\ ~unsure /\ (SameBytes(p, r.p) \/ ~IsVote(p)) THEN r.sig ELSE "",
      same |-> on /\ ~unsure /\ SameBytes(p, r.p),
      refuse |-> IF on /\ ~unsure THEN IsVote(p) /\ (p.c # r.p.c \/ (p.t # r.p.t /\ Lt(hrs, x.top)))
                 ELSE hrs[1] < x.saved[1] - Keep,
      behind |-> Lt(hrs, x.top),
      top |-> x.top,
      lb |-> At(x.base, hrs),
      fresh |-> Lt(o.gmax, hrs),
      avail |-> e.avail, hurt |-> e.hurt, calm |-> e.calm, store |-> e.store]

Askers(o, e) == {i \in DOMAIN o.pend : o.pend[i].c = e.c /\ ~o.pend[i].lss /\ Key(o.pend[i].p) = e.k}

\* request i asks for another timestamp of something signed at its step
Again(o, i) ==
  LET q == o.pend[i]
      x == o.cs[q.c]
      learning == {o.pend[j].p : j \in {k \in DOMAIN o.pend : o.pend[k].c = q.c /\ o.pend[k].lss /\ Hrs(o.pend[k].p) = Hrs(q.p)}}
  IN IsVote(q.p) /\ \E b \in At(x.tried, Hrs(q.p)) \cup At(x.base, Hrs(q.p)) \cup learning : b.c = q.p.c /\ b.t # q.p.t
\* request i is the first for its step
Leads(o, i) == LET q == o.pend[i] IN At(o.cs[q.c].began, Hrs(q.p)) = {} /\ q.lb = {}

\* may request i begin a signing round now?
MayStart(o, i) ==
  LET q == o.pend[i] IN
  /\ ~q.same
  /\ (q.must # "" => IsVote(q.p))
  /\ Again(o, i) \/ Leads(o, i)

\* the height of q may have been dropped, also by something under way
Evicted(o, q) == \/ Hrs(q.p)[1] < o.cs[q.c].saved[1] - Keep
                 \/ \E i \in DOMAIN o.pend : o.pend[i].c = q.c /\ Hrs(q.p)[1] < o.pend[i].p.h - Keep
NewSig(o, e) == e.e = "ret" /\ e.out = "ok" /\ e.valid /\ ~KnownSig(o, e.sig)

\* a repeated proposal is answered with a signature whose own reply is still under way
Claiming(o, e) == LET q == o.pend[e.id] IN
  /\ e.out = "ok" /\ ~e.valid /\ ~IsVote(q.p) /\ ~SeenSig(o, e.sig)
  /\ \E i \in DOMAIN o.pend : i # e.id /\ o.pend[i].c = e.c /\ Hrs(o.pend[i].p) = Hrs(q.p)

\* a signature seen before may answer a request for exactly its payload, or any proposal at its step
Answers(o, e, q) == \E y \in SigsOf(o, e.sig) : SameBytes(y, q.p) \/ (~IsVote(q.p) /\ Hrs(y) = Hrs(q.p))

----------------------------------------------------------------------------
(* C01: no two valid signatures, and no two sets of a threshold of shares,    *)
(* for conflicting content.  Checked of the state after the event.            *)
Backed(o, p) == Cardinality({v.c : v \in {w \in o.votes : SameContent(w.p, p)}}) >= o.t
NoConflict(o) ==
  /\ \A x, y \in o.sigs : Hrs(x.p) = Hrs(y.p) => x.p.c = y.p.c
  /\ \A v \in o.votes : Backed(o, v.p) =>
       /\ \A x \in o.sigs : Hrs(x.p) = Hrs(v.p) => x.p.c = v.p.c
       /\ \A w \in o.votes : Hrs(w.p) = Hrs(v.p) /\ w.p.c # v.p.c => ~Backed(o, w.p)

(* C05: what comes with a reply. *)
Ok_C05(o, e) ==
  e.e = "ret" =>
    LET q == o.pend[e.id] IN
    /\ e.out = "ok" => /\ ~e.empty
                       /\ e.same
                       /\ \/ e.valid
                          \/ ~IsVote(q.p) /\ \E y \in SigsOf(o, e.sig) : Hrs(y) = Hrs(q.p)
                          \/ Claiming(o, e)
                       /\ (NewSig(o, e) => \A x \in o.claims : x.c = e.c /\ x.hrs = Hrs(q.p) => x.sig = e.sig)
    /\ e.out = "err" => e.empty
    /\ e.f.sigok

(* C06: any threshold suffices, fewer do not. *)
Ok_C06(o, e) ==
  e.e = "ret" =>
    LET q == o.pend[e.id]
        part == {v.c : v \in {w \in o.votes : SameContent(w.p, q.p)}}
    IN /\ (q.calm /\ q.fresh /\ ~q.hurt /\ q.store /\ q.avail >= o.t - 1) => /\ e.out \in {"ok", "crash"}  \* crash: the driver killed the coordinator
             /\ ~e.late                     \* it does not wait for those that do not answer
       /\ (NewSig(o, e) => Cardinality(part) >= o.t)
       /\ e.out # "none"                \* a request that never ends: all later ones wait behind it

(* C07 and C08 *)
RetOk(o, e) ==
  LET q == o.pend[e.id] IN
  /\ e.out = "ok" => /\ ~q.refuse
                     /\ (q.must # "" => e.sig = q.must)
                     /\ (SeenSig(o, e.sig) => Answers(o, e, q))
  /\ e.out = "err" => q.must = "" \/ Evicted(o, q)

Ok_C07(o, e) ==
  /\ e.e = "start" => LET as == Askers(o, e) IN as # {} => \E i \in as : o.pend[i].behind \/ MayStart(o, i)
  /\ (e.e = "ret" /\ (~o.pend[e.id].behind \/ o.pend[e.id].same)) => RetOk(o, e)
  /\ e.e = "twins" =>
       LET ok == {i \in 1..Len(e.outs) : e.outs[i] = "ok"} IN
       (ok # {} /\ e.prompt) => /\ ok = 1..Len(e.outs)
                                /\ \A i, j \in ok : e.sigs[i] = e.sigs[j]

Ok_C08(o, e) ==
  /\ e.e = "start" => LET as == Askers(o, e) IN as # {} => \E i \in as : ~o.pend[i].behind
  /\ (e.e = "ret" /\ o.pend[e.id].behind) => RetOk(o, e)

(* C03: the coordinator's half.  *)
Ok_C03(o, e) ==
  /\ e.e = "ret" /\ e.out = "ok" =>
       LET q == o.pend[e.id] IN
       IF q.store THEN /\ ~Lt(Hrs(e.f), Hrs(q.p))
                       /\ (Hrs(e.f) = Hrs(q.p) => \/ e.f.c = q.p.c
                                                  \/ \E y \in SigsOf(o, e.sig) : e.f.c = y.c)
       ELSE ~NewSig(o, e)
  /\ e.e # "torn"
  /\ e.e = "restart" => e.torn = ""

(* C04: watermarks in the files of a node. *)
Ok_C04(o, e) ==
  /\ e.e = "ret" /\ e.f.h >= 0 => /\ ~Lt(Hrs(e.f), Hrs(o.cs[e.c].f))
                                  /\ ~Lt(Hrs(e.f), o.cs[e.c].saved)
                                  /\ (NewSig(o, e) => ~Lt(Hrs(e.f), Hrs(o.pend[e.id].p)))
  /\ e.e = "lss" => /\ ~Lt(Hrs(e.f), Hrs(e.p)) /\ ~Lt(Hrs(e.cf), Hrs(e.p))
                    /\ ~Lt(Hrs(e.f), Hrs(o.cs[e.c].f)) /\ ~Lt(Hrs(e.cf), Hrs(o.cs[e.c].cf))
  /\ e.e = "restart" => /\ ~Lt(Hrs(e.f), Hrs(o.cs[e.c].f)) /\ ~Lt(Hrs(e.cf), Hrs(o.cs[e.c].cf))
                        /\ ~Lt(Hrs(e.f), o.cs[e.c].saved)

----------------------------------------------------------------------------
Record(x, hrs, p, sig) ==
  LET s2 == Max(x.saved, hrs)
      r2 == IF hrs \in DOMAIN x.rec THEN x.rec ELSE Put(x.rec, hrs, [p |-> p, sig |-> sig])
  IN [x EXCEPT !.saved = s2, !.rec = Retain(r2, s2), !.top = Max(@, hrs)]

FollowStart(o, e) ==
  LET as == Askers(o, e)
      hrs == HrsOfKey(e.k)
      \* when it can be the round of a request for another timestamp, the first is yet to come
      first == IF \E i \in as : Again(o, i) THEN {} ELSE {o.pend[i].p : i \in {j \in as : Leads(o, j)}}
  IN [o EXCEPT !.cs[e.c].tried = Put(@, hrs, At(@, hrs) \cup {o.pend[i].p : i \in as}),
               !.cs[e.c].began = IF first = {} THEN @ ELSE Put(@, hrs, first),
               !.cs[e.c].top = Max(@, hrs)]

FollowRet(o, e) ==
  LET q == o.pend[e.id]
      hrs == Hrs(q.p)
      x == o.cs[e.c]
      lssing == \E i \in DOMAIN o.pend : o.pend[i].lss /\ o.pend[i].c = e.c
      mine == \E b \in At(x.began, hrs) : SameBytes(b, q.p)
      \* the record is that of the round that came first, unless a notification interfered
      x0 == IF q.store THEN [x EXCEPT !.saved = Max(@, hrs), !.rec = Retain(@, Max(x.saved, hrs)), !.top = Max(@, hrs)] ELSE x
      x1 == IF ~(e.out = "ok" /\ e.valid) THEN x
            ELSE IF lssing \/ hrs \in x.amb THEN [x0 EXCEPT !.amb = @ \cup {hrs}]
            ELSE IF mine THEN Record(x, hrs, q.p, e.sig)
            ELSE x0
      x2 == IF e.f.h >= 0 THEN [x1 EXCEPT !.f = FileP(e.f)] ELSE x1
  IN [o EXCEPT !.cs[e.c] = x2,
               !.pend = Drop(@, {e.id}),
               !.claims = @ \cup (IF Claiming(o, e) THEN {[c |-> e.c, hrs |-> hrs, sig |-> e.sig]} ELSE {}),
               !.sigs = @ \cup (IF e.out = "ok" /\ e.valid THEN {[sig |-> e.sig, p |-> q.p]} ELSE {})]

FollowLss(o, e) ==
  LET hrs == Hrs(e.p)
      x == o.cs[e.c]
      conc == "id" \in DOMAIN e
      higher == Lt(x.saved, hrs)
      x1 == IF conc THEN [x EXCEPT !.amb = @ \cup {hrs}, !.saved = Max(@, hrs), !.top = Max(@, hrs),
                                   !.rec = Retain(@, Max(x.saved, hrs))]
            ELSE IF higher THEN Record(x, hrs, e.p, e.sig)
            ELSE [x EXCEPT !.top = Max(@, hrs)]
      x2 == [x1 EXCEPT !.base = IF higher \/ conc THEN Put(@, hrs, At(@, hrs) \cup {e.p}) ELSE @,
                       !.f = FileP(e.f),
                       !.cf = FileP(e.cf)]
  IN [o EXCEPT !.cs[e.c] = x2,
               !.pend = IF conc THEN Drop(@, {e.id}) ELSE @,
               !.gmax = Max(@, hrs),
               !.sigs = @ \cup {[sig |-> e.sig, p |-> e.p]}]

FollowRestart(o, e) ==
  LET fp == FileP(e.f)
      hrs == Hrs(fp)
      have == e.f.sig # ""
  IN [o EXCEPT !.cs[e.c] = [saved |-> hrs, top |-> hrs,
                            rec |-> IF have THEN Put(Empty, hrs, [p |-> fp, sig |-> e.f.sig]) ELSE Empty,
                            amb |-> {}, began |-> Empty, tried |-> Empty,
                            base |-> IF have THEN Put(Empty, hrs, {fp}) ELSE Empty,
                            f |-> fp, cf |-> FileP(e.cf)],
               !.pend = Drop(@, {i \in DOMAIN @ : @[i].c = e.c}),
               !.claims = {x \in @ : x.c # e.c}]

Follow(o, e) ==
  CASE e.e = "reset" -> NewWorld(e.n, e.t)
    [] e.e = "call" -> [o EXCEPT !.pend = Put(@, e.id, Promise(o, e)), !.gmax = Max(@, Hrs(e.p))]
    [] e.e = "start" -> FollowStart(o, e)
    [] e.e = "share" -> IF e.out = "share" THEN [o EXCEPT !.votes = @ \cup {[p |-> e.p, c |-> e.c]}] ELSE o
    [] e.e = "ret" -> FollowRet(o, e)
    [] e.e = "lsscall" -> [o EXCEPT !.pend = Put(@, e.id, [c |-> e.c, p |-> e.p, lss |-> TRUE]),
                                     !.sigs = @ \cup {[sig |-> e.sig, p |-> e.p]}]
    [] e.e = "lss" -> FollowLss(o, e)
    [] e.e = "restart" -> FollowRestart(o, e)
    [] OTHER -> o
============================================================================
