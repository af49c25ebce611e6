---------------------------- MODULE MCCosigner ----------------------------
(* The cosigner of Cosigner.tla on small sets of payloads.                  *)
(*                                                                          *)
(* Mode "design":  every operation gives the result the design gives.       *)
(*   Checked: each result satisfies every Ok_Cxx (so the monitors hold of   *)
(*   the design), and the global properties below.  The edges of the state  *)
(*   graph are printed; each is replayed on real cosigners.                 *)
(* Mode "monitor": an operation gives any result whatsoever that satisfies  *)
(*   the Ok_Cxx.  Checked: the global properties.  So a cosigner whose      *)
(*   results always satisfy the monitors never double signs, never goes     *)
(*   back, and never uses a nonce twice.                                    *)
EXTENDS Cosigner, TLC, Json

CONSTANTS Mode,       \* "design" or "monitor"
          Hs, Rs, Ss, Cs, Ts,
          MaxLive,    \* live nonces
          MaxRel,     \* released shares (monitor mode)
          Emit,       \* print edges
          Without     \* monitors left out, to see that they matter

VARIABLES g, file, rel, n, ev
vars == <<g, file, rel, n, ev>>

Payloads == [h : Hs, r : Rs, s : Ss, c : Cs, t : Ts]
ZeroF == [h |-> 0, r |-> 0, s |-> 0, c |-> "", t |-> 0]
KeysOf == {Key(p) : p \in Payloads}

\* the part another cosigner deals at key k, always the same
PartAt(k) == "P" \o ToString(k)

Parts(k) == { << >>,
              << [src |-> 2, valid |-> TRUE, id |-> PartAt(k)] >>,
              << [src |-> 2, valid |-> FALSE, id |-> PartAt(k)] >> }

Gets  == {[e |-> "get", k |-> k] : k \in KeysOf}
Signs == {[e |-> "sign", p |-> p, k |-> Key(p), wf |-> TRUE, parts |-> ps, store |-> TRUE] :
            p \in Payloads, ps \in UNION {Parts(k) : k \in KeysOf}}
\* parts sent under another request key than that of the payload
Moved == {[e |-> "sign", p |-> p, k |-> k, wf |-> TRUE,
           parts |-> << [src |-> 2, valid |-> TRUE, id |-> PartAt(k)] >>, store |-> TRUE] : p \in Payloads, k \in KeysOf}
Ill   == {[e |-> "sign", p |-> p, k |-> Key(p), wf |-> FALSE, parts |-> << >>, store |-> TRUE] : p \in Payloads}
Broke == {[e |-> "sign", p |-> p, k |-> Key(p), wf |-> TRUE,
           parts |-> << [src |-> 2, valid |-> TRUE, id |-> PartAt(Key(p))] >>, store |-> FALSE] : p \in Payloads}
Lsss  == {[e |-> "lss", p |-> p] : p \in Payloads}
Boot  == {[e |-> "restart"]}

GoodParts(o) == \A i \in 1..Len(o.parts) : o.parts[i].id = PartAt(o.k)
Ops == Gets \cup {o \in Signs : GoodParts(o)} \cup Moved \cup Ill \cup Broke \cup Lsss \cup Boot

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
New(i) == "N" \o ToString(i)
ShareId(p, own, gs) == "S" \o ToString(<<p, own, gs>>)
EphId(own, gs) == "E" \o ToString(<<own, gs>>)

----------------------------------------------------------------------------
(* results *)
GetRes(o, id) == o @@ [out |-> "ok", id |-> id, complete |-> TRUE, consistent |-> TRUE, hidden |-> TRUE, private |-> TRUE]

SignErr(o, f) == o @@ [out |-> "err", share |-> "", eph |-> "", cand |-> << >>, f |-> f]
SignOld(o, f) == o @@ [out |-> "share", share |-> g.rec.share, eph |-> g.rec.eph, cand |-> << >>, f |-> f]
SignNew(o, f, own, gs) == o @@ [out |-> "share", share |-> ShareId(o.p, own, gs), eph |-> EphId(own, gs),
                                cand |-> << [g |-> SetToSeq(gs), own |-> own, k |-> "yes"] >>, f |-> f]

FileOf(p) == [h |-> p.h, r |-> p.r, s |-> p.s, c |-> p.c, t |-> p.t]

Advance(p) == IF Lt(Hrs(file), Hrs(p)) THEN FileOf(p) ELSE file

DesignRes(o) ==
  CASE o.e = "get" -> {GetRes(o, IF NonceAt(g, o.k) = "?" THEN New(n) ELSE NonceAt(g, o.k))}
    [] o.e = "lss" -> {o @@ [out |-> "ok", f |-> Advance(o.p)]}
    [] o.e = "restart" -> {o @@ [out |-> "ok", f |-> file]}
    [] o.e = "sign" ->
         IF DesignOut(g, o) = "err" THEN {SignErr(o, file)}
         ELSE IF Repeat(g, o) THEN {SignOld(o, file)}
         ELSE IF ~o.store /\ Hrs(o.p) # g.max THEN {SignErr(o, file)}
         ELSE {SignNew(o, Advance(o.p), IF NonceAt(g, Key(o.p)) = "?" THEN New(n) ELSE NonceAt(g, Key(o.p)),
                       GivenAt(g, Key(o.p)) \cup (IF o.k = Key(o.p) THEN PartIds(o) ELSE {}))}

Owns == {New(n)} \cup g.seen
AnyRes(o) ==
  CASE o.e = "get" -> {GetRes(o, id) : id \in Owns}
    [] o.e = "lss" -> {o @@ [out |-> "ok", f |-> Advance(o.p)]}
    [] o.e = "restart" -> {o @@ [out |-> "ok", f |-> file]}
    [] o.e = "sign" -> {SignErr(o, file)} \cup
         (IF g.rec.on THEN {SignOld(o, file)} ELSE {}) \cup
         {SignNew(o, f, own, gs) : f \in {file, FileOf(o.p)}, own \in Owns,
            gs \in SUBSET (GivenAt(g, Key(o.p)) \cup PartIds(o))}

Good(x, e) == /\ "C02" \in Without \/ Ok_C02(x, e)
              /\ "C03" \in Without \/ Ok_C03(x, e)
              /\ "C09" \in Without \/ Ok_C09(x, e)
              /\ "C10" \in Without \/ Ok_C10(x, e)
              /\ "C21" \in Without \/ Ok_C21(x, e)
              /\ "C22" \in Without \/ Ok_C22(x, e)

Init == g = Start /\ file = ZeroF /\ rel = {} /\ n = 1 /\ ev = [e |-> "none"]

RelOf(e) == IF Released(e) /\ ~IsCached(g, e)
            THEN {[p |-> e.p, wf |-> e.wf, share |-> e.share, own |-> e.cand[1].own, good |-> AllValid(e)]}
            ELSE {}
Learned(e) == IF e.e = "lss" /\ Lt(g.max, Hrs(e.p)) THEN {[p |-> e.p, wf |-> TRUE, share |-> "", own |-> "", good |-> TRUE]} ELSE {}

Step(o) == \E e \in (IF Mode = "design" THEN DesignRes(o) ELSE {r \in AnyRes(o) : Good(g, r)}) :
             /\ ev' = e
             /\ g' = Follow(g, e)
             /\ file' = IF e.e = "get" THEN file ELSE e.f
             /\ rel' = rel \cup RelOf(e) \cup Learned(e)
             /\ n' = n + 1

Next == \E o \in Ops : Step(o)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Bound == /\ Cardinality(DOMAIN g.non) <= MaxLive
         /\ Mode = "monitor" => Cardinality(rel) <= MaxRel /\ n <= MaxRel + MaxLive + 2

\* the design satisfies the monitors
MonitorsHold == [][Good(g, ev') /\ (ev'.e # "get" => ~Lt(Hrs(file'), Hrs(file)) /\ ~Lt(Hrs(file'), g'.max))]_vars

\* no two released shares (or learned signatures) contradict
NoDoubleSign == \A a, b \in rel : Hrs(a.p) = Hrs(b.p) => a.p.c = b.p.c
NoNonceReuse == \A a, b \in rel : a.own = b.own /\ a.own # "" => a = b
OnlyGood == \A a \in rel : a.wf /\ a.good
Stored == \A a \in rel : Covers(file, a.p)
\* nothing is released below what was released or learned
Forward == [][\A a \in rel' \ rel : \A b \in rel : ~Lt(Hrs(a.p), Hrs(b.p))]_vars

----------------------------------------------------------------------------
(* For exploring the design, states that differ only in identities are one.   *)
Live == {<<k, g.non[k].id # "?", g.non[k].given # {}>> : k \in DOMAIN g.non}
DView == <<g.max, g.maxC, g.rec.on, IF g.rec.on THEN g.rec.p.t ELSE 0, Live>>
MView == <<g, file, rel, n>>

OpOf(e) == CASE e.e = "get" -> [op |-> "get", k |-> e.k]
             [] e.e = "sign" -> [op |-> IF e.store THEN "sign" ELSE "breakstore", p |-> e.p, k |-> e.k, wf |-> e.wf,
                                 parts |-> e.parts, out |-> e.out]
             [] e.e = "lss" -> [op |-> "lss", p |-> e.p]
             [] OTHER -> [op |-> e.e]
PrintEdge == Emit => PrintT("EDGE " \o ToJson([s |-> ToString(DView), d |-> ToString(DView'), o |-> OpOf(ev')]))
============================================================================
