----------------------------- MODULE MCCluster ------------------------------
(* A whole cluster: every node has a cosigner and a coordinator, with what     *)
(* they hold in memory and in their files.  Requests come to any node, which   *)
(* does the round with any of the others (leadership is not assumed, so this   *)
(* is more than can happen); nodes stop and start again; word of a signature   *)
(* reaches any node, or none.  No two signatures ever conflict.                *)
(* Keys stand for height/round/step in order.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC, TLCExt

CONSTANTS N, T, Keys, Cs, MaxOps, MaxStops, Emit, Bug

VARIABLES cos,   \* node -> [m, c], the highest key signed and its content
          cosf,  \* the same in its file
          val,   \* node -> [ini, rec], key begun, content of the signatures it has
          valf,  \* node -> [k, c], the last signature in its file
          votes, \* <<key, content, node>>: a share was given
          sigs,  \* <<key, content>>: a signature was made
          n, ev, past
vars == <<cos, cosf, val, valf, votes, sigs, n, ev, past>>

Nodes == 1..N
Nil == ""
NoMark == [m |-> 0, c |-> Nil]
Init == /\ cos = [i \in Nodes |-> NoMark] /\ cosf = cos
        /\ val = [i \in Nodes |-> [ini |-> 0, rec |-> [k \in Keys |-> Nil]]]
        /\ valf = [i \in Nodes |-> [k |-> 0, c |-> Nil]]
        /\ votes = {} /\ sigs = {}
        /\ n = [ops |-> 0, stops |-> 0]
        /\ ev = [op |-> "none"]
        /\ past = <<>>

Note(e) == ev' = e /\ past' = IF Emit THEN Append(past, e) ELSE past
Step(e) == Note(e) /\ n' = [n EXCEPT !.ops = IF MaxOps = 0 THEN 0 ELSE @ + 1] /\ (MaxOps > 0 => n.ops < MaxOps)
Max(a, b) == IF a < b THEN b ELSE a

Allows(i, k, c) == \/ cos[i].m < k
                   \/ cos[i].m = k /\ (cos[i].c = c \/ Bug = "content")
                   \/ Bug = "older"
Marked(x, k, c) == IF x.m < k THEN [m |-> k, c |-> c] ELSE x
\* ways not to have it in the file
Filed(old, x) == CASE Bug = "never" -> old
                   [] Bug = "perheight" /\ (x.m + 1) \div 2 = (old.m + 1) \div 2 -> old
                   [] OTHER -> x
Need == IF Bug = "fewer" THEN T - 1 ELSE T

\* the last signature a node has is in its file
Learnt(v, k, c) == [v EXCEPT !.ini = Max(@, k), !.rec[k] = IF \A j \in Keys : v.rec[j] # Nil => j <= k THEN c ELSE @]
Top(v) == CHOOSE k \in Keys \cup {0} : (k = 0 \/ v.rec[k] # Nil) /\ \A j \in Keys : v.rec[j] # Nil => j <= k
FileOf(v) == IF Top(v) = 0 THEN [k |-> 0, c |-> Nil] ELSE [k |-> Top(v), c |-> v.rec[Top(v)]]

\* a round by node i with the others in q; those that do not take part do not answer
Round(i, k, c, q) ==
  LET all == {i} \cup q
      give == IF Cardinality(all) < Need THEN {} ELSE {j \in all : Allows(j, k, c)}
      done == Cardinality(all) >= Need /\ give = all
      cos2 == [j \in Nodes |-> IF j \in give THEN Marked(cos[j], k, c) ELSE cos[j]]
      v2 == IF done THEN Learnt([val[i] EXCEPT !.ini = Max(@, k)], k, c) ELSE [val[i] EXCEPT !.ini = Max(@, k)]
  IN /\ cos' = cos2
     /\ cosf' = [j \in Nodes |-> IF j \in give THEN Filed(cosf[j], cos2[j]) ELSE cosf[j]]
     /\ votes' = votes \cup {<<k, c, j>> : j \in give}
     /\ sigs' = IF done THEN sigs \cup {<<k, c>>} ELSE sigs
     /\ val' = [val EXCEPT ![i] = v2]
     /\ valf' = IF done THEN [valf EXCEPT ![i] = FileOf(v2)] ELSE valf

Ask(i, k, c, q) ==
  /\ Step([op |-> "ask", i |-> i, k |-> k, c |-> c, q |-> q])
  /\ IF val[i].ini < k \/ Bug = "again"
     THEN Round(i, k, c, q)
     ELSE UNCHANGED <<cos, cosf, val, valf, votes, sigs>>   \* it has an answer, or refuses

Hear(i, k, c) ==
  /\ <<k, c>> \in sigs
  /\ Step([op |-> "hear", i |-> i, k |-> k, c |-> c])
  /\ cos' = [cos EXCEPT ![i] = IF Bug = "hearcos" THEN [m |-> k, c |-> c] ELSE Marked(@, k, c)]
  /\ cosf' = [cosf EXCEPT ![i] = Filed(@, cos'[i])]
  /\ val' = [val EXCEPT ![i] = Learnt(@, k, c)]
  /\ valf' = [valf EXCEPT ![i] = FileOf(val'[i])]
  /\ UNCHANGED <<votes, sigs>>

Restart(i) ==
  /\ n.stops < MaxStops
  /\ Note([op |-> "restart", i |-> i])
  /\ n' = [n EXCEPT !.stops = @ + 1]
  /\ cos' = [cos EXCEPT ![i] = cosf[i]]
  /\ val' = [val EXCEPT ![i] = [ini |-> valf[i].k, rec |-> [k \in Keys |-> IF k = valf[i].k THEN valf[i].c ELSE Nil]]]
  /\ UNCHANGED <<cosf, valf, votes, sigs>>

\* the others that take part: the coordinator goes on with the first T-1, or has too few
Parties(i) == {q \in SUBSET (Nodes \ {i}) : Cardinality(q) = Need - 1} \cup {{}}
Move == \/ \E i \in Nodes, k \in Keys, c \in Cs : \E q \in Parties(i) : Ask(i, k, c, q)
        \/ \E i \in Nodes, x \in sigs : Hear(i, x[1], x[2])
        \/ \E i \in Nodes : Restart(i)

----------------------------------------------------------------------------
NoConflict == /\ \A x, y \in sigs : x[1] = y[1] => x[2] = y[2]
              /\ \A k \in Keys : \A c, d \in Cs :
                   c # d => \/ Cardinality({j \in Nodes : <<k, c, j>> \in votes}) < T
                            \/ Cardinality({j \in Nodes : <<k, d, j>> \in votes}) < T
\* what leads to conflict is looked for up to renaming of nodes and contents
First(e) == Emit /\ past = <<>> => e.op = "ask" /\ e.i = 1 /\ e.c = (CHOOSE c \in Cs : TRUE) /\ e.q \subseteq {2}
Next == (Emit => NoConflict) /\ Move /\ First(ev')
Spec == Init /\ [][Next]_vars
\* every signature has enough shares, and no cosigner ever gives shares for two contents of one key
Backed == \A x \in sigs : Cardinality({j \in Nodes : <<x[1], x[2], j>> \in votes}) >= T
Once == \A v, w \in votes : v[1] = w[1] /\ v[3] = w[3] => v[2] = w[2]
\* what was signed is in the files
Kept == \A v \in votes : cosf[v[3]].m >= v[1] /\ (cosf[v[3]].m = v[1] => cosf[v[3]].c = v[2])
NeverDown == [][\A i \in Nodes : cosf'[i].m >= cosf[i].m /\ valf'[i].k >= valf[i].k]_vars

MView == <<cos, cosf, val, valf, votes, sigs, n>>
\* how a wrong cluster comes to conflict: for the real one to be led the same way
PrintAttack == Emit /\ NoConflict /\ ~NoConflict' => PrintT("EDGE " \o ToJson(past'))
=============================================================================
