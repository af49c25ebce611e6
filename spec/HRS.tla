-------------------------------- MODULE HRS --------------------------------
(* Height/round/step order and payloads.                                    *)
(* A payload p is [h, r, s, c, t]: height, round, step, content, timestamp. *)
(* The content c stands for every signed field except the timestamp, so two *)
(* payloads are the same bytes iff they are equal and "differ only by       *)
(* timestamp" iff they agree in everything but t.                           *)
EXTENDS Integers, Sequences, FiniteSets

Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ a[2] < b[2]
            \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Leq(a, b) == a = b \/ Lt(a, b)
Max(a, b) == IF Lt(a, b) THEN b ELSE a

Zero == <<0, 0, 0>>
Hrs(p) == <<p.h, p.r, p.s>>
HrsOfKey(k) == <<k[1], k[2], k[3]>>
Key(p) == <<p.h, p.r, p.s, p.t>>
NoPayload == [h |-> 0, r |-> 0, s |-> 0, c |-> "", t |-> 0]

SameContent(p, q) == Hrs(p) = Hrs(q) /\ p.c = q.c
SameBytes(p, q) == SameContent(p, q) /\ p.t = q.t

ToSet(seq) == {seq[i] : i \in 1..Len(seq)}

\* the function f without the keys in S
Drop(f, S) == [k \in (DOMAIN f) \ S |-> f[k]]
\* f with k mapped to v
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]
============================================================================
