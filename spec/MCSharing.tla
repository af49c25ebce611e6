----------------------------- MODULE MCSharing -----------------------------
(* Sharing a secret by a random polynomial over a small field: any t shares   *)
(* determine it, fewer say nothing about it.  Bugs are wrong designs that the *)
(* monitor must notice.                                                       *)
EXTENDS Sharing, Json, TLCExt

CONSTANTS P,       \* the field: integers modulo a prime
          MaxN, Emit, Bug

VARIABLES o, d, ev
vars == <<o, d, ev>>

F == 0..(P - 1)
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE (x * Pow(x, k - 1)) % P
Inv(x) == CHOOSE y \in F : (x * y) % P = 1
RECURSIVE Eval(_, _)
Eval(c, x) == IF c = <<>> THEN 0 ELSE (c[1] + x * Eval(Tail(c), x)) % P

\* polynomials that may be drawn for threshold t
Degree(t) == CASE Bug = "short" -> IF t > 1 THEN t - 1 ELSE t
               [] Bug = "long" -> t + 1
               [] OTHER -> t
Polys(t) == IF Bug = "constant" THEN {[i \in 1..t |-> IF i = 1 THEN s ELSE 0] : s \in F} ELSE [1..Degree(t) -> F]
At(i) == IF Bug = "fromzero" THEN i - 1 ELSE IF Bug = "twins" /\ i = 2 THEN 1 ELSE i

\* what the holders of the shares in S can find out
Shares(c, S) == [i \in S |-> Eval(c, At(i))]
Secrets(t, c, S) == {q[1] : q \in {q \in Polys(t) : Shares(q, S) = Shares(c, S)}}
\* interpolation at zero, as holders of the shares do it
Lagrange(S, i) == LET num == {j : j \in S \ {i}} IN
  LET RECURSIVE Prod(_)
      Prod(T) == IF T = {} THEN 1 ELSE LET j == CHOOSE j \in T : TRUE IN (j * Inv((j - i + P) % P) * Prod(T \ {j})) % P
  IN Prod(num)
RECURSIVE Sum(_, _, _)
Sum(T, S, sh) == IF T = {} THEN 0 ELSE LET i == CHOOSE i \in T : TRUE IN (sh[i] * Lagrange(S, i) + Sum(T \ {i}, S, sh)) % P
Combine(S, sh) == Sum(S, S, sh)

RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Ordered(S \ {x})

Init == o = Nothing /\ d = [up |-> FALSE, c |-> <<>>] /\ ev = [e |-> "reset"]
Event(e) == ev' = e /\ o' = Follow(o, e)

Refuse(t, n) == /\ ~d.up /\ (Bug = "anything" => t < 1) /\ ~Possible(t, n)
                /\ Event([e |-> "deal", t |-> t, n |-> n, ok |-> FALSE, files |-> 0]) /\ d' = d
Deal(t, n) == /\ ~d.up /\ (Possible(t, n) \/ (Bug = "anything" /\ t >= 1))
              /\ \E c \in Polys(t) : d' = [up |-> TRUE, c |-> c]
              /\ Event([e |-> "deal", t |-> t, n |-> n, ok |-> TRUE, files |-> n])
Share(i) == /\ d.up /\ i \in 1..o.n /\ i \notin o.ids
            /\ Event([e |-> "share", ok |-> TRUE, id |-> i, pub |-> TRUE, pubs |-> o.n, rsa |-> TRUE, rt |-> TRUE, leak |-> FALSE])
            /\ d' = d
\* a set opens if it determines the secret, and can compute it
Set(S) == /\ d.up /\ S # {} /\ S \subseteq 1..o.n /\ o.ids = 1..o.n
          /\ LET all == Secrets(o.t, d.c, S)
                 op == Cardinality(all) = 1 /\ Combine(S, Shares(d.c, S)) = d.c[1]
             IN Event([e |-> "set", ids |-> Ordered(S), opens |-> op, asked |-> TRUE, signs |-> op])
          /\ d' = d
Forget == d.up /\ Event([e |-> "reset"]) /\ d' = [up |-> FALSE, c |-> <<>>]

Next == \/ \E t \in 0..(MaxN + 1), n \in 0..MaxN : Refuse(t, n) \/ Deal(t, n)
        \/ \E i \in 1..MaxN : Share(i) /\ i = Cardinality(o.ids) + 1
        \/ \E S \in SUBSET (1..MaxN) : Set(S)
        \/ Forget
Spec == Init /\ [][Next]_vars

MonitorsHold == [][Ok_C16(o, ev')]_vars
\* fewer than t shares leave every secret possible
Hiding == d.up => \A S \in SUBSET (1..o.n) : Cardinality(S) < o.t => Secrets(o.t, d.c, S) = F

MView == <<o, d>>
PrintEdge == Emit /\ ev'.e = "deal" => PrintT("EDGE " \o ToJson([s |-> 0, d |-> 0, o |-> [op |-> "deal", t |-> ev'.t, n |-> ev'.n]]))
============================================================================
