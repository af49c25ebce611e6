--------------------------- MODULE CosignerTrace ---------------------------
(* Checks recorded executions of real cosigners against Cosigner.tla.       *)
EXTENDS Cosigner, TLC, Json, IOUtils

Prop == IOEnv.PROP
R == INSTANCE Remote
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,    \* next line
          st,   \* cosigner -> state
          obs   \* cosigner -> last watermarks seen in file and memory
vars == <<l, st, obs>>

ZeroW == [h |-> 0, r |-> 0, s |-> 0, c |-> "", t |-> 0]

Ok(g, e) ==
  CASE Prop = "C02" -> Ok_C02(g, e)
    [] Prop = "C03" -> Ok_C03(g, e)
    [] Prop = "C09" -> Ok_C09(g, e)
    [] Prop = "C10" -> Ok_C10(g, e)
    [] Prop = "C22" -> Ok_C22(g, e)
    [] Prop = "C21" -> Ok_C21(g, e)
    \* over the network it is the same cosigner
    [] Prop = "C23" -> Ok_C02(g, e) /\ Ok_C03(g, e) /\ Ok_C09(g, e) /\ Ok_C10(g, e) /\ Ok_C22(g, e)
    [] OTHER -> TRUE

RECURSIVE Fold(_, _, _)
\* the results of ops, taken in the order given, are all allowed: << >>, or <<end state>>
Fold(g, ops, order) ==
  IF order = << >> THEN <<g>>
  ELSE LET e == ops[Head(order)]
       IN IF Ok(g, e) THEN Fold(Follow(g, e), ops, Tail(order)) ELSE << >>

Orders(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}

Whole(e) == "f" \in DOMAIN e /\ "m" \in DOMAIN e
Broken(e) == e.e = "sign" /\ ~e.store

Init == l = 1 /\ st = Empty /\ obs = Empty

Reset(e) == /\ e.e = "reset"
            /\ st' = [i \in 1..e.n |-> Start]
            /\ obs' = [i \in 1..e.n |-> [f |-> ZeroW, m |-> ZeroW]]

Seen(e) == IF Whole(e) /\ ~Broken(e) THEN Put(obs, e.c, [f |-> e.f, m |-> e.m]) ELSE obs

\* and serves what it would serve; of requests at the same time one may spoil the other's nonce
Served(g, e) == Prop = "C23" => Ok_C21(g, e)

Watermarks(g2, e) == Prop = "C04" /\ Whole(e) /\ ~Broken(e) => Ok_C04(g2, e, obs[e.c].f, obs[e.c].m)
\* an ill-formed request leaves the watermarks as they were
Unmoved(e) == Prop = "C21" /\ e.e = "sign" /\ ~e.wf => e.f = obs[e.c].f /\ e.m = obs[e.c].m
NotTorn(e) == Prop = "C03" /\ Whole(e) => e.torn = ""

Single(e) == /\ e.e \in {"get", "sign", "lss", "restart"}
             /\ Ok(st[e.c], e)
             /\ st' = [st EXCEPT ![e.c] = Follow(@, e)]
             /\ Watermarks(Follow(st[e.c], e), e)
             /\ NotTorn(e)
             /\ Unmoved(e)
             /\ Served(st[e.c], e)
             /\ obs' = Seen(e)

\* concurrent operations: as if done in some order
Batch(e) == /\ e.e = "batch"
            /\ \E o \in Orders(Len(e.ops)) :
                 LET r == Fold(st[e.c], e.ops, o)
                 IN /\ r # << >>
                    /\ Watermarks(r[1], e)
                    /\ st' = [st EXCEPT ![e.c] = r[1]]
            /\ NotTorn(e)
            /\ obs' = Seen(e)

\* asked directly and over the network
Pair(e) == e.e = "pair" /\ (Prop = "C23" => R!Ok_C23(e)) /\ UNCHANGED <<st, obs>>

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN Reset(e) \/ Single(e) \/ Batch(e) \/ Pair(e)

Spec == Init /\ [][Next]_vars

\* remember how far we got; run with one worker
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == /\ PrintT(<<"PROGRESS", TLCGet(1), Len(Trace)>>)
            /\ TLCGet(1) = Len(Trace) + 1
============================================================================
