------------------------------- MODULE Store -------------------------------
(* The replicated key-value store, as an observer of all members sees it.     *)
(*                                                                            *)
(* Events:                                                                    *)
(*   reset                                                                    *)
(*   write{n, op, k, vs, out, role, quorum}  a client wrote (set or del) at   *)
(*        member n, one of the values vs ("" for a deletion); out is "ok",    *)
(*        "error", or "none" if the member died meanwhile; role is that of n  *)
(*        throughout ("leader", "follower", "unknown"); quorum: a majority    *)
(*        was up                                                              *)
(*   get{n, k, v}     member n says that the value of k is v                  *)
(*   settled{ok, held}  a majority was left alone; ok if all that are up came *)
(*        to have applied the same operations in reasonable time; held is     *)
(*        what each of them holds, as [n, m: [key -> value]]                  *)
(*   kill{n}, start{n, ok}, snap{n}  ...                                      *)
(*   stuck{n}         a member did not answer                                 *)
(* Values are written once only, so that they tell which write they are from. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Event == "LSS"   \* the key under which signatures are announced
Members == 1..9

\* log: the writes since all was settled, in order, as [k, vs, sure]; base: what was settled
\* lo: how far each member has come at least; there: the members that were in the last settling, and are up since
\* past: all values ever written, by key
Blank == [log |-> <<>>, base |-> <<>>, lo |-> [n \in Members |-> 0], there |-> Members, past |-> <<>>]

At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE ""
Past(o, k) == IF k \in DOMAIN o.past THEN o.past[k] ELSE {}

\* the position of the last sure write to k up to p; 0 is the settled value
RECURSIVE LastSure(_, _, _)
LastSure(o, k, p) == IF p = 0 THEN 0 ELSE IF o.log[p].k = k /\ o.log[p].sure THEN p ELSE LastSure(o, k, p - 1)
\* what k can be after the first p writes
Can(o, k, p) == LET j == LastSure(o, k, p) IN
  (IF j = 0 THEN {At(o.base, k)} ELSE o.log[j].vs) \cup UNION {o.log[i].vs : i \in {i \in (j + 1)..p : o.log[i].k = k}}
Places(o, n, k, v) == {p \in o.lo[n]..Len(o.log) : v \in Can(o, k, p)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Ok_C12(o, e) ==
  CASE e.e = "write" -> /\ e.role = "follower" => e.out # "ok"
                        /\ e.role = "leader" /\ e.quorum => e.out = "ok"
    [] e.e = "get" -> IF e.k = Event THEN e.v = ""
                      ELSE IF e.n \in o.there THEN Places(o, e.n, e.k, e.v) # {}
                      ELSE e.v \in {""} \cup Past(o, e.k)
    [] e.e = "settled" -> /\ e.ok
                          /\ \A i, j \in 1..Len(e.held) : e.held[i].m = e.held[j].m
                          /\ \A i \in 1..Len(e.held) : \A k \in DOMAIN e.held[i].m :
                               e.held[i].m[k] \in (IF k = Event THEN {""} ELSE Can(o, k, Len(o.log)))
    [] e.e = "start" -> e.ok
    [] e.e = "stuck" -> FALSE
    [] OTHER -> TRUE

\* a write that a member has seen took place
Seen(log, i, v) == IF v # "" /\ i > 0 /\ v \in log[i].vs THEN [log EXCEPT ![i].sure = TRUE] ELSE log

Follow(o, e) ==
  CASE e.e = "reset" -> Blank
    [] e.e = "write" -> IF e.k = Event \/ e.role = "follower" THEN o
                        ELSE LET vs == {e.vs[i] : i \in 1..Len(e.vs)} IN
                             [o EXCEPT !.log = Append(@, [k |-> e.k, vs |-> vs, sure |-> e.out = "ok"]),
                                       !.past = (e.k :> (Past(o, e.k) \cup vs)) @@ @]
    [] e.e = "get" -> IF e.n \notin o.there \/ e.k = Event THEN o
                      ELSE LET at == Places(o, e.n, e.k, e.v) IN
                           IF at = {} THEN o
                           ELSE [o EXCEPT !.lo[e.n] = Min(at), !.log = Seen(@, Min(at), e.v)]
    [] e.e = "settled" -> IF Len(e.held) = 0 THEN o
                          ELSE [o EXCEPT !.log = <<>>, !.base = e.held[1].m, !.lo = [n \in Members |-> 0],
                                         !.there = {e.held[i].n : i \in 1..Len(e.held)}]
    [] e.e = "kill" -> [o EXCEPT !.there = @ \ {e.n}]
    [] OTHER -> o
============================================================================
