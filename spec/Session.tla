------------------------------ MODULE Session ------------------------------
(* Connections to chain nodes and the guarded validator behind them, as an    *)
(* outside observer sees them.                                                *)
(*                                                                            *)
(* A "connection" is one to a chain node, or one direct caller of the guard.  *)
(* The observer's state o:                                                    *)
(*   up      connections that are there                                       *)
(*   pend    connection -> requests not answered yet, in order                *)
(*   sent    how often each payload was asked for, ever                       *)
(*   entered how often the validator was called for each payload              *)
(*   inside  calls that are in the validator (at most one)                    *)
(*   results payload -> outcomes of validator calls, not yet handed out       *)
(* Events:                                                                    *)
(*   up{n} gone{n}             a connection comes, is broken by the other end *)
(*   send{n,k,p,bad,fresh}     a request; bad: malformed, must be refused;    *)
(*                             fresh: well-formed and ahead of all others     *)
(*   enter{k,p,chain} exit{k,p,out,tok}   the validator is called, returns    *)
(*   recv{n,k,p,err,sig,valid,tok}        a response                          *)
(*   silent{n}   a request is left without response; the other end waited     *)
(*   lost{n}     no connection is made although the other end waits for it    *)
(*   dropped{n}  the signer closed a connection that was in order             *)
(*   crash       the process crashed                                          *)
(*   pair{apart} two requests that take long, over two connections of the     *)
(*               binary, were not in the validator at the same time           *)
(*   marks{m}    the recorded watermark (real validators only)                *)
(* Kinds k: vote proposal pubkey ping odd (no request at all)                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Empty == <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

NewWorld == [up |-> {}, pend |-> Empty, sent |-> Empty, entered |-> Empty, inside |-> <<>>, results |-> Empty, marks |-> <<>>]

Calls == {"vote", "proposal", "pubkey"}    \* what reaches the validator
Pend(o, n) == At(o.pend, n, <<>>)

\* messages that are no requests may or may not be answered
RECURSIVE SkipOdd(_)
SkipOdd(s) == IF s # <<>> /\ Head(s).k = "odd" THEN SkipOdd(Tail(s)) ELSE s
Head2(o, n, e) == IF e.k = "odd" THEN Pend(o, n) ELSE SkipOdd(Pend(o, n))

HasResult(o, p, out, tok) == \E r \in At(o.results, p, {}) : r.out = out /\ (tok = "" \/ r.tok = tok)
Matching(o, e) == {r \in At(o.results, e.p, {}) : r.out = (IF e.err THEN "err" ELSE "ok") /\ (e.tok = "" \/ r.tok = e.tok)}

----------------------------------------------------------------------------
Ok_C14(o, e) ==
  /\ e.e \notin {"silent", "lost", "dropped", "crash"}
  /\ e.e = "recv" =>
       /\ e.n \in o.up
       /\ LET s == Head2(o, e.n, e) IN
          /\ s # <<>>
          /\ LET r == Head(s) IN
             /\ e.k = r.k
             /\ r.k \in {"vote", "proposal"} =>
                  IF e.err THEN ~e.sig /\ (r.bad \/ HasResult(o, r.p, "err", ""))
                  ELSE ~r.bad /\ e.sig /\ e.valid /\ e.p = r.p /\ HasResult(o, r.p, "ok", "")
             /\ r.k = "pubkey" => IF e.err THEN HasResult(o, r.p, "err", "") ELSE e.valid /\ HasResult(o, r.p, "ok", "")
             /\ r.k = "ping" => ~e.err
             /\ r.k = "odd" => ~e.sig
  /\ e.e = "enter" => e.chain

Ok_C15(o, e) ==
  /\ e.e = "enter" => /\ o.inside = <<>>
                      /\ At(o.entered, <<e.k, e.p>>, 0) < At(o.sent, <<e.k, e.p>>, 0)
                      /\ e.chain
  /\ e.e = "exit" => o.inside = <<[k |-> e.k, p |-> e.p]>>
  /\ (e.e = "recv" /\ e.n \in o.up) =>
       LET s == Head2(o, e.n, e) IN
       s # <<>> =>
         LET r == Head(s) IN
         (r.k \in Calls /\ ~r.bad /\ e.k = r.k) =>
            HasResult(o, r.p, IF e.err THEN "err" ELSE "ok", e.tok) /\ (r.k # "pubkey" /\ ~e.err => e.p = r.p)
  /\ e.e = "pair" => e.apart
  /\ e.e \notin {"silent", "crash"}

\* the chain side of C21: malformed messages
Ok_C21(o, e) ==
  /\ e.e \notin {"silent", "lost", "crash"}
  /\ (e.e = "recv" /\ e.n \in o.up) =>
       LET s == Head2(o, e.n, e) IN
       s # <<>> => /\ (Head(s).bad => e.err /\ ~e.sig)
                   /\ (Head(s).fresh => ~e.err /\ e.valid /\ e.p = Head(s).p)
  /\ (e.e = "marks" /\ o.marks # <<>>) => e.m = o.marks[1] \/ e.moved

----------------------------------------------------------------------------
Follow(o, e) ==
  CASE e.e = "reset" -> NewWorld
    [] e.e = "up" -> [o EXCEPT !.up = @ \cup {e.n}, !.pend = Put(@, e.n, <<>>)]
    [] e.e = "gone" -> [o EXCEPT !.up = @ \ {e.n}, !.pend = Put(@, e.n, <<>>)]
    [] e.e = "send" -> [o EXCEPT !.pend = Put(@, e.n, Append(Pend(o, e.n), [k |-> e.k, p |-> e.p, bad |-> e.bad, fresh |-> e.fresh])),
                                 !.sent = IF e.k \in Calls THEN Put(@, <<e.k, e.p>>, 1 + At(@, <<e.k, e.p>>, 0)) ELSE @]
    [] e.e = "enter" -> [o EXCEPT !.inside = Append(@, [k |-> e.k, p |-> e.p]),
                                  !.entered = Put(@, <<e.k, e.p>>, 1 + At(@, <<e.k, e.p>>, 0))]
    [] e.e = "exit" -> [o EXCEPT !.inside = SelectSeq(@, LAMBDA x : x # [k |-> e.k, p |-> e.p]),
                                 !.results = Put(@, e.p, At(@, e.p, {}) \cup {[out |-> e.out, tok |-> e.tok]})]
    [] e.e = "recv" -> LET s == Head2(o, e.n, e) IN
                       IF s = <<>> THEN o
                       ELSE LET r == Head(s)
                                m == Matching(o, [e EXCEPT !.p = r.p])
                            IN [o EXCEPT !.pend = Put(@, e.n, Tail(s)),
                                         !.results = IF r.k \in Calls /\ m # {} THEN Put(@, r.p, @[r.p] \ {CHOOSE x \in m : TRUE}) ELSE @]
    [] e.e = "marks" -> [o EXCEPT !.marks = <<e.m>>]
    [] OTHER -> o
============================================================================
