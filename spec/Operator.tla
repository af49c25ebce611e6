------------------------------ MODULE Operator ------------------------------
(* The operator's commands on a home directory: configuration and sign state. *)
(*                                                                            *)
(* The observer's state o:                                                    *)
(*   cfg   the configuration file: [has |-> FALSE] or                         *)
(*         [has, ok (it parses), chain, home, key, cos (a cosigner's), thr,   *)
(*          shares, listen, timeout, peers: seq of [id, addr],                *)
(*          nodes: seq of [a, wf]]                                            *)
(*   st    set of sign states [chain, kind ("pv","share"), f, h, r, s, c]:    *)
(*         f: form ("cos", "pv": the single signer's, "bad": not readable),   *)
(*         watermark and a digest of what was signed                          *)
(* Events:                                                                    *)
(*   seed{st}   the sign states were written by signers (or by hand)          *)
(*   cmd{cmd, args, ok, same, other, running, cfg, st}  a command, how it     *)
(*         ended, and what was there afterwards; same: the configuration file *)
(*         is the same byte by byte; other: so are the other files of the     *)
(*         home directory; running: a signer runs; fault: "" or what happened *)
(*         to it: "error" a call of the system failed, "kill" it was killed   *)
(* Heights are ranks: only their order matters.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SetOf(s) == {s[i] : i \in 1..Len(s)}
NoCfg == [has |-> FALSE]
NewHome == [cfg |-> NoCfg, st |-> {}]

Hrs(x) == <<x.h, x.r, x.s>>
Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))
Data(x) == [h |-> x.h, r |-> x.r, s |-> x.s, c |-> x.c]
Entry(st, chain, kind) == {x \in st : x.chain = chain /\ x.kind = kind}
Has(st, chain, kind) == Entry(st, chain, kind) # {}
The(st, chain, kind) == CHOOSE x \in st : x.chain = chain /\ x.kind = kind
NoSig == ""

Ids(ps) == {ps[i].id : i \in 1..Len(ps)}
Distinct(s) == Cardinality(SetOf(s)) = Len(s)
DistinctIds(ps) == Cardinality(Ids(ps)) = Len(ps)
PeersValid(ps, n) == DistinctIds(ps) /\ (\A i \in Ids(ps) : i \in 1..n) /\ Len(ps) < n
NodesValid(ns) == \A i \in 1..Len(ns) : ns[i].wf
Valid(c) == /\ c.ok /\ c.chain # ""
            /\ NodesValid(c.nodes)
            /\ c.cos => PeersValid(c.peers, c.shares)

\* c and d differ at most in the field f
Else(c, d, f) ==
  /\ f # "chain" => c.chain = d.chain
  /\ f # "shares" => c.shares = d.shares
  /\ f # "peers" => SetOf(c.peers) = SetOf(d.peers)
  /\ f # "nodes" => SetOf(c.nodes) = SetOf(d.nodes)
  /\ c.cos = d.cos /\ c.thr = d.thr /\ c.listen = d.listen /\ c.timeout = d.timeout /\ c.home = d.home /\ c.key = d.key

Meant(a) == IF a.cos THEN a.pwf /\ a.lwf /\ a.twf /\ NodesValid(a.nodes) /\ PeersValid(a.peers, Len(a.peers) + 1) /\ a.thr <= Len(a.peers) + 1 /\ a.chain # ""
            ELSE a.nodes # <<>> /\ NodesValid(a.nodes) /\ a.chain # ""

\* nothing is in the list twice unless it was before, or was asked for twice
NotTwice(old, asked, new) == Distinct(old) /\ Distinct(asked) => Distinct(new)

\* what a command may do to the configuration when it succeeds
Effect(o, e) ==
  LET a == e.args
      c == o.cfg
      d == e.cfg
  IN CASE e.cmd = "init" ->
            /\ c.has => a.over
            /\ d.has /\ Meant(a) /\ d.chain = a.chain /\ SetOf(d.nodes) = SetOf(a.nodes) /\ NotTwice(<<>>, a.nodes, d.nodes) /\ d.cos = a.cos /\ d.key = a.key /\ d.home = a.home
            /\ a.cos => d.thr = a.thr /\ d.listen = a.listen /\ d.timeout = a.timeout /\ SetOf(d.peers) = SetOf(a.peers) /\ d.shares = Len(a.peers) + 1
       [] ~c.has -> ~d.has
       [] e.cmd = "nodes-add" -> NodesValid(a.nodes) /\ Else(c, d, "nodes") /\ SetOf(d.nodes) = SetOf(c.nodes) \cup SetOf(a.nodes) /\ NotTwice(c.nodes, a.nodes, d.nodes)
       [] e.cmd = "nodes-remove" -> Else(c, d, "nodes") /\ SetOf(d.nodes) = SetOf(c.nodes) \ SetOf(a.nodes) /\ d.nodes # <<>> /\ NotTwice(c.nodes, <<>>, d.nodes)
       [] e.cmd = "peers-add" -> a.pwf /\ Else(c, d, "peers") /\ SetOf(d.peers) = SetOf(c.peers) \cup SetOf(a.peers)
       [] e.cmd = "peers-remove" -> a.wf /\ Else(c, d, "peers") /\ SetOf(d.peers) = {p \in SetOf(c.peers) : p.id \notin SetOf(a.ids)} /\ d.peers # <<>>
       [] e.cmd = "set-shares" -> a.wf /\ Else(c, d, "shares") /\ d.shares = a.n
       [] e.cmd = "chain-set" -> Else(c, d, "chain") /\ d.chain = a.chain
       [] OTHER -> e.same /\ d = c

\* requests that nothing speaks against
Plain(o, e) ==
  LET a == e.args
      c == o.cfg
  IN CASE e.fault # "" -> FALSE
       [] e.cmd = "init" -> Meant(a) /\ (c.has => a.over)
       [] ~c.has -> FALSE
       [] e.cmd = "nodes-add" -> a.nodes # <<>> /\ NodesValid(a.nodes) /\ Distinct(a.nodes) /\ ~(SetOf(a.nodes) \subseteq SetOf(c.nodes))
       [] e.cmd = "nodes-remove" -> NodesValid(a.nodes) /\ NodesValid(c.nodes) /\ ~(SetOf(c.nodes) \subseteq SetOf(a.nodes))
       [] e.cmd = "peers-add" -> /\ c.cos /\ a.pwf /\ Distinct(a.peers) /\ ~(SetOf(a.peers) \subseteq SetOf(c.peers))
                                 /\ PeersValid(c.peers \o SelectSeq(a.peers, LAMBDA x : x \notin SetOf(c.peers)), c.shares)
       [] e.cmd = "peers-remove" -> c.cos /\ a.wf /\ ~(Ids(c.peers) \subseteq SetOf(a.ids)) /\ PeersValid(c.peers, c.shares)
       [] e.cmd = "set-shares" -> c.cos /\ a.wf /\ PeersValid(c.peers, a.n)
       [] e.cmd = "chain-set" -> /\ a.chain # c.chain /\ a.chain # "" /\ ~Has(o.st, a.chain, "pv") /\ ~Has(o.st, a.chain, "share")
                                 /\ Has(o.st, c.chain, "pv") /\ (c.cos => Has(o.st, c.chain, "share"))
       [] e.cmd = "state-set" -> /\ ~e.running
                                 /\ \A k \in {"pv", "share"} : /\ Has(o.st, c.chain, k)
                                                               /\ LET x == The(o.st, c.chain, k) IN x.f = "cos" /\ Lt(Hrs(x), <<a.h, 0, 0>>)
       [] OTHER -> FALSE

----------------------------------------------------------------------------
Ok_C17(o, e) ==
  e.e = "cmd" =>
    /\ ~e.ok => e.same \/ (e.fault = "kill" /\ e.cfg.has /\ e.cfg.ok /\ Effect(o, e))
    /\ e.other \/ e.fault # ""
    /\ (e.cfg.has /\ (~o.cfg.has \/ Valid(o.cfg))) => Valid(e.cfg)
    /\ e.ok => Effect(o, e)
    /\ (Plain(o, e) /\ e.cmd # "state-set") => e.ok

NewSt(e) == SetOf(e.st)
Zero(x) == Hrs(x) = <<0, 0, 0>> /\ x.c = NoSig
\* cut short: the chain id that is configured then has the watermarks, or higher ones if that was asked for
Kept(o, e) ==
  LET a == e.args
      ch == o.cfg.chain
      raised == IF e.cmd = "state-set" THEN {[h |-> a.h, r |-> 0, s |-> 0, c |-> NoSig]} ELSE {}
      now == IF e.cfg.has /\ e.cfg.ok THEN {e.cfg.chain} ELSE {ch} \cup (IF e.cmd = "chain-set" THEN {a.chain} ELSE {})
  IN \A k \in {"pv", "share"} :
       Has(o.st, ch, k) =>
         LET x == The(o.st, ch, k) IN
         \E n \in now : /\ Has(NewSt(e), n, k)
                        /\ LET y == Data(The(NewSt(e), n, k)) IN y = Data(x) \/ (y \in raised /\ Lt(Hrs(x), Hrs(y)))

Ok_C18(o, e) ==
  e.e = "cmd" =>
    LET a == e.args
        old == o.st
        new == NewSt(e)
        ch == IF o.cfg.has THEN o.cfg.chain ELSE ""
    IN CASE e.fault # "" /\ ~e.ok /\ e.cmd \in {"state-set", "chain-set"} ->
              /\ o.cfg.has => Kept(o, e)
              /\ {x \in old : x.chain \notin {ch} \cup (IF e.cmd = "chain-set" THEN {a.chain} ELSE {})} \subseteq new
              /\ e.cmd = "chain-set" /\ a.chain # ch => \A k \in {"pv", "share"} : Has(old, a.chain, k) => The(old, a.chain, k) \in new
         [] e.cmd = "state-set" ->
              IF ~e.ok THEN new = old /\ ~Plain(o, e)
              ELSE /\ ~e.running
                   /\ \A k \in {"pv", "share"} :
                        /\ Has(old, ch, k) /\ Has(new, ch, k)
                        /\ The(old, ch, k).f # "bad" /\ Lt(Hrs(The(old, ch, k)), <<a.h, 0, 0>>)
                        /\ Data(The(new, ch, k)) = [h |-> a.h, r |-> 0, s |-> 0, c |-> NoSig]
                   /\ {x \in old : x.chain # ch} = {x \in new : x.chain # ch}
         [] e.cmd = "init" ->
              /\ old \subseteq new
              /\ \A x \in new \ old : Zero(x) /\ x.chain = a.chain
              /\ e.ok => Has(new, a.chain, "pv") /\ (a.cos => Has(new, a.chain, "share"))
         [] e.cmd = "chain-set" ->
              IF ~e.ok THEN new = old /\ ~Plain(o, e)
              ELSE /\ o.cfg.has
                   /\ \A k \in {"pv", "share"} :
                        Has(old, ch, k) => Has(new, a.chain, k) /\ Data(The(new, a.chain, k)) = Data(The(old, ch, k))
                   /\ {x \in old : x.chain \notin {ch, a.chain}} = {x \in new : x.chain \notin {ch, a.chain}}
                   /\ a.chain # ch => \A k \in {"pv", "share"} : Has(old, a.chain, k) => The(old, a.chain, k) \in new
         [] OTHER -> new = old

----------------------------------------------------------------------------
Follow(o, e) ==
  CASE e.e = "reset" -> NewHome
    [] e.e = "seed" -> [o EXCEPT !.st = SetOf(e.st)]
    [] e.e = "cmd" -> [cfg |-> e.cfg, st |-> SetOf(e.st)]
    [] OTHER -> o
============================================================================
