----------------------------- MODULE MCOperator -----------------------------
(* The commands as they are meant to work, and wrong ways of doing them that  *)
(* the monitors must notice (Bug).                                            *)
EXTENDS Operator, Json, TLCExt

CONSTANTS Nodes, BadNodes, PeerIds, ShareNums, Chains, Heights,
          Kinds,     \* which commands
          Emit, Bug

VARIABLES o, ev
vars == <<o, ev>>
Tau == [e |-> "tau"]

N(a) == [a |-> a, wf |-> a \notin BadNodes]
P(i, x) == [id |-> i, addr |-> x]
AllNodes == {N(a) : a \in Nodes \cup BadNodes}
Orders(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : s[i] = s[j] => i = j}
OneOrder(S) == CHOOSE s \in Orders(S) : TRUE
Lists(S, max) == {OneOrder(x) : x \in {y \in SUBSET S : y # {} /\ Cardinality(y) <= max}}
PeerLists == Lists({P(i, "p") : i \in PeerIds}, 2) \cup {<<P(CHOOSE i \in PeerIds : TRUE, "p"), P(CHOOSE i \in PeerIds : TRUE, "q")>>}
                \cup {<<P(CHOOSE i \in PeerIds : i > 1, "q")>>}

Init == o = NewHome /\ ev = Tau

Res(ok, cfg, st) == [ok |-> ok, cfg |-> cfg, st |-> st]
No == Res(FALSE, o.cfg, o.st)
S0(chain, kind) == [chain |-> chain, kind |-> kind, f |-> "cos", h |-> 0, r |-> 0, s |-> 0, c |-> NoSig]
Missing(chain, kind) == IF Bug = "initzero" \/ ~Has(o.st, chain, kind) THEN {S0(chain, kind)} ELSE {}
Without(st, chain, kind) == st \ Entry(st, chain, kind)
Rename(st, a, b, kind) == IF Has(st, a, kind) THEN Without(st, a, kind) \cup {[The(st, a, kind) EXCEPT !.chain = b]} ELSE st
Minus(s, t) == SelectSeq(s, LAMBDA x : x \notin t)

Do(cmd, a) ==
  LET c == o.cfg IN
  CASE cmd = "init" ->
         IF (c.has /\ ~a.over /\ Bug # "overwrite") \/ ~Meant(a) THEN No
         ELSE LET st1 == (IF Bug = "initzero" THEN Without(Without(o.st, a.chain, "pv"), a.chain, "share") ELSE o.st)
                  miss == Missing(a.chain, "pv") \cup (IF a.cos THEN Missing(a.chain, "share") ELSE {})
              IN Res(TRUE, [has |-> TRUE, ok |-> TRUE, chain |-> a.chain, home |-> a.home, key |-> a.key, cos |-> a.cos, thr |-> a.thr,
                            shares |-> IF a.cos THEN Len(a.peers) + 1 ELSE 0, listen |-> a.listen, timeout |-> a.timeout,
                            peers |-> a.peers, nodes |-> a.nodes], st1 \cup miss)
    [] ~c.has -> No
    [] cmd = "nodes-add" ->
         LET new == Minus(a.nodes, SetOf(c.nodes)) IN
         IF new = <<>> \/ (~NodesValid(a.nodes) /\ Bug # "badnode") THEN No
         ELSE Res(TRUE, [c EXCEPT !.nodes = IF Bug = "replace" THEN a.nodes ELSE @ \o new], o.st)
    [] cmd = "nodes-remove" ->
         LET left == Minus(c.nodes, SetOf(a.nodes)) IN
         IF (left = <<>> /\ Bug # "emptied") \/ ~NodesValid(a.nodes) THEN No ELSE Res(TRUE, [c EXCEPT !.nodes = left], o.st)
    [] cmd = "peers-add" ->
         LET new == Minus(a.peers, SetOf(c.peers)) IN
         IF ~c.cos \/ new = <<>> THEN No
         ELSE IF ~PeersValid(c.peers \o new, c.shares)
              THEN IF Bug = "errwrites" THEN Res(FALSE, [c EXCEPT !.peers = @ \o new], o.st) ELSE No
              ELSE Res(TRUE, [c EXCEPT !.peers = @ \o new], o.st)
    [] cmd = "peers-remove" ->
         LET left == SelectSeq(c.peers, LAMBDA p : p.id \notin SetOf(a.ids)) IN
         IF ~c.cos \/ left = <<>> THEN No ELSE Res(TRUE, [c EXCEPT !.peers = left], o.st)
    [] cmd = "set-shares" -> IF ~c.cos \/ (~PeersValid(c.peers, a.n) /\ Bug # "anyshares") THEN No ELSE Res(TRUE, [c EXCEPT !.shares = a.n], o.st)
    [] cmd = "chain-set" ->
         IF (a.chain # c.chain /\ (Has(o.st, a.chain, "pv") \/ Has(o.st, a.chain, "share")) /\ Bug # "clobber")
            \/ ~Has(o.st, c.chain, "pv") \/ (c.cos /\ ~Has(o.st, c.chain, "share"))
         THEN IF Bug = "half" THEN Res(FALSE, c, Rename(o.st, c.chain, a.chain, "pv")) ELSE No
         ELSE LET clear == IF Bug = "clobber" THEN Without(Without(o.st, a.chain, "pv"), a.chain, "share") ELSE o.st
                  st1 == Rename(clear, c.chain, a.chain, "pv")
              IN Res(TRUE, [c EXCEPT !.chain = a.chain], IF Bug = "pvonly" THEN st1 ELSE Rename(st1, c.chain, a.chain, "share"))
    [] cmd = "state-set" ->
         LET bad == \E k \in {"pv", "share"} : ~Has(o.st, c.chain, k) \/ ~Lt(Hrs(The(o.st, c.chain, k)), <<a.h, 0, 0>>)
             ns(k) == [chain |-> c.chain, kind |-> k, f |-> "cos", h |-> a.h, r |-> 0, s |-> 0, c |-> NoSig]
         IN IF bad /\ Bug # "lower" THEN (IF Bug = "quiet" THEN Res(TRUE, c, o.st) ELSE No)
            ELSE IF Bug = "setone" THEN Res(TRUE, c, Without(o.st, c.chain, "pv") \cup {ns("pv")})
            ELSE Res(TRUE, c, Without(Without(o.st, c.chain, "pv"), c.chain, "share") \cup {ns("pv"), ns("share")})
    [] OTHER -> Res(TRUE, c, o.st)

Cmd(cmd, a) ==
  /\ cmd \in Kinds
  /\ LET r == Do(cmd, a)
         e == [e |-> "cmd", cmd |-> cmd, args |-> a, ok |-> r.ok, same |-> (r.cfg = o.cfg), other |-> TRUE, running |-> FALSE, fault |-> "", cfg |-> r.cfg,
               st |-> OneOrder(r.st)]
     IN ev' = e /\ o' = Follow(o, e)

\* A command that is killed, or that the system fails: the states of another chain id are written first, then the configuration,
\* then what is not needed any more is removed. Each file is replaced as a whole.
Stages(cmd, a) ==
  LET c == o.cfg
      r == Do(cmd, a)
      torn == [c EXCEPT !.ok = FALSE, !.chain = "", !.peers = <<>>, !.nodes = <<>>]
  IN IF ~r.ok THEN {}
     ELSE {[cfg |-> c, st |-> o.st], [cfg |-> r.cfg, st |-> r.st]}
          \cup (IF cmd = "state-set" THEN {[cfg |-> c, st |-> Without(o.st, c.chain, "pv") \cup Entry(r.st, c.chain, "pv")]} ELSE {})
          \cup (IF cmd = "init" THEN {[cfg |-> c, st |-> r.st]} ELSE {})
          \cup (IF cmd = "chain-set" THEN {[cfg |-> x, st |-> o.st \cup r.st] : x \in {c, r.cfg}} ELSE {})
          \cup (IF Bug = "movefirst" THEN {[cfg |-> c, st |-> r.st]} ELSE {})
          \cup (IF Bug = "moveafter" THEN {[cfg |-> r.cfg, st |-> o.st]} ELSE {})
          \cup (IF Bug = "tear" /\ c.has THEN {[cfg |-> torn, st |-> o.st]} ELSE {})
Cut(cmd, a, how) ==
  /\ cmd \in Kinds /\ "cut" \in Kinds
  /\ \E x \in Stages(cmd, a) :
       /\ (how = "error" /\ Bug # "errleaves") => x.cfg = o.cfg
       /\ LET e == [e |-> "cmd", cmd |-> cmd, args |-> a, ok |-> FALSE, same |-> (x.cfg = o.cfg), other |-> FALSE, running |-> FALSE, fault |-> how,
                    cfg |-> x.cfg, st |-> OneOrder(x.st)]
          IN ev' = e /\ o' = Follow(o, e)

\* signers write sign states
Seed(chain, kind, h) ==
  /\ "seed" \in Kinds /\ Has(o.st, chain, kind) /\ Lt(Hrs(The(o.st, chain, kind)), <<h, 0, 2>>)
  /\ LET e == [e |-> "seed", st |-> OneOrder(Without(o.st, chain, kind) \cup {[chain |-> chain, kind |-> kind, f |-> "cos", h |-> h, r |-> 0, s |-> 2, c |-> "sig"]})]
     IN ev' = e /\ o' = Follow(o, e)

NodeLists == Lists(AllNodes, 2)
InitArgs == {[over |-> v, cos |-> c, chain |-> x, nodes |-> ns, peers |-> ps, pwf |-> TRUE, lwf |-> TRUE, twf |-> TRUE, thr |-> 2,
              listen |-> "l", timeout |-> "1s", home |-> "h", key |-> ""] :
             v \in BOOLEAN, c \in BOOLEAN, x \in Chains, ns \in {<<n>> : n \in AllNodes}, ps \in {x2 \in PeerLists : Len(x2) = 2 \/ Cardinality(PeerIds) = 1}}

Run(cmd, a) == Cmd(cmd, a) \/ \E how \in {"kill", "error"} : Cut(cmd, a, how)
Next == \/ \E a \in InitArgs : Run("init", a)
        \/ \E ns \in NodeLists : Run("nodes-add", [nodes |-> ns]) \/ Run("nodes-remove", [nodes |-> ns])
        \/ \E ps \in PeerLists : Run("peers-add", [peers |-> ps, pwf |-> TRUE])
        \/ \E ids \in Lists(PeerIds, 2) : Run("peers-remove", [ids |-> ids, wf |-> TRUE])
        \/ \E n \in ShareNums : Run("set-shares", [n |-> n, wf |-> TRUE])
        \/ \E x \in Chains : Run("chain-set", [chain |-> x])
        \/ \E h \in Heights : Run("state-set", [h |-> h])
        \/ Cmd("state-show", [x |-> ""])
        \/ \E x \in Chains, k \in {"pv", "share"}, h \in Heights : Seed(x, k, h)
Spec == Init /\ [][Next]_vars

MonitorsHold == [][ev'.e # "tau" => Ok_C17(o, ev') /\ Ok_C18(o, ev')]_vars
\* whatever happened, the chain id that is configured has its states, and so the single signer never starts from nothing
StatesThere == (o.cfg.has /\ o.cfg.ok) => Has(o.st, o.cfg.chain, "pv") /\ (o.cfg.cos => Has(o.st, o.cfg.chain, "share"))
AlwaysValid == o.cfg.has => Valid(o.cfg)
NeverLower == [][\A x \in o.st, y \in o'.st : (x.chain = y.chain /\ x.kind = y.kind) => ~Lt(Hrs(y), Hrs(x))]_vars

MView == o
OpOf == IF ev'.e = "cmd" THEN [op |-> ev'.cmd, args |-> ev'.args] ELSE [op |-> "seed", st |-> ev'.st]
PrintEdge == Emit => PrintT("EDGE " \o ToJson([s |-> TLCFP(MView), d |-> TLCFP(MView'), o |-> OpOf]))
============================================================================
