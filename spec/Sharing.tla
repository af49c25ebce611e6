------------------------------ MODULE Sharing ------------------------------
(* Sharding a validator key into shares.                                      *)
(*                                                                            *)
(* The observer's state o: [t, n, ids] of the sharding at hand.               *)
(* Events:                                                                    *)
(*   reset                                                                    *)
(*   deal{t, n, ok, files}   a key was to be sharded into n shares, of which  *)
(*        t suffice; whether that was done, and how many files there are      *)
(*   share{ok, id, pub, pubs, rsa, rt, leak}   one of the files: it can be    *)
(*        read, its id, it names the original public key, how many            *)
(*        communication keys it lists, its private one is the one that every  *)
(*        share lists for its id, written again and read again it is the      *)
(*        same, and it holds the key itself or what belongs to another        *)
(*   set{ids, opens, asked, signs}   the shares with these ids: they          *)
(*        interpolate to the original key; cosigners that have them were      *)
(*        asked for a signature, and it verifies                              *)
(*   again{same}     the key was sharded again, and something came out twice  *)
(* Numbers that do not fit are -1.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nothing == [t |-> 0, n |-> 0, ids |-> {}]
MaxShares == 255
Possible(t, n) == 1 <= t /\ t <= n /\ n <= MaxShares

Ok_C16(o, e) ==
  CASE e.e = "deal" -> IF e.ok THEN Possible(e.t, e.n) /\ e.files = e.n ELSE ~Possible(e.t, e.n)
    [] e.e = "share" -> /\ e.ok /\ e.pub /\ e.rsa /\ e.rt /\ ~e.leak
                        /\ e.id \in 1..o.n /\ e.id \notin o.ids /\ e.pubs = o.n
    [] e.e = "set" -> LET k == Len(e.ids) IN
                      /\ e.opens <=> k >= o.t
                      /\ e.asked => (e.signs <=> k >= o.t)
    [] e.e = "again" -> ~e.same
    [] OTHER -> TRUE

Follow(o, e) ==
  CASE e.e = "reset" -> Nothing
    [] e.e = "deal" -> [t |-> e.t, n |-> e.n, ids |-> {}]
    [] e.e = "share" -> [o EXCEPT !.ids = @ \cup {e.id}]
    [] OTHER -> o
============================================================================
