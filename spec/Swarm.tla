------------------------------- MODULE Swarm --------------------------------
(* One torrent from the first peer to the last byte on disk: peers are found,     *)
(* metadata is adopted, pieces go from the pool to at most W transfers, results   *)
(* come back to the torrent's actor in any order, verified pieces go to the       *)
(* writer.  Peers in Good always serve correctly; the others may do anything.     *)
EXTENDS SwarmOps

CONSTANTS Ep, Good, NPieces, W, MinPeers, MaxFound

Pieces == 0..(NPieces - 1)
None == [p |-> -1]

VARIABLES found,     \* how many times each peer was found (found peers are known)
          fails,     \* failures of each
          info,      \* metadata adopted
          started, starts,
          pool,      \* pieces nobody fetches
          slot,      \* transfer -> None or [p, ep, st]: st "run"
          results,   \* results on the way back: [p, ep, data, ok]
          toWrite,   \* pieces handed to the writer: [p, data]
          disk,      \* piece -> "gap", "good", "bad"
          last       \* the choice just made, for the action properties
vars == <<found, fails, info, started, starts, pool, slot, results, toWrite, disk, last>>

Slots == 1..W
Known == {e \in Ep : found[e] > 0}
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET e == CHOOSE x \in S : TRUE IN f[e] + Sum(f, S \ {e})
NFound == Sum(found, Ep)
Free == {s \in Slots : slot[s] = None}

Init == /\ found = [e \in Ep |-> 0] /\ fails = [e \in Ep |-> 0]
        /\ info = FALSE /\ started = FALSE /\ starts = 0
        /\ pool = {} /\ slot = [s \in Slots |-> None] /\ results = {} /\ toWrite = {}
        /\ disk = [p \in Pieces |-> "gap"]
        /\ last = [k |-> "init"]

(* Hand k pieces of the pool to free transfers, each to a peer of the set given. *)
Assignments(P, S, n) ==
  {a \in [1..n -> P \X S] : \A i, j \in 1..n : i # j => a[i][1] # a[j][1]}

(* A peer is found.  Without metadata it is asked for it: a good peer gives it,   *)
(* any other may.                                                              *)
Found(e) ==
  /\ NFound < MaxFound
  /\ found' = [found EXCEPT ![e] = @ + 1]
  /\ \E i \in (IF info THEN {TRUE} ELSE IF e \in Good THEN {TRUE} ELSE BOOLEAN) :
       LET pl == IF ~info /\ i THEN Pieces ELSE pool
           kn == Known \cup {e}
       IN /\ info' = i
          /\ IF StartNow(i, NFound + 1, started, MinPeers)
             THEN LET n == Min2(W, Cardinality(pl))
                  IN \E a \in Assignments(pl, Preferred(kn, fails), n) :
                       /\ slot' = [s \in Slots |-> IF s <= n THEN [p |-> a[s][1], ep |-> a[s][2]] ELSE None]
                       /\ pool' = pl \ {a[s][1] : s \in 1..n}
                       /\ started' = TRUE /\ starts' = starts + 1
                       /\ last' = [k |-> "start"]
             ELSE /\ pool' = pl /\ last' = [k |-> "found"]
                  /\ UNCHANGED <<slot, started, starts>>
  /\ UNCHANGED <<fails, results, toWrite, disk>>

(* A transfer ends with some data, or none.  Only data that passed the check make  *)
(* a success.                                                                  *)
Check(data) == data = "good"
End(s, data) ==
  /\ slot[s] # None
  /\ slot[s].ep \in Good => data = "good"
  /\ results' = results \cup {[p |-> slot[s].p, ep |-> slot[s].ep, data |-> data, ok |-> Check(data)]}
  /\ slot' = [slot EXCEPT ![s] = None]
  /\ last' = [k |-> "end"]
  /\ UNCHANGED <<found, fails, info, started, starts, pool, toWrite, disk>>

Assign(pl, S, why, r) ==
  IF pl = {} THEN pool' = pl /\ UNCHANGED slot /\ last' = [k |-> "idle"]
  ELSE \E p \in pl, e \in S :
         LET s == CHOOSE x \in Free : TRUE
         IN /\ pool' = pl \ {p} /\ slot' = [slot EXCEPT ![s] = [p |-> p, ep |-> e]]
            /\ last' = [k |-> why, ep |-> e, after |-> r.ep]

(* The torrent's actor takes a result. *)
TakeOk(r) ==
  /\ r \in results /\ r.ok
  /\ results' = results \ {r}
  /\ toWrite' = toWrite \cup {[p |-> r.p, data |-> r.data]}
  /\ Assign(pool, {r.ep}, "again", r)
  /\ UNCHANGED <<found, fails, info, started, starts, disk>>
TakeFail(r) ==
  /\ r \in results /\ ~r.ok
  /\ results' = results \ {r}
  /\ fails' = Bump(fails, r.ep)
  /\ Assign(pool \cup {r.p}, Preferred(Known, Bump(fails, r.ep)), "retry", r)
  /\ UNCHANGED <<found, info, started, starts, toWrite, disk>>

Write(w) ==
  /\ w \in toWrite
  /\ toWrite' = toWrite \ {w} /\ disk' = [disk EXCEPT ![w.p] = w.data]
  /\ last' = [k |-> "write"]
  /\ UNCHANGED <<found, fails, info, started, starts, pool, slot, results>>

Next == \/ \E e \in Ep : Found(e)
        \/ \E s \in Slots, d \in {"good", "bad", "none"} : End(s, d)
        \/ \E r \in results : TakeOk(r) \/ TakeFail(r)
        \/ \E w \in toWrite : Write(w)

(* When failures are taken again and again, a good peer is eventually chosen for  *)
(* each piece (the choice is random).                                            *)
PickGood(p) == \E r \in results : /\ TakeFail(r)
                                  /\ \E s \in Slots : slot'[s] # None /\ slot[s] = None /\ slot'[s].ep \in Good
Fairness == /\ \A e \in Ep : WF_vars(Found(e))
            /\ \A s \in Slots : WF_vars(\E d \in {"good", "bad", "none"} : End(s, d))
            /\ WF_vars(\E r \in results : TakeOk(r)) /\ WF_vars(\E r \in results : TakeFail(r))
            /\ WF_vars(\E w \in toWrite : Write(w))
            /\ SF_vars(\E p \in Pieces : PickGood(p))
Spec == Init /\ [][Next]_vars /\ Fairness

--------------------------------------------------------------------------
Fetching == {slot[s].p : s \in {x \in Slots : slot[x] # None}}
(* C01 *) Inv_OnlyVerified == \A p \in Pieces : disk[p] # "bad"
(* C02 *) Inv_NoPieceLost ==
  info => \A p \in Pieces :
            Cardinality({x \in {"pool"} : p \in pool}) + Cardinality({s \in Slots : slot[s] # None /\ slot[s].p = p})
            + Cardinality({r \in results : r.p = p}) + Cardinality({w \in toWrite : w.p = p})
            + (IF disk[p] = "good" THEN 1 ELSE 0) = 1
(* C03 *) Inv_OnePerPiece == \A s, t \in Slots : s # t /\ slot[s] # None /\ slot[t] # None => slot[s].p # slot[t].p
          Inv_NoRefetch == \A p \in Pieces : disk[p] = "good" => p \notin Fetching
          Inv_Width == Cardinality({s \in Slots : slot[s] # None}) + Cardinality(results) <= W
(* C18 *) Act_Preference ==
  [][last'.k = "retry" => \/ fails'[last'.ep] < 2
                         \/ (fails'[last'.ep] < 4 /\ \A e \in Known : fails'[e] >= 2)
                         \/ \A e \in Known : fails'[e] >= 4]_vars
          Act_SamePeer == [][last'.k = "again" => last'.ep = last'.after]_vars
(* C19 *) Inv_Start == /\ started <=> (info /\ NFound >= MinPeers)
                       /\ starts <= 1
                       /\ ~started => \A s \in Slots : slot[s] = None
(* C02 *) Live_Completes == (\E e \in Good : found[e] > 0) ~> (\A p \in Pieces : disk[p] = "good")
=============================================================================
