------------------------------ MODULE Control -------------------------------
(* Users of the control interface, each on a connection of its own, some of which     *)
(* send what they like or stop in the middle for ever.  The server serves whoever is   *)
(* ready.  A request that adds a torrent adds it once, and is answered; what others     *)
(* do or leave undone changes nothing about that.                                   *)
EXTENDS ControlOps, FiniteSets, TLC
CONSTANTS Users, Kinds,        \* Kinds: the requests of the model
          MaxReq,              \* requests on one connection
          Serial               \* TRUE: the server finishes one connection before it looks at the next
VARIABLES conn,      \* user -> "none", "open", "sending", "sent", "refused", "closed"
          req,       \* user -> its current request
          n,         \* user -> requests made
          due,       \* user -> number of its requests that add a torrent and have arrived
          added,     \* user -> torrents that were added for it
          ok, no,    \* user -> requests answered with success, and otherwise
          turn       \* Serial: the user being served, or "nobody"
vars == <<conn, req, n, due, added, ok, no, turn>>
None == CHOOSE r \in Kinds : TRUE

Init == /\ conn = [u \in Users |-> "none"] /\ req = [u \in Users |-> None] /\ n = [u \in Users |-> 0] /\ due = [u \in Users |-> 0]
        /\ added = [u \in Users |-> 0] /\ ok = [u \in Users |-> 0] /\ no = [u \in Users |-> 0] /\ turn = "nobody"

Open(u, r) == /\ conn[u] \in {"none", "open"} /\ n[u] < MaxReq
              /\ conn' = [conn EXCEPT ![u] = IF r.a = "other" THEN "refused" ELSE "sending"]
              /\ req' = [req EXCEPT ![u] = r] /\ n' = [n EXCEPT ![u] = @ + 1] /\ UNCHANGED <<due, added, ok, no, turn>>
(* The last byte is on its way; a broken request has no last byte. *)
Sent(u) == /\ conn[u] = "sending" /\ Arrives(req[u]) /\ conn' = [conn EXCEPT ![u] = "sent"]
           /\ due' = [due EXCEPT ![u] = @ + (IF Adds(req[u]) THEN 1 ELSE 0)] /\ UNCHANGED <<req, n, added, ok, no, turn>>
GiveUp(u) == /\ conn[u] = "sending" /\ conn' = [conn EXCEPT ![u] = "closed"] /\ UNCHANGED <<req, n, due, added, ok, no>>
             /\ turn' = IF turn = u THEN "nobody" ELSE turn
(* Serial: a connection is held from its first byte on. *)
Take(u) == /\ Serial /\ turn = "nobody" /\ conn[u] \in {"sending", "sent"} /\ turn' = u /\ UNCHANGED <<conn, req, n, due, added, ok, no>>
Answer(u) == /\ conn[u] = "sent" /\ (Serial => turn = u)
             /\ IF Adds(req[u]) THEN added' = [added EXCEPT ![u] = @ + 1] /\ ok' = [ok EXCEPT ![u] = @ + 1] /\ UNCHANGED no
                                ELSE no' = [no EXCEPT ![u] = @ + 1] /\ UNCHANGED <<added, ok>>
             /\ \E c \in {"open", "closed"} : conn' = [conn EXCEPT ![u] = c]
             /\ turn' = (IF Serial THEN "nobody" ELSE turn) /\ UNCHANGED <<req, n, due>>
(* What never becomes whole is refused, or dropped, at any time. *)
Refuse(u) == /\ conn[u] = "sending" /\ ~Arrives(req[u]) /\ conn' = [conn EXCEPT ![u] = "closed"] /\ no' = [no EXCEPT ![u] = @ + 1]
             /\ turn' = (IF turn = u THEN "nobody" ELSE turn) /\ UNCHANGED <<req, n, due, added, ok>>

Next == \E u \in Users : (\E r \in Kinds : Open(u, r)) \/ Sent(u) \/ GiveUp(u) \/ Take(u) \/ Answer(u) \/ Refuse(u)
Spec == Init /\ [][Next]_vars /\ \A u \in Users : WF_vars(Take(u)) /\ SF_vars(Answer(u))

Inv_Once == \A u \in Users : added[u] <= due[u] /\ added[u] = ok[u] /\ ok[u] + no[u] <= n[u]
Inv_NoEffect == \A u \in Users : (\A r \in {req[u]} : ~Adds(r)) /\ n[u] = 1 => added[u] = 0
Act_OnlyAsked == [][\A u \in Users : added'[u] # added[u] => conn[u] = "sent" /\ Adds(req[u])]_vars
Live_Answered == \A u \in Users : (conn[u] = "sent") ~> (conn[u] # "sent")
Live_Added == \A u \in Users : \A k \in 1..MaxReq : (due[u] = k) ~> (added[u] >= k)
=============================================================================
