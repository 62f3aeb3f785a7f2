-------------------------------- MODULE Udp ---------------------------------
(* One exchange with a UDP tracker: src/tracker/udp_tracker.rs.  The client sends   *)
(* connect requests until one is answered, then announce requests.  Datagrams are *)
(* lost, duplicated, delayed or replaced by others.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxTries,      \* requests of one kind at most
          MaxReplies     \* datagrams the network delivers at most, in all
VARIABLES phase,         \* "conn", "ann", "done", "failed"
          tries,         \* requests sent in this phase
          waiting,       \* a request is out and its time has not run out
          owed,          \* requests the tracker has not decided about: sequence of phases
          wire,          \* datagrams on their way to the client
          cid,           \* connection id the client goes by
          peers,         \* peers taken, or "none"
          delivered,     \* how many datagrams have been sent to the client
          lost           \* requests of this phase that nobody answered properly
vars == <<phase, tries, waiting, owed, wire, cid, peers, delivered, lost>>

(* act: 0 connect, 1 announce, 3 error;  tid: carries the transaction id of the exchange;  full: long enough *)
Reply == [act : {0, 1, 3}, tid : BOOLEAN, full : BOOLEAN]
Action(p) == IF p = "conn" THEN 0 ELSE 1
Matches(r, p) == r.tid /\ r.full /\ r.act = Action(p)

Init == /\ phase = "conn" /\ tries = 0 /\ waiting = FALSE /\ owed = <<>> /\ wire = <<>> /\ cid = "none" /\ peers = "none" /\ delivered = 0 /\ lost = 0

Send == /\ phase \in {"conn", "ann"} /\ ~waiting /\ tries < MaxTries
        /\ tries' = tries + 1 /\ waiting' = TRUE /\ owed' = Append(owed, phase)
        /\ UNCHANGED <<phase, wire, cid, peers, delivered, lost>>
(* The tracker or the network gives any reply, none, or more than one. *)
Answer(r) == /\ owed # <<>> /\ delivered < MaxReplies
             /\ wire' = Append(wire, r) /\ delivered' = delivered + 1
             /\ UNCHANGED <<phase, tries, waiting, owed, cid, peers, lost>>
Drop == /\ owed # <<>> /\ owed' = Tail(owed)
        /\ UNCHANGED <<phase, tries, waiting, wire, cid, peers, delivered, lost>>
Receive == /\ wire # <<>> /\ phase \in {"conn", "ann"} /\ waiting
           /\ wire' = Tail(wire)
           /\ IF Matches(Head(wire), phase)
              THEN IF phase = "conn"
                   THEN phase' = "ann" /\ cid' = "given" /\ tries' = 0 /\ waiting' = FALSE /\ lost' = 0 /\ UNCHANGED peers
                   ELSE phase' = "done" /\ peers' = "listed" /\ waiting' = FALSE /\ UNCHANGED <<cid, tries, lost>>
              ELSE UNCHANGED <<phase, cid, tries, waiting, lost, peers>>      \* left aside
           /\ UNCHANGED <<owed, delivered>>
TimeOut == /\ waiting /\ waiting' = FALSE /\ lost' = lost + 1
           /\ UNCHANGED <<phase, tries, owed, wire, cid, peers, delivered>>
GiveUp == /\ phase \in {"conn", "ann"} /\ ~waiting /\ tries = MaxTries
          /\ phase' = "failed"
          /\ UNCHANGED <<tries, waiting, owed, wire, cid, peers, delivered, lost>>

Next == Send \/ (\E r \in Reply : Answer(r)) \/ Drop \/ Receive \/ TimeOut \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Send) /\ WF_vars(TimeOut) /\ WF_vars(GiveUp)

Inv_Ids == phase \in {"ann", "done"} => cid = "given"
Inv_OnlyMatching == (peers = "listed") <=> (phase = "done")
Inv_Bounded == tries <= MaxTries
Inv_Tolerant == phase = "failed" => lost = MaxTries
Act_Matching == [][peers' # peers => Matches(Head(wire), "ann")]_vars
Live_Ends == <>(phase \in {"done", "failed"})
=============================================================================
