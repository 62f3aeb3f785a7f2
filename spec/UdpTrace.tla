------------------------------ MODULE UdpTrace ------------------------------
(* Is one recorded exchange a behaviour of the client of Udp?                      *)
(* A trace: whole (watched to the end), late (the environment itself was too slow), *)
(* ev: [e "rx", k "connect"/"announce"/"bad", cid, own, pid]  a request             *)
(*     [e "tx", a, tid, full, cid, list]   a datagram reaches the client: its action, *)
(*          whether it carries the transaction id and is long enough, the connection *)
(*          id or the number of the peer list in it                              *)
(*     [e "end", got]  number of the list all of whose peers were contacted, and no  *)
(*          other: 0 none, -1 anything else                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MinTries, MaxTries

Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, phase, n, given, taken
vars == <<tid, l, phase, n, given, taken>>
T == Traces[tid]
E == T.ev[l]
At(e) == l <= Len(T.ev) /\ E.e = e
Step == l' = l + 1 /\ UNCHANGED tid
Reached == TLCSet(tid, IF TLCGet(tid) > l THEN TLCGet(tid) ELSE l)
Action(p) == IF p = "conn" THEN 0 ELSE 1
Matches == E.tid /\ E.full /\ E.a = Action(phase)

Init == tid \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tid, 1) /\ phase = "conn" /\ n = 0 /\ given = {} /\ taken = 0

Connect == /\ At("rx") /\ E.k = "connect" /\ Step
           /\ phase = "conn" \/ (phase = "ann" /\ n = 0 /\ E.raced)
           /\ n < MaxTries
           /\ n' = IF phase = "conn" THEN n + 1 ELSE n
           /\ UNCHANGED <<phase, given, taken>>
Announce == /\ At("rx") /\ E.k = "announce" /\ Step
            /\ phase = "ann" \/ (phase = "done" /\ E.raced)
            /\ E.cid \in given /\ E.own /\ E.pid
            /\ n < MaxTries
            /\ n' = n + 1
            /\ UNCHANGED <<phase, given, taken>>
(* The reply is taken at once, or the client has already stopped waiting for it. *)
Take == /\ At("tx") /\ phase \in {"conn", "ann"} /\ n > 0 /\ Matches /\ Step
        /\ IF phase = "conn" THEN phase' = "ann" /\ n' = 0 /\ given' = given \cup {E.cid} /\ taken' = taken
           ELSE phase' = "done" /\ taken' = E.list /\ UNCHANGED <<n, given>>
Miss == /\ At("tx") /\ Step
        /\ (phase \in {"conn", "ann"} /\ n > 0 /\ Matches) => (n >= MinTries /\ E.late)
        /\ UNCHANGED <<phase, n, given, taken>>
Finish == /\ At("end") /\ Step
          /\ (T.whole /\ ~T.late /\ phase \in {"conn", "ann"}) => n >= MinTries
          /\ E.got = (IF phase = "done" THEN taken ELSE 0)
          /\ UNCHANGED <<phase, n, given, taken>>
Next == Connect \/ Announce \/ Take \/ Miss \/ Finish
Spec == Init /\ [][Next]_vars

Undecided == Reached /\ (TLCGet(tid) <= Len(T.ev) \/ l > Len(T.ev))
Report == \A t \in 1..Len(Traces) :
            TLCGet(t) > Len(Traces[t].ev) \/ PrintT("@@" \o ToJson([tid |-> t, at |-> TLCGet(t)]))
=============================================================================
