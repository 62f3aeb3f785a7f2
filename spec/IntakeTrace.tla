---------------------------- MODULE IntakeTrace -----------------------------
(* Is what trackers and peers saw of a client a behaviour of Intake?               *)
(* ev: [e "post", m, ok]           a magnet is posted; ok: answered with success      *)
(*     [e "ann", k, m]             tracker k got a well-formed announce (m = 0: of no  *)
(*                                 magnet that was posted)                          *)
(*     [e "list", k, m, ps]        the reply reaches the client                      *)
(*     [e "sess", p, m]            a session with peer p and the info hash of m       *)
(*     [e "due", m, ks]            long after m was accepted: trackers ks answered all *)
(*                                 the time since                                   *)
(*     [e "end", live]             all is quiet; live: peers that can be reached       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, accepted, announced, listed, met
vars == <<tid, l, accepted, announced, listed, met>>
T == Traces[tid]
E == T.ev[l]
At(e) == l <= Len(T.ev) /\ E.e = e
Step == l' = l + 1 /\ UNCHANGED tid
Reached == TLCSet(tid, IF TLCGet(tid) > l THEN TLCGet(tid) ELSE l)
Set(s) == {s[i] : i \in 1..Len(s)}

Init == tid \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tid, 1) /\ accepted = {} /\ announced = {} /\ listed = {} /\ met = {}

Post == At("post") /\ Step /\ accepted' = (IF E.ok THEN accepted \cup {E.m} ELSE accepted) /\ UNCHANGED <<announced, listed, met>>
Ann == At("ann") /\ Step /\ E.m \in accepted /\ announced' = announced \cup {<<E.k, E.m>>} /\ UNCHANGED <<accepted, listed, met>>
List == At("list") /\ Step /\ listed' = listed \cup {<<p, E.m>> : p \in Set(E.ps)} /\ UNCHANGED <<accepted, announced, met>>
(* A peer becomes known to the torrent it was listed for and to no other. *)
Sess == At("sess") /\ Step /\ <<E.p, E.m>> \in listed /\ met' = met \cup {<<E.p, E.m>>} /\ UNCHANGED <<accepted, announced, listed>>
Due == At("due") /\ Step /\ (E.m \in accepted => \A k \in Set(E.ks) : <<k, E.m>> \in announced) /\ UNCHANGED <<accepted, announced, listed, met>>
End == At("end") /\ Step /\ (\A x \in listed : x[1] \in Set(E.live) => x \in met) /\ UNCHANGED <<accepted, announced, listed, met>>

Next == Post \/ Ann \/ List \/ Sess \/ Due \/ End
Spec == Init /\ [][Next]_vars
Undecided == Reached /\ (TLCGet(tid) <= Len(T.ev) \/ l > Len(T.ev))
Report == \A t \in 1..Len(Traces) :
            TLCGet(t) > Len(Traces[t].ev) \/ PrintT("@@" \o ToJson([tid |-> t, at |-> TLCGet(t)]))
=============================================================================
