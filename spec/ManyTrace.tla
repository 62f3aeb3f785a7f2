------------------------------ MODULE ManyTrace ------------------------------
(* Is what was seen of several torrents in one client what Concurrent and Intake allow? *)
(* ev: [e "post", h]       the magnet of h is posted                                  *)
(*     [e "posted", h, ok] the answer                                                 *)
(*     [e "list", h, p]    a tracker listed peer p for h                              *)
(*     [e "sess", h, p]    a session with peer p and the info hash of h (0: of none)    *)
(*     [e "disk", h]       a file of h appears (0: of none)                            *)
(*     [e "done", h]       all files of h are complete                                *)
(*     [e "due", h]        enough time has passed since the post for h alone           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Traces == JsonDeserialize("traces.json")       \* [ev, good: torrents that can make progress]
VARIABLES tid, l, posted, listed, met, done
vars == <<tid, l, posted, listed, met, done>>
T == Traces[tid]
E == T.ev[l]
At(e) == l <= Len(T.ev) /\ E.e = e
Step == l' = l + 1 /\ UNCHANGED tid
Reached == TLCSet(tid, IF TLCGet(tid) > l THEN TLCGet(tid) ELSE l)
Set(s) == {s[i] : i \in 1..Len(s)}

Init == tid \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tid, 1) /\ posted = {} /\ listed = {} /\ met = {} /\ done = {}
Post == At("post") /\ Step /\ posted' = posted \cup {E.h} /\ UNCHANGED <<listed, met, done>>
Posted == At("posted") /\ Step /\ E.ok /\ UNCHANGED <<posted, listed, met, done>>
List == At("list") /\ Step /\ E.h \in posted /\ listed' = listed \cup {<<E.h, E.p>>} /\ UNCHANGED <<posted, met, done>>
Sess == At("sess") /\ Step /\ <<E.h, E.p>> \in listed /\ met' = met \cup {E.h} /\ UNCHANGED <<posted, listed, done>>
Disk == At("disk") /\ Step /\ E.h \in met /\ UNCHANGED <<posted, listed, met, done>>
Done == At("done") /\ Step /\ E.h \in met /\ done' = done \cup {E.h} /\ UNCHANGED <<posted, listed, met>>
Due == At("due") /\ Step /\ (E.h \in Set(T.good) => E.h \in done) /\ UNCHANGED <<posted, listed, met, done>>
Next == Post \/ Posted \/ List \/ Sess \/ Disk \/ Done \/ Due
Spec == Init /\ [][Next]_vars
Undecided == Reached /\ (TLCGet(tid) <= Len(T.ev) \/ l > Len(T.ev))
Report == \A t \in 1..Len(Traces) :
            TLCGet(t) > Len(Traces[t].ev) \/ PrintT("@@" \o ToJson([tid |-> t, at |-> TLCGet(t)]))
=============================================================================
