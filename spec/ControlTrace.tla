---------------------------- MODULE ControlTrace ----------------------------
(* Is what users and trackers saw of a client a behaviour of Control?               *)
(* ev: [e "req", i, h, r]     request i, whose body names torrent h (0: none), goes out *)
(*     [e "ans", i, st]       it was answered with status st; 0: closed without an     *)
(*                            answer, -1: no connection, -2: nothing for a long time    *)
(*     [e "ann", k, h]        tracker k got the announce of torrent h (0: of none that    *)
(*                            was named)                                            *)
(*     [e "end", ks, exact]   all is quiet; trackers ks answered all the time; exact: no   *)
(*                            datagram can have been sent twice                        *)
EXTENDS ControlOps, FiniteSets, TLC, Json

Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, asked, done, ann
vars == <<tid, l, asked, done, ann>>
T == Traces[tid]
E == T.ev[l]
At(e) == l <= Len(T.ev) /\ E.e = e
Step == l' = l + 1 /\ UNCHANGED tid
Reached == TLCSet(tid, IF TLCGet(tid) > l THEN TLCGet(tid) ELSE l)

Init == tid \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tid, 1) /\ asked = <<>> /\ done = {} /\ ann = {}
Req == At("req") /\ Step /\ asked' = Append(asked, [i |-> E.i, h |-> E.h, r |-> E.r]) /\ UNCHANGED <<done, ann>>
Of(i) == CHOOSE x \in Set(asked) : x.i = i
Ans == /\ At("ans") /\ Step /\ E.i \notin done /\ done' = done \cup {E.i}
       /\ AnswerOk(Of(E.i).r, E.st)          \* a whole request is answered whoever else is there
       /\ UNCHANGED <<asked, ann>>
(* Only after a request that adds it was sent, and once for each. *)
Count(s, P(_)) == Cardinality({j \in 1..Len(s) : P(s[j])})
Named(h) == Count(asked, LAMBDA x : x.h = h /\ Adds(x.r))
Ann == /\ At("ann") /\ Step /\ E.h # 0 /\ Named(E.h) > 0 /\ ann' = ann \cup {<<E.k, E.h>>} /\ UNCHANGED <<asked, done>>
End == /\ At("end") /\ Step /\ UNCHANGED <<asked, done, ann>>
       /\ \A x \in Set(asked) : x.i \in done \/ ~Arrives(x.r)
       /\ \A x \in Set(asked) : Adds(x.r) => \A k \in Set(E.ks) : <<k, x.h>> \in ann
       /\ E.exact => \A c \in Set(E.counts) : c.n = Named(c.h)
Next == Req \/ Ans \/ Ann \/ End
Spec == Init /\ [][Next]_vars
Undecided == Reached /\ (TLCGet(tid) <= Len(T.ev) \/ l > Len(T.ev))
Report == \A t \in 1..Len(Traces) :
            TLCGet(t) > Len(Traces[t].ev) \/ PrintT("@@" \o ToJson([tid |-> t, at |-> TLCGet(t)]))
=============================================================================
