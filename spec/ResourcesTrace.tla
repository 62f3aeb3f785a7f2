--------------------------- MODULE ResourcesTrace ---------------------------
(* Is what a client was seen to hold at various times what Resources allows?          *)
(* ev: [e "add"]              a torrent is posted                                     *)
(*     [e "beg", k, i]        use i of kind k has begun (a little earlier, to be fair)    *)
(*     [e "end", k, i]        it is over (a little later)                              *)
(*     [e "look", held, files, threads, nfd, mb, quiet]                                        *)
(*                            held[k]: connections or sockets of kind k; quiet: every      *)
(*                            use has been over for a long time, those of k "user" excepted; *)
(*                            files, threads, nfd: open files, threads, descriptors of any kind *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Traces == JsonDeserialize("traces.json")       \* [ev, base, nfd, mb: threads, descriptors and memory before anything was added, per: threads that a torrent may have]
VARIABLES tid, l, added, going
vars == <<tid, l, added, going>>
T == Traces[tid]
E == T.ev[l]
At(e) == l <= Len(T.ev) /\ E.e = e
Step == l' = l + 1 /\ UNCHANGED tid
Reached == TLCSet(tid, IF TLCGet(tid) > l THEN TLCGet(tid) ELSE l)
Num(k) == Cardinality({u \in going : u[1] = k})

Init == tid \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tid, 1) /\ added = 0 /\ going = {}
Add == At("add") /\ Step /\ added' = added + 1 /\ UNCHANGED going
Beg == At("beg") /\ Step /\ going' = going \cup {<<E.k, E.i>>} /\ UNCHANGED added
Over == At("end") /\ Step /\ going' = going \ {<<E.k, E.i>>} /\ UNCHANGED added
Look == /\ At("look") /\ Step /\ UNCHANGED <<added, going>>
        /\ \A k \in DOMAIN E.held : E.held[k] <= Num(k)                     \* Inv_Held
        /\ E.threads <= T.base + T.per * added                              \* Inv_Threads
        /\ E.quiet => E.threads <= T.base /\ E.nfd <= T.nfd
        /\ E.quiet => E.files = 0 /\ \A k \in DOMAIN E.held : k # "user" => E.held[k] = 0     \* Live_Quiet
        /\ E.quiet => E.mb <= T.mb + T.room
Next == Add \/ Beg \/ Over \/ Look
Spec == Init /\ [][Next]_vars
Undecided == Reached /\ (TLCGet(tid) <= Len(T.ev) \/ l > Len(T.ev))
Report == \A t \in 1..Len(Traces) :
            TLCGet(t) > Len(Traces[t].ev) \/ PrintT("@@" \o ToJson([tid |-> t, at |-> TLCGet(t)]))
=============================================================================
