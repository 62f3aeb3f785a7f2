---------------------------- MODULE SessionTrace ----------------------------
(* Is a session recorded from the real client a behaviour of the client of       *)
(* Client.tla?  The peer's side of the trace is what the environment sent and     *)
(* received; when the client reads a message is not visible, so every possible    *)
(* moment is tried.  A trace is accepted when some choice explains all of it.     *)
(*                                                                               *)
(* Check is the set of properties to judge by: what only another property forbids *)
(* is let through.                                                               *)
(*                                                                               *)
(* A trace is a record                                                          *)
(*   kind "piece"/"meta"   n  blocks or parts   plen  bytes in all               *)
(*   late  the environment was late: its silence may have cost the attempt        *)
(*   unsol the peer sent data nobody asked for                                   *)
(*   ev    sequence of                                                           *)
(*     [e "tx", m]   the peer sent m            [e "pclose"] the peer closed      *)
(*     [e "rx", m]   the client sent m                                           *)
(*     [e "eof", idle, useless]  the client closed; milliseconds since the peer's *)
(*              last byte, and since the last useful data                        *)
(*     [e "end", useless]  the observation ended with the session still open      *)
EXTENDS Client, Json

CONSTANTS Check, Bound,    \* Bound: milliseconds without useful data that are too many
          IdleMin, ChatMin \* milliseconds of silence / chatter that may make the client give up

Traces == JsonDeserialize("traces.json")

VARIABLES tid, l, c, chan, out, pc, bad
vars == <<tid, l, c, chan, out, pc, bad>>

T == Traces[tid]
E == T.ev[l]
On(p) == p \in Check

Block == 16384
BlkLen(i) == IF T.plen - i * Block < Block THEN T.plen - i * Block ELSE Block

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tid, 1)
        /\ c = NewClient(T.kind, T.n)
        /\ chan = <<>> /\ out = <<[t |-> "hs"]>> /\ pc = FALSE /\ bad = FALSE

At(e) == l <= Len(T.ev) /\ E.e = e
Step == l' = l + 1 /\ UNCHANGED tid
(* The furthest position any explanation reached. *)
Reached == TLCSet(tid, IF TLCGet(tid) > l THEN TLCGet(tid) ELSE l)

Tx == At("tx") /\ Step /\ chan' = Append(chan, E.m) /\ UNCHANGED <<c, out, pc, bad>>
PClose == At("pclose") /\ Step /\ pc' = TRUE /\ UNCHANGED <<c, chan, out, bad>>

New(d) == SubSeq(d.sent, Len(c.sent) + 1, Len(d.sent))
(* Silent: the client reads the next message ... *)
ReadOne ==
  /\ ~Ended(c) /\ chan # <<>>
  /\ LET d == Read(c, Head(chan)) IN c' = [d EXCEPT !.sent = <<>>] /\ out' = out \o New(d)
  /\ chan' = Tail(chan) /\ bad' = (bad \/ Head(chan).t \in {"bad", "frag"})
  /\ UNCHANGED <<tid, l, pc>>
(* ... or waits in vain once, at the start of the transfer, and asks. *)
WaitOnce ==
  /\ c.ph = "xfer" /\ c.asked # Len(c.got) + 1
  /\ LET d == Read(c, Msg("none")) IN c' = [d EXCEPT !.sent = <<>>, !.idle = 0] /\ out' = out \o New(d)
  /\ UNCHANGED <<tid, l, chan, pc, bad>>

(* A message the client sends. *)
Fits(o, m) ==
  CASE o.t = "hs" -> m.t = "hs" /\ m.wf /\ m.own
    [] o.t = "interested" -> m.t = "interested"
    [] o.t = "exths" -> m.t = "exths" /\ m.wf
    [] o.t = "req" -> /\ m.t = "req"
                      /\ On("C08") /\ ~T.unsol => m.o = o.i * Block /\ m.n = BlkLen(o.i) /\ m.p = T.piece
    [] o.t = "mreq" -> /\ m.t = "mreq"
                       /\ On("C08") /\ ~T.unsol => m.p = o.i /\ m.x = c.ut /\ m.wf
    [] OTHER -> FALSE
Rx == /\ At("rx") /\ Step
      /\ IF out # <<>> /\ Fits(Head(out), E.m) THEN out' = Tail(out)
         ELSE /\ ~On("C10") /\ (On("C08") => T.unsol \/ E.m.t \notin {"req", "mreq"})
              /\ out' = out
      /\ UNCHANGED <<c, chan, pc, bad>>

(* Why the client may close a session. *)
Done == Ended(c)
Explained == \/ Done
             \/ pc \/ bad \/ T.late
             \/ E.idle >= IdleMin
             \/ E.useless >= ChatMin
Eof == /\ At("eof") /\ Step
       /\ (On("C02") \/ On("C08") \/ On("C09")) => Explained
       /\ On("C11") => E.useless <= Bound
       /\ UNCHANGED <<c, chan, out, pc, bad>>
Open == /\ At("end") /\ Step
        /\ On("C11") => E.useless <= Bound
        /\ UNCHANGED <<c, chan, out, pc, bad>>

Next == Tx \/ PClose \/ ReadOne \/ WaitOnce \/ Rx \/ Eof \/ Open
Spec == Init /\ [][Next]_vars

(* Nothing more to find once a trace is explained. *)
Undecided == Reached /\ (TLCGet(tid) <= Len(T.ev) \/ l > Len(T.ev))

Report == \A t \in 1..Len(Traces) :
            TLCGet(t) > Len(Traces[t].ev) \/ PrintT("@@" \o ToJson([tid |-> t, at |-> TLCGet(t)]))
=============================================================================
