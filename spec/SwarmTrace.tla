----------------------------- MODULE SwarmTrace -----------------------------
(* Is what the peers of one torrent saw a behaviour of the torrent of Swarm.tla?   *)
(* Visible: reachability probes, sessions opening and closing, the piece a session *)
(* asks for, and whether it was served.  Invisible: when the torrent takes notice  *)
(* of a found peer or of a result, and attempts on endpoints nobody listens on.    *)
(*                                                                               *)
(* A trace: np pieces, cached (metadata known from an earlier run), dead (set of   *)
(* endpoints that refuse connections), whole (the run was watched to its end, with *)
(* a good peer around), ev: sequence of                                          *)
(*   [e "probe", ep]  [e "sess", c, ep, k "meta"/"piece"]  [e "reveal", c, p]      *)
(*   [e "eof", c, res "ok"/"fail"/"any"]  [e "end"]                               *)
(*   [e "disk", p, st "gap"/"partial"/"good"/"bad"]  the bytes of piece p on disk    *)
EXTENDS SwarmOps, Json

CONSTANTS Check, MinPeers, W

Traces == JsonDeserialize("traces.json")

VARIABLES tid, l, pend, found, fails, info, started, act, tok, done, asking
vars == <<tid, l, pend, found, fails, info, started, act, tok, done, asking>>
(* pend: probed endpoints the torrent has not noticed yet, in order;  found: endpoints noticed, *)
(* in order;  act: sessions [c, ep, p, st]  st "open"/"closed";  tok: attempts decided but not  *)
(* seen yet: bag of sets of admissible endpoints;  asking: session asking for metadata or -1    *)

T == Traces[tid]
E == T.ev[l]
On(p) == p \in Check
Dead == {T.dead[i] : i \in 1..Len(T.dead)}
Known == {found[i] : i \in 1..Len(found)}
Strict == On("C18") \/ On("C19")

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tid, 1)
        /\ pend = <<>> /\ found = <<>> /\ fails = [e \in 0..Traces[tid].nep |-> 0] /\ info = FALSE /\ started = FALSE
        /\ act = {} /\ tok = <<>> /\ done = {} /\ asking = -1

At(e) == l <= Len(T.ev) /\ E.e = e
(* Invisible steps matter only for what is decided next: they are taken just before such an event (and  *)
(* when decisions are not judged, as soon as possible and in a fixed order).                          *)
Next1 == IF l <= Len(T.ev) THEN E.e ELSE ""
Closed == {a \in act : a.st = "closed"}
TakeDue(a) == IF Strict THEN Next1 \in {"sess", "end"} ELSE a = CHOOSE x \in Closed : TRUE
NoticeDue == IF Strict THEN Next1 \in {"sess", "eof", "end"} ELSE Closed = {}
NoticeAble == pend # <<>> /\ asking = -1 /\ (info \/ T.cached \/ Head(pend) \in Dead)
Settled == Strict \/ ((Closed = {} \/ asking # -1) /\ ~NoticeAble)
Step == Settled /\ l' = l + 1 /\ UNCHANGED tid
(* The furthest position any explanation reached. *)
Reached == TLCSet(tid, IF TLCGet(tid) > l THEN TLCGet(tid) ELSE l)

(* Pieces neither finished nor being fetched nor promised to an attempt. *)
Avail == T.np - Cardinality(done) - Cardinality(act) - Len(tok)
(* Attempts a decision leads to. *)
Issue(n, S) == IF Strict THEN [i \in 1..n |-> S] ELSE <<>>
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

(* After the torrent noticed something: does the download start? *)
Starting(i, fd, kn) ==
  IF StartNow(i, Len(fd), started, MinPeers)
  THEN started' = TRUE /\ tok' = tok \o Issue(Min2(W, T.np), Preferred(kn, fails))
  ELSE UNCHANGED <<started, tok>>

Probe == At("probe") /\ Step /\ pend' = Append(pend, E.ep)
         /\ UNCHANGED <<found, fails, info, started, act, tok, done, asking>>

(* Silent: the next found peer is noticed.  Without metadata that means a session  *)
(* with it, unless it is dead or the metadata are saved.                         *)
Notice ==
  /\ NoticeAble /\ NoticeDue
  /\ LET e == Head(pend)
         fd == Append(found, e)
         i == info \/ T.cached
     IN /\ found' = fd /\ info' = i /\ Starting(i, fd, Known \cup {e})
  /\ pend' = Tail(pend)
  /\ UNCHANGED <<tid, l, fails, act, done, asking>>

(* A metadata session opens: the peer was noticed. *)
MetaOpen ==
  /\ At("sess") /\ E.k = "meta" /\ Step
  /\ IF pend # <<>> /\ asking = -1 /\ ~info /\ ~T.cached /\ Head(pend) = E.ep
     THEN found' = Append(found, E.ep) /\ pend' = Tail(pend) /\ asking' = E.c
     ELSE /\ ~Strict /\ ~On("C07") /\ ~On("C06")
          /\ asking' = E.c /\ UNCHANGED <<found, pend>>
  /\ UNCHANGED <<fails, info, started, act, tok, done>>
MetaEof ==
  /\ At("eof") /\ E.c = asking /\ Step
  /\ \E i \in (IF E.res = "any" THEN BOOLEAN ELSE {E.res = "ok"}) :
       info' = i /\ Starting(i, found, Known)
  /\ asking' = -1
  /\ UNCHANGED <<pend, found, fails, act, done>>

(* A piece session opens: some attempt was decided that admits this endpoint. *)
Matches(i) == On("C18") => E.ep \in tok[i]
PieceOpen ==
  /\ At("sess") /\ E.k = "piece" /\ Step
  /\ IF \E i \in 1..Len(tok) : Matches(i)
     THEN \E i \in 1..Len(tok) : Matches(i) /\ tok' = Drop(tok, i)
     ELSE ~Strict /\ tok' = tok
  /\ On("C03") => Cardinality({a \in act : a.st = "open"}) < W
  /\ On("C06") => info \/ T.cached
  /\ act' = act \cup {[c |-> E.c, ep |-> E.ep, p |-> -1, st |-> "open", res |-> ""]}
  /\ UNCHANGED <<pend, found, fails, info, started, done, asking>>

Reveal ==
  /\ At("reveal") /\ Step
  /\ \E a \in act :
       /\ a.c = E.c
       /\ On("C03") => /\ E.p \notin done
                       /\ \A b \in act : b.c # a.c => ~(b.p = E.p /\ (b.st = "open" \/ b.res = "ok"))
       /\ act' = (act \ {a}) \cup {[a EXCEPT !.p = E.p]}
  /\ UNCHANGED <<pend, found, fails, info, started, tok, done, asking>>

PieceEof ==
  /\ At("eof") /\ E.c # asking /\ Step
  /\ IF \E a \in act : a.c = E.c
     THEN LET a == CHOOSE x \in act : x.c = E.c
          IN \E r \in (IF E.res = "any" THEN {"ok", "fail"} ELSE {E.res}) :
               act' = (act \ {a}) \cup {[a EXCEPT !.st = "closed", !.res = r]}
     ELSE act' = act
  /\ UNCHANGED <<pend, found, fails, info, started, tok, done, asking>>

(* Silent: the torrent takes the result of a closed session. *)
TakeOk(a) ==
  /\ a.st = "closed" /\ a.res = "ok" /\ asking = -1 /\ TakeDue(a)
  /\ act' = act \ {a}
  /\ done' = done \cup {a.p}
  /\ tok' = IF T.np - Cardinality(done') - Cardinality(act') - Len(tok) > 0 THEN tok \o Issue(1, {a.ep}) ELSE tok
  /\ UNCHANGED <<tid, l, pend, found, fails, info, started, asking>>
TakeFail(a) ==
  /\ a.st = "closed" /\ a.res = "fail" /\ asking = -1 /\ TakeDue(a)
  /\ act' = act \ {a}
  /\ fails' = Bump(fails, a.ep)
  /\ tok' = tok \o Issue(1, Preferred(Known, fails'))
  /\ UNCHANGED <<tid, l, pend, found, info, started, done, asking>>
(* Silent: an attempt on a dead endpoint. *)
DeadTry ==
  /\ Dead # {} /\ Strict /\ Next1 \in {"sess", "end"}
  /\ \E i \in 1..Len(tok) : \E e \in tok[i] \cap Dead :
       /\ fails[e] < 4 \/ tok[i] # Preferred(Known, Bump(fails, e))     \* no stuttering
       /\ fails' = Bump(fails, e) /\ tok' = [tok EXCEPT ![i] = Preferred(Known, Bump(fails, e))]
  /\ UNCHANGED <<tid, l, pend, found, info, started, act, done, asking>>

(* What is on disk of a piece changed: only data of a served session get there,    *)
(* and what is there stays.                                                     *)
Disk ==
  /\ At("disk") /\ Step
  /\ On("C01") => /\ E.st \in {"partial", "good"}
                  /\ E.p \in done \/ \E a \in act : a.p = E.p /\ a.st = "closed" /\ a.res = "ok"
  /\ UNCHANGED <<pend, found, fails, info, started, act, tok, done, asking>>

(* The end of the observation, long after the last event. *)
Finish ==
  /\ At("end") /\ Step
  /\ T.whole => /\ On("C02") => Cardinality(done) = T.np
                /\ On("C06") => info \/ T.cached \/ pend = <<>>
                /\ On("C19") => (pend = <<>> /\ (info /\ Len(found) >= MinPeers => started))
                /\ Strict => tok = <<>>
  /\ UNCHANGED <<pend, found, fails, info, started, act, tok, done, asking>>

Next == \/ Probe \/ Notice \/ MetaOpen \/ MetaEof \/ PieceOpen \/ Reveal \/ PieceEof \/ Disk \/ Finish \/ DeadTry
        \/ \E a \in act : TakeOk(a) \/ TakeFail(a)
Spec == Init /\ [][Next]_vars

Undecided == Reached /\ (TLCGet(tid) <= Len(T.ev) \/ l > Len(T.ev))
Report == \A t \in 1..Len(Traces) :
            TLCGet(t) > Len(Traces[t].ev) \/ PrintT("@@" \o ToJson([tid |-> t, at |-> TLCGet(t)]))
=============================================================================
