----------------------------- MODULE StoreTrace -----------------------------
(* Is what was seen of one magnet over several runs of the client in one directory *)
(* a behaviour of Store?  Visible: starts, additions, requests for metadata, the   *)
(* last part of the right metadata being sent, requests for pieces, the pieces on  *)
(* disk, damage done to the saved copy, kills, and the end of an undisturbed run.  *)
(* Invisible: adopting, looking at the copy, saving.                            *)
(*                                                                            *)
(* ev: [e "start"] [e "add"] [e "ask"] [e "offer"] [e "req"] [e "settled"]         *)
(*     [e "disk", p, st] [e "damage", gone] [e "kill"] [e "end", ok]             *)
(* np: number of pieces.                                                      *)
EXTENDS Store, Sequences, Json

CONSTANT Check

Traces == JsonDeserialize("traces.json")

VARIABLES tid, l, had, offered, adds, stuck
(* had: the copy when this run began;  offered: the right metadata was sent to the client in this run, *)
(* adds: additions of the magnet in this run;  stuck: something that cannot be read or replaced is in the way  *)
tvars == <<vars, tid, l, had, offered, adds, stuck>>

T == Traces[tid]
E == T.ev[l]
On(p) == p \in Check
At(e) == l <= Len(T.ev) /\ E.e = e
Step == l' = l + 1 /\ UNCHANGED tid
Reached == TLCSet(tid, IF TLCGet(tid) > l THEN TLCGet(tid) ELSE l)

TInit == Init /\ tid \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tid, 1) /\ had = "none" /\ offered = FALSE /\ adds = 0 /\ stuck = FALSE

TStart == /\ At("start") /\ Step /\ Start
          /\ had' \in (IF stuck THEN {cache, "torn"} ELSE {cache})
          /\ offered' = FALSE /\ adds' = 0 /\ UNCHANGED stuck
TAdd == /\ At("add") /\ Step /\ adds' = adds + 1
        /\ IF adds = 0 THEN Add ELSE UNCHANGED vars
        /\ UNCHANGED <<had, offered, stuck>>
(* A run that began with a good copy asks nobody. *)
TAsk == /\ At("ask") /\ Step
        /\ On("C07") => had # "good"
        /\ asked' = TRUE
        /\ UNCHANGED <<run, added, info, cache, saving, readable, piece, writing, done, kills, damages, had, offered, adds, stuck>>
TOffer == /\ At("offer") /\ Step /\ offered' = TRUE
          /\ UNCHANGED <<vars, had, adds, stuck>>
(* Silent: what was offered is adopted, and saved; with the magnet added more than once this may happen again. *)
TAdopt == /\ offered /\ run = "up" /\ ~saving
          /\ IF info = "none" /\ ENABLED Ask("good") THEN Ask("good")
             ELSE /\ adds > 1 /\ info = "good" /\ cache # "torn" /\ saving' = TRUE /\ cache' = "torn"
                  /\ UNCHANGED <<run, added, info, asked, readable, piece, writing, done, kills, damages>>
          /\ offered' = IF adds > 1 THEN offered ELSE FALSE
          /\ UNCHANGED <<tid, l, had, adds, stuck>>
TSaved == Saved /\ UNCHANGED <<tid, l, had, offered, adds, stuck>>
TUse == UseCache /\ UNCHANGED <<tid, l, had, offered, adds, stuck>>

TReq == /\ At("req") /\ Step
        /\ On("C07") \/ On("C20") => info = "good"
        /\ UNCHANGED <<vars, had, offered, adds, stuck>>
(* Long after everything else: the copy is complete. *)
TSettled == /\ At("settled") /\ Step
            /\ On("C07") => ~saving /\ info = "good" /\ cache = "good"
            /\ offered' = FALSE
            /\ UNCHANGED <<vars, had, adds, stuck>>
TDisk == /\ At("disk") /\ Step
         /\ On("C20") => E.st # "bad"
         /\ CASE E.st = "partial" /\ info = "good" /\ ~saving /\ E.p \notin writing \cup done /\ piece[E.p] = "gap" -> Begin(E.p)
              [] OTHER -> /\ piece' = [piece EXCEPT ![E.p] = CASE E.st = "good" -> "good" [] E.st = "gap" -> "gap" [] OTHER -> "half"]
                          /\ writing' = writing \ {E.p} /\ done' = done \cup (IF E.st = "good" THEN {E.p} ELSE {})
                          /\ UNCHANGED <<run, added, info, cache, saving, asked, readable, kills, damages>>
         /\ UNCHANGED <<had, offered, adds, stuck>>
TKill == /\ At("kill") /\ Step /\ Kill /\ UNCHANGED <<had, offered, adds, stuck>>
(* Damage may leave a copy that can still be used; removal does not. *)
TDamage == /\ At("damage") /\ Step /\ run = "down"
           /\ cache' \in (IF E.gone THEN {"none"} ELSE {cache, "torn"})
           /\ damages' = damages + 1 /\ stuck' = (stuck \/ E.stuck)
           /\ UNCHANGED <<run, added, info, saving, asked, readable, piece, writing, done, kills, had, offered, adds>>
TEnd == /\ At("end") /\ Step
        /\ On("C07") \/ On("C20") => E.ok /\ \A p \in 0..(T.np - 1) : piece[p] = "good"
        /\ UNCHANGED <<vars, had, offered, adds, stuck>>

TNext == \/ TStart \/ TAdd \/ TAsk \/ TOffer \/ TAdopt \/ TSaved \/ TUse \/ TReq \/ TSettled \/ TDisk \/ TKill \/ TDamage \/ TEnd
TSpec == TInit /\ [][TNext]_tvars

Undecided == Reached /\ (TLCGet(tid) <= Len(T.ev) \/ l > Len(T.ev))
Report == \A t \in 1..Len(Traces) :
            TLCGet(t) > Len(Traces[t].ev) \/ PrintT("@@" \o ToJson([tid |-> t, at |-> TLCGet(t)]))
=============================================================================
