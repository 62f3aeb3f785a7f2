------------------------------- MODULE Store --------------------------------
(* What one torrent keeps across runs of the client: the saved metadata           *)
(* (./downloads/<info hash>) and the content.  src/actors/torrent.rs collect_info, *)
(* src/torrent/info.rs from_file and save, src/torrent/writer.rs.                 *)
(* The process may be killed at any moment, also in the middle of saving or of    *)
(* writing a piece; the saved copy may be damaged between runs.                   *)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS NPieces, MaxKills, MaxDamage,
          Answers       \* what a peer may give as metadata: "good", "wrong", "none"
VARIABLES run,          \* "down", "up"
          added,        \* the magnet was added in this run
          info,         \* metadata this run goes by: "none", "good", "wrong"
          cache,        \* "none", "torn" (cut short or unreadable), "good", "wrong"
          saving,       \* the copy is being written
          asked,        \* a peer was asked for metadata in this run
          readable,     \* the copy was good when this run looked at it
          piece,        \* piece -> "gap", "half", "good"
          writing,      \* pieces being written in this run
          done,         \* pieces this run has written
          kills, damages
vars == <<run, added, info, cache, saving, asked, readable, piece, writing, done, kills, damages>>

Pieces == 0..(NPieces - 1)

Init == /\ run = "down" /\ added = FALSE /\ info = "none" /\ cache = "none" /\ saving = FALSE /\ asked = FALSE /\ readable = FALSE
        /\ piece = [p \in Pieces |-> "gap"] /\ writing = {} /\ done = {} /\ kills = 0 /\ damages = 0

Start == /\ run = "down" /\ run' = "up"
         /\ UNCHANGED <<added, info, cache, saving, asked, readable, piece, writing, done, kills, damages>>
Add == /\ run = "up" /\ ~added /\ added' = TRUE
       /\ UNCHANGED <<run, info, cache, saving, asked, readable, piece, writing, done, kills, damages>>

(* A peer was found: the saved copy first, then the peer. *)
UseCache == /\ added /\ info = "none" /\ ~saving /\ cache \in {"good", "wrong"}
            /\ info' = cache /\ readable' = TRUE
            /\ UNCHANGED <<run, added, cache, saving, asked, piece, writing, done, kills, damages>>
Ask(a) == /\ added /\ info = "none" /\ ~saving /\ cache \notin {"good", "wrong"}
          /\ asked' = TRUE
          /\ IF a = "good" THEN info' = "good" /\ saving' = TRUE /\ cache' = "torn"
             ELSE UNCHANGED <<info, saving, cache>>          \* wrong hash: no effect
          /\ UNCHANGED <<run, added, readable, piece, writing, done, kills, damages>>
Saved == /\ saving /\ saving' = FALSE /\ cache' = "good"
         /\ UNCHANGED <<run, added, info, asked, readable, piece, writing, done, kills, damages>>

(* Every piece is fetched and written again in a new run. *)
Begin(p) == /\ info = "good" /\ ~saving /\ p \notin writing \cup done
            /\ writing' = writing \cup {p}
            /\ piece' = [piece EXCEPT ![p] = IF @ = "good" THEN "good" ELSE "half"]
            /\ UNCHANGED <<run, added, info, cache, saving, asked, readable, done, kills, damages>>
Finish(p) == /\ p \in writing /\ writing' = writing \ {p} /\ done' = done \cup {p}
             /\ piece' = [piece EXCEPT ![p] = "good"]
             /\ UNCHANGED <<run, added, info, cache, saving, asked, readable, kills, damages>>

Kill == /\ run = "up" /\ kills < MaxKills
        /\ run' = "down" /\ added' = FALSE /\ info' = "none" /\ saving' = FALSE /\ asked' = FALSE /\ readable' = FALSE
        /\ writing' = {} /\ done' = {} /\ kills' = kills + 1
        /\ UNCHANGED <<cache, piece, damages>>
(* Somebody damages or removes the saved copy while the client is down. *)
Damage == /\ run = "down" /\ damages < MaxDamage /\ cache # "none"
          /\ cache' \in {"none", "torn"} /\ damages' = damages + 1
          /\ UNCHANGED <<run, added, info, saving, asked, readable, piece, writing, done, kills>>

Next == \/ Start \/ Add \/ UseCache \/ (\E a \in Answers : Ask(a)) \/ Saved
        \/ (\E p \in Pieces : Begin(p) \/ Finish(p)) \/ Kill \/ Damage
Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Start) /\ WF_vars(Add) /\ WF_vars(UseCache) /\ SF_vars(Ask("good")) /\ WF_vars(Saved)
        /\ \A p \in Pieces : WF_vars(Begin(p)) /\ WF_vars(Finish(p))

(* C06 *) Inv_OnlyRight == info # "wrong" /\ cache # "wrong"
(* C07 *) Inv_NoNeedlessAsk == readable => ~asked
(* C20 *) Inv_NoBadBytes == \A p \in Pieces : piece[p] \in {"gap", "half", "good"}
          Inv_KeepsGood == \A p \in done : piece[p] = "good"
          Act_NeverUndone == [][\A p \in Pieces : piece[p] = "good" => piece'[p] = "good"]_vars
(* C07, C20 *) Live_Completes == <>[](\A p \in Pieces : piece[p] = "good")
               Live_Saved == <>[](cache = "good")
=============================================================================
