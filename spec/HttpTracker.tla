----------------------------- MODULE HttpTracker -----------------------------
(* One exchange with an HTTP tracker: src/tracker/tcp_tracker.rs.  The server and the  *)
(* network may do anything at any time; the clock of the client runs.                 *)
EXTENDS Naturals, TLC

CONSTANTS Deadline, BodyParts
VARIABLES phase,      \* "start", "connected", "asked", "head", "end"
          clock,      \* ticks since the exchange began
          status,     \* "none", "good", "bad"
          got,        \* parts of the body read
          sent,       \* parts sent
          content,    \* what the body is: "list" (a dictionary with a compact list), "other"
          eof,        \* the server has closed
          out         \* "none", "err", "peers"
vars == <<phase, clock, status, got, sent, content, eof, out>>

Init == phase = "start" /\ clock = 0 /\ status = "none" /\ got = 0 /\ sent = 0 /\ content \in {"list", "other"} /\ eof = FALSE /\ out = "none"
Fin(o) == phase' = "end" /\ out' = o
(* the server *)
Accept == phase = "start" /\ phase' = "connected" /\ UNCHANGED <<clock, status, got, sent, content, eof, out>>
Refuse == phase = "start" /\ Fin("err") /\ UNCHANGED <<clock, status, got, sent, content, eof>>
Head(s) == phase = "asked" /\ status = "none" /\ ~eof /\ status' = s /\ UNCHANGED <<phase, clock, got, sent, content, eof, out>>
Part == status # "none" /\ ~eof /\ sent < BodyParts /\ sent' = sent + 1 /\ UNCHANGED <<phase, clock, status, got, content, eof, out>>
Close == phase \in {"connected", "asked", "head"} /\ ~eof /\ eof' = TRUE /\ UNCHANGED <<phase, clock, status, got, sent, content, out>>
(* the client *)
Ask == phase = "connected" /\ phase' = "asked" /\ UNCHANGED <<clock, status, got, sent, content, eof, out>>
SeeHead == phase = "asked" /\ status # "none" /\ (IF status = "bad" THEN Fin("err") ELSE phase' = "head" /\ UNCHANGED out) /\ UNCHANGED <<clock, status, got, sent, content, eof>>
ReadPart == phase = "head" /\ got < sent /\ got' = got + 1 /\ UNCHANGED <<phase, clock, status, sent, content, eof, out>>
Whole == phase = "head" /\ got = BodyParts /\ Fin(IF content = "list" THEN "peers" ELSE "err") /\ UNCHANGED <<clock, status, got, sent, content, eof>>
Broken == phase \in {"asked", "head"} /\ eof /\ got = sent /\ (phase = "head" \/ status = "none") /\ got < BodyParts /\ Fin("err") /\ UNCHANGED <<clock, status, got, sent, content, eof>>
Tick == phase # "end" /\ clock < Deadline /\ clock' = clock + 1 /\ UNCHANGED <<phase, status, got, sent, content, eof, out>>
TimeOut == phase # "end" /\ clock = Deadline /\ Fin("err") /\ UNCHANGED <<clock, status, got, sent, content, eof>>

Next == Accept \/ Refuse \/ Head("good") \/ Head("bad") \/ Part \/ Close \/ Ask \/ SeeHead \/ ReadPart \/ Whole \/ Broken \/ Tick \/ TimeOut
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ WF_vars(TimeOut)

Inv_Peers == out = "peers" => status = "good" /\ got = BodyParts /\ content = "list" /\ clock <= Deadline
Inv_End == (phase = "end") <=> (out # "none")
Live_Ends == <>(phase = "end")
(* Nothing but the server, the network and the clock keeps a proper reply from being taken. *)
Act_NoReason == [][(out' = "err") => (phase = "start" \/ status = "bad" \/ clock = Deadline \/ eof \/ content = "other")]_vars
=============================================================================
