----------------------------- MODULE MagnetTrace -----------------------------
(* Judges what the client made of request bodies.                                   *)
(* records [op "parse", w, out "ok"|"err"|"crash", h]      the parser alone             *)
(*         [op "post", w, st, text]      status answered; text: is the whole body UTF-8               *)
(*         [op "run", hs: hashes announced or used in a session, ws: bodies posted,      *)
(*          sts: their statuses]     of a whole client                                 *)
EXTENDS Magnet, TLC, Json
CONSTANTS File
Recs == ndJsonDeserialize(File)
Set(s) == {s[i] : i \in 1..Len(s)}

Good(r) ==
  LET d == Denotes(r.w) IN
  CASE r.op = "parse" -> IF d # NotAHash THEN (r.out = "ok" /\ r.h = d) \/ (r.out = "err" /\ Optional(r.w)) ELSE r.out = "err"
    [] r.op = "post" -> IF d # NotAHash THEN r.st \in 200..299 \/ (r.st \in 400..499 /\ (Optional(r.w) \/ ~r.text)) ELSE r.st \in 400..499
    [] r.op = "run" -> Set(r.hs) = {Denotes(r.ws[i]) : i \in {j \in DOMAIN r.ws : r.sts[j] \in 200..299}}

VARIABLE l
Init == l = 1
Next == l <= Len(Recs) /\ (IF Good(Recs[l]) THEN TRUE ELSE PrintT("@@" \o ToJson([bad |-> l]))) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter = Len(Recs) + 1
=============================================================================
