------------------------------- MODULE UdpGen -------------------------------
(* Enumerates what a tracker may do with the requests of one exchange, and what     *)
(* must become of it.  One list per step; entry i is what request i is met with:    *)
(*   lost   nothing            bad     datagrams that match nothing                *)
(*   late   the reply, after the client's patience                              *)
(* and the last entry: good, badgood (noise first), goodgood (twice), goodbad        *)
(* (noise after), or never: all further requests are lost.                         *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Tol     \* how many requests may go unanswered for certain

Miss == {"lost", "bad"}
Last == {"good", "badgood", "goodgood", "goodbad", "late"}
Seqs == UNION {[1..k -> Miss] : k \in 0..3}
Steps == {Append(s, e) : s \in Seqs, e \in Last} \cup {Append(s, "never") : s \in Seqs}
Misses(s) == Len(s) - 1 + (IF s[Len(s)] = "late" THEN 1 ELSE 0)
Fate(s) == IF s[Len(s)] = "never" THEN "none" ELSE IF Misses(s) <= Tol THEN "ok" ELSE "any"
Both(a, b) == IF a = "none" THEN "none" ELSE IF a = "ok" THEN b ELSE IF b = "none" THEN "none" ELSE "any"

ASSUME \A c \in Steps : PrintT("@@" \o ToJson([s |-> c, f |-> Fate(c)]))
VARIABLE x
Init == x = 0
Next == x' = x
Spec == Init /\ [][Next]_x
=============================================================================
