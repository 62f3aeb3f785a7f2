----------------------------- MODULE ControlGen -----------------------------
(* All requests with at most MaxDev deviations from the one that adds a torrent, and   *)
(* what has to become of each.                                                      *)
EXTENDS ControlOps, TLC, Json
CONSTANT MaxDev
ASSUME \A r \in Requests : Deviations(r) <= MaxDev => PrintT("@@" \o ToJson([r |-> r, adds |-> Adds(r), arrives |-> Arrives(r)]))
VARIABLE x
Init == x = 0
Next == x' = x
Spec == Init /\ [][Next]_x
=============================================================================
