------------------------------ MODULE LayoutGen -------------------------------
(* All small file lists and piece lengths, all orders of arrival: the writer's    *)
(* transitions, checked against the definition of the layout, and the tests.      *)
EXTENDS Layout, TLC, Json
CONSTANTS MaxFiles, MaxLen, PieceLens, MaxPieces, Orders

Lists == UNION {[1..n -> 0..MaxLen] : n \in 1..MaxFiles}
VARIABLES lens, pl, order, disk
vars == <<lens, pl, order, disk>>
Init == /\ lens \in Lists /\ pl \in PieceLens
        /\ NPieces(lens, pl) \in 1..MaxPieces
        /\ order = <<>>
        /\ disk = [f \in DOMAIN lens |-> [k \in 1..lens[f] |-> GAP]]
Written == {order[j] : j \in DOMAIN order}
(* the writer goes through the files once, with the window of the piece *)
Write(i) == /\ i \notin Written
            /\ order' = Append(order, i)
            /\ disk' = [f \in DOMAIN lens |-> [k \in 1..lens[f] |->
                          IF Covers(lens, pl, f, i) /\ k - 1 >= From(lens, pl, f, i) /\ k - 1 < To(lens, pl, f, i)
                          THEN FileStart(lens, f) + k - 1 ELSE disk[f][k]]]
            /\ UNCHANGED <<lens, pl>>
Next == \E i \in 0..(NPieces(lens, pl) - 1) : Write(i)
Spec == Init /\ [][Next]_vars

Inv_Layout == disk = Expected(lens, pl, Written)
Inv_Complete == Cardinality(Written) = NPieces(lens, pl) =>
                  \A f \in DOMAIN lens : \A k \in 1..lens[f] : disk[f][k] = FileStart(lens, f) + k - 1
(* the windows of one piece tile it *)
RECURSIVE SumTo(_, _)
SumTo(i, f) == IF f = 0 THEN 0 ELSE SumTo(i, f - 1) + (IF Covers(lens, pl, f, i) THEN To(lens, pl, f, i) - From(lens, pl, f, i) ELSE 0)
Inv_Tile == \A i \in 0..(NPieces(lens, pl) - 1) : SumTo(i, Len(lens)) = PieceEnd(lens, pl, i) - i * pl
Emit == Cardinality(Written) = NPieces(lens, pl) => PrintT("@@" \o ToJson([lens |-> lens, pl |-> pl, order |-> order]))
===============================================================================
