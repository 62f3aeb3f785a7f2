------------------------------- MODULE Layout ---------------------------------
(* Where pieces go.  The torrent's bytes are numbered from 0 through all files;   *)
(* a file cell is GAP or the number of the byte it holds.                         *)
EXTENDS Naturals, Sequences, FiniteSets

GAP == 1000000
RECURSIVE Sum(_, _)
Sum(lens, n) == IF n = 0 THEN 0 ELSE lens[n] + Sum(lens, n - 1)
Total(lens) == Sum(lens, Len(lens))
FileStart(lens, f) == Sum(lens, f - 1)
NPieces(lens, pl) == (Total(lens) + pl - 1) \div pl
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
PieceEnd(lens, pl, i) == Min((i + 1) * pl, Total(lens))

(* the part of file f that piece i covers: cells from (inclusive) and to (exclusive), from < to if there is one *)
From(lens, pl, f, i) == Max(i * pl, FileStart(lens, f)) - FileStart(lens, f)
To(lens, pl, f, i) == LET e == Min(PieceEnd(lens, pl, i), FileStart(lens, f) + lens[f])
                      IN IF e > FileStart(lens, f) THEN e - FileStart(lens, f) ELSE 0
Covers(lens, pl, f, i) == From(lens, pl, f, i) < To(lens, pl, f, i)

(* what a file holds once the pieces W are written *)
Cell(lens, pl, f, k, W) == LET g == FileStart(lens, f) + k IN IF (g \div pl) \in W THEN g ELSE GAP
Expected(lens, pl, W) == [f \in DOMAIN lens |-> [k \in 1..lens[f] |-> Cell(lens, pl, f, k - 1, W)]]
===============================================================================
