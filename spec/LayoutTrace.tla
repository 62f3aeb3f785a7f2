----------------------------- MODULE LayoutTrace ------------------------------
(* Judges recorded sequences of piece writes: after each write, for every part of *)
(* every file whether it is still a gap ("gap"), holds what was there before any    *)
(* write ("old": the first pre[f] bytes of the file) or the torrent's bytes ("full"), *)
(* the sizes, and whatever else there is.                                        *)
EXTENDS Layout, TLC, Json
CONSTANTS File
Recs == ndJsonDeserialize(File)

Prefix(r, j) == {r.order[k] : k \in 1..j}
MaxEnd(r, f, W) == LET S == {To(r.lens, r.pl, f, i) : i \in {i \in W : Covers(r.lens, r.pl, f, i)}} \cup {0}
                   IN CHOOSE m \in S : \A n \in S : n <= m
GoodStep(r, j) ==
  LET s == r.steps[j] W == Prefix(r, j) all == W = 0..(NPieces(r.lens, r.pl) - 1) IN
  /\ ~s.panic /\ s.other = 0
  /\ \A f \in DOMAIN r.lens : \A i \in 0..(NPieces(r.lens, r.pl) - 1) :
        Covers(r.lens, r.pl, f, i) => s.cells[f][i + 1] = IF i \in W THEN "full" ELSE IF r.pre[f] > From(r.lens, r.pl, f, i) THEN "old" ELSE "gap"
  /\ \A f \in DOMAIN r.lens : /\ s.sizes[f] <= r.lens[f]
                              /\ s.sizes[f] >= MaxEnd(r, f, W) /\ s.sizes[f] >= r.pre[f]
                              /\ all => s.there[f] /\ s.sizes[f] = r.lens[f]
Good(r) == Len(r.steps) = Len(r.order) /\ \A j \in DOMAIN r.steps : GoodStep(r, j)

VARIABLE l
Init == l = 1
Next == l <= Len(Recs) /\ (IF Good(Recs[l]) THEN TRUE ELSE PrintT("@@" \o ToJson([bad |-> l]))) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter = Len(Recs) + 1
===============================================================================
