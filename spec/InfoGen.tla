------------------------------- MODULE InfoGen --------------------------------
(* Torrent metadata with only the standard keys, small: every one is a test of   *)
(* reading metadata and encoding it again.                                        *)
EXTENDS Bencode, TLC, Json
CONSTANTS Names, Lens, PieceLens, Hashes, MaxFiles, Paths

S(b) == [k |-> "s", b |-> b]
I(n) == [k |-> "i", n |-> Dec(n)]
RECURSIVE Rep(_, _)
Rep(b, n) == IF n = 0 THEN <<>> ELSE <<b>> \o Rep(b, n - 1)
FileVal(f) == [k |-> "d", e |-> << << <<108,101,110,103,116,104>>, I(f.len) >>,
                                   << <<112,97,116,104>>, [k |-> "l", e |-> [j \in DOMAIN f.path |-> S(f.path[j])]] >> >>]
Tail3(x) == << << <<110,97,109,101>>, S(x.name) >>,
               << <<112,105,101,99,101,32,108,101,110,103,116,104>>, I(x.pl) >>,
               << <<112,105,101,99,101,115>>, S(Rep(170, 20 * x.nh)) >> >>
Val(x) == [k |-> "d", e |->
   IF x.multi THEN << << <<102,105,108,101,115>>, [k |-> "l", e |-> [j \in DOMAIN x.files |-> FileVal(x.files[j])]] >> >> \o Tail3(x)
   ELSE << << <<108,101,110,103,116,104>>, I(x.len) >> >> \o Tail3(x)]
File == [len : Lens, path : Paths]
FileLists == UNION {[1..n -> File] : n \in 0..MaxFiles}

VARIABLES x
Init == \/ \E a \in Names, n \in Lens, p \in PieceLens, q \in Hashes : x = [multi |-> FALSE, name |-> a, len |-> n, pl |-> p, nh |-> q]
        \/ \E a \in Names, f \in FileLists, p \in PieceLens, q \in Hashes : x = [multi |-> TRUE, name |-> a, files |-> f, pl |-> p, nh |-> q]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
RECURSIVE Read(_, _)
Read(s, w) == IF w = <<>> THEN s ELSE Read(Feed(s, Head(w), 10, 20), Tail(w))
Inv_Canonical == LET v == Val(x) z == Read(Start, Enc(v)) IN Canonical(v) /\ z.out = "done" /\ z.val = v
Emit == PrintT("@@" \o ToJson([w |-> Enc(Val(x))]))
===============================================================================
