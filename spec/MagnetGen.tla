------------------------------ MODULE MagnetGen ------------------------------
(* Request bodies by construction: a hash, written in one of the forms, and what     *)
(* may be wrong with it.  What the construction says must be what Denotes reads.      *)
EXTENDS Magnet, TLC, Json
CONSTANTS As, Bs           \* hashes: byte i is (a * i + b * i * i + b) mod 256

Hash(a, b) == [i \in 1..20 |-> (a * i + b * i * i + b) % 256]
Forms == {"low", "up", "mix", "b32"}
Digits(h, f) == IF f = "b32" THEN B32Enc(h) ELSE HexEnc(h, f)

Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, b) == SubSeq(s, 1, i - 1) \o b \o SubSeq(s, i, Len(s))
Put(s, i, b) == SubSeq(s, 1, i - 1) \o b \o SubSeq(s, i + 1, Len(s))

(* All ways to begin; only the first is right. *)
Pres == << Prefix, <<>>, Tail(Prefix), Put(Prefix, 1, <<77>>), Put(Prefix, 7, <<>>), Put(Prefix, 8, <<>>), Put(Prefix, 8, <<38>>), Put(Prefix, 17, <<109>>), Prefix \o Prefix,
           <<32>> \o Prefix, Put(Prefix, 20, <<>>), Put(Prefix, 20, <<47>>), SubSeq(Prefix, 1, 8) \o <<100,110,61,97,38>> \o SubSeq(Prefix, 9, 20), Put(Prefix, 10, <<116,46,49>>), Prefix \o <<32>>, <<239,187,191>> \o Prefix >>
(* Bytes around the digits, the letters and what decoders take for digits. *)
Odd == {0, 32, 37, 38, 43, 45, 46, 47, 48, 49, 56, 57, 58, 61, 64, 71, 91, 95, 96, 103, 123, 127}
Wide == {<<195,169>>, <<239,188,145>>, <<240,144,141,136>>, <<128>>, <<255>>}
(* After the hash: right ones first. *)
Tails == << <<>>, <<38>>, <<38,100,110,61,120>>, <<38,120,116,61,117,114,110,58,98,116,105,104,58,97,98>>, <<38,38,38>>, <<38,195,169,37,50,54,61,61,10>>,
            <<10>>, <<32>>, <<35,120>>, <<59,100,110,61,120>>, <<61>>, <<63,120>>, <<47>>, <<0>>, <<37,50,54>>, <<195,169>> >>
GoodTails == 1..6

VARIABLES a, b, form, pre, dmg, tail
vars == <<a, b, form, pre, dmg, tail>>
H == Hash(a, b)
D == Digits(H, form)
Places == {1, 2, Len(D) \div 2, Len(D) - 1, Len(D)}
Damages == {[k |-> "none"]} \cup {[k |-> "put", i |-> i, b |-> <<x>>] : i \in {1, 2, 17, 31, 32}, x \in Odd}
           \cup {[k |-> "put", i |-> i, b |-> x] : i \in {1, 16, 32}, x \in Wide} \cup {[k |-> "cut", i |-> i] : i \in {1, 20, 32}} \cup {[k |-> "ins", i |-> i, b |-> <<x>>] : i \in {1, 32, 33}, x \in {48, 65, 55, 61}}
           \cup {[k |-> "first", n |-> n] : n \in {0, 1, 8, 16, 20, 30, 31, 32, 38}} \cup {[k |-> "twice"]}
Damaged(s) == CASE dmg.k = "none" -> s [] dmg.k = "put" -> Put(s, dmg.i, dmg.b) [] dmg.k = "cut" -> Cut(s, dmg.i) [] dmg.k = "ins" -> Ins(s, dmg.i, dmg.b)
                [] dmg.k = "first" -> SubSeq(s, 1, IF dmg.n < Len(s) THEN dmg.n ELSE Len(s) - 1) [] dmg.k = "twice" -> s \o s
Body == Pres[pre] \o Damaged(D) \o Tails[tail]

Init == /\ a \in As /\ b \in Bs /\ form \in Forms /\ pre \in 1..Len(Pres) /\ dmg \in Damages /\ tail \in 1..Len(Tails)
        /\ (IF pre = 1 THEN 0 ELSE 1) + (IF dmg.k = "none" THEN 0 ELSE 1) + (IF tail = 1 THEN 0 ELSE 1) <= 1
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* What is said by construction. *)
Right == pre = 1 /\ dmg.k = "none" /\ tail \in GoodTails
Inv_Right == Right => Denotes(Body) = H
Inv_Wrong == (pre # 1 \/ tail \notin GoodTails \/ dmg.k \in {"cut", "ins", "twice"}) => Denotes(Body) = NotAHash
(* A byte put elsewhere keeps the length: a hash results exactly if the byte is a digit. *)
Inv_Put == dmg.k = "put" => (Denotes(Body) # NotAHash) = (Len(dmg.b) = 1 /\ (IF form = "b32" THEN B32Val(dmg.b[1]) < 32 ELSE HexVal(dmg.b[1]) < 16))
Inv_Size == Len(Denotes(Body)) \in {0, 20} /\ \A i \in DOMAIN Denotes(Body) : Denotes(Body)[i] \in 0..255
Emit == PrintT("@@" \o ToJson([w |-> Body, h |-> Denotes(Body), opt |-> Optional(Body)]))
=============================================================================
