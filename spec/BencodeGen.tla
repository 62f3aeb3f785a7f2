----------------------------- MODULE BencodeGen ------------------------------
(* Reads every byte sequence over Alphabet, until no canonical encoding can     *)
(* begin like it; every sequence read is a test of the real decoder.            *)
EXTENDS Bencode, TLC, Json
CONSTANTS Alphabet, MaxLen, MaxNest, Tails

VARIABLES inp, st, n     \* n: bytes consumed when done
vars == <<inp, st, n>>

Init == inp = <<>> /\ st = Start /\ n = 0
Next == /\ st.out = "run" /\ Len(inp) < MaxLen
        /\ \E b \in Alphabet :
             LET s == Feed(st, b, MaxNest, 20) IN
             /\ inp' = Append(inp, b) /\ st' = s
             /\ n' = IF s.out = "done" THEN Len(inp) + 1 ELSE 0
Spec == Init /\ [][Next]_vars

(* The automaton accepts canonical encodings, only those, and rejects nothing that can still become one. *)
RECURSIVE RunAll(_, _)
RunAll(s, w) == IF w = <<>> THEN s ELSE RunAll(Feed(s, Head(w), MaxNest + 1, 20), Tail(w))
Inv_Exact == st.out = "done" => Canonical(st.val) /\ Enc(st.val) = inp
Inv_OneReading == st.out = "done" => \A k \in 1..(Len(inp) - 1) : RunAll(Start, SubSeq(inp, 1, k)).out = "run"
Inv_Live == (st.out = "run" /\ inp # <<>> /\ st.tok \in {"int", "none"})
              => LET s == RunAll(st, Completion(st)) IN s.out = "done" /\ Canonical(s.val) /\ Enc(s.val) = inp \o Completion(st)
Emit == PrintT("@@" \o ToJson([w |-> inp, out |-> st.out, v |-> st.val]))
==============================================================================
