-------------------------------- MODULE Paths ---------------------------------
(* Where a file path of a torrent leads.  A component is a sequence of atoms (its *)
(* text split at the separators), so the text "a/b" is <<"a", "b">>, "/x" is       *)
(* <<"", "x">>, "" is <<"">>.  Joining components with separators concatenates     *)
(* their atoms.                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Comps,        \* the components
          MaxComps,
          Depth         \* how deep the working directory lies below the root

RECURSIVE Flat(_)
Flat(p) == IF p = <<>> THEN <<>> ELSE Head(p) \o Flat(Tail(p))

(* POSIX resolution of the joined text from the working directory: how far up it  *)
(* goes at the most, and where it ends (a sequence of names below the highest)     *)
Absolute(a) == Len(a) > 1 /\ a[1] = ""
RECURSIVE Walk(_, _, _)
Walk(a, here, up) ==
  IF a = <<>> THEN [up |-> up, at |-> here]
  ELSE CASE Head(a) \in {"", "."} -> Walk(Tail(a), here, up)
         [] Head(a) = ".." -> IF here = <<>> THEN Walk(Tail(a), <<>>, up + 1) ELSE Walk(Tail(a), SubSeq(here, 1, Len(here) - 1), up)
         [] OTHER -> Walk(Tail(a), Append(here, Head(a)), up)
Escapes(p) == LET a == Flat(p) IN Absolute(a) \/ Walk(a, <<>>, 0).up > 0

PlainName(c) == Len(c) = 1 /\ c[1] \notin {"", ".", ".."}
Safe(p) == p # <<>> /\ \A j \in DOMAIN p : PlainName(p[j])
(* what the property names: parent references, absolute paths, separators inside a component, empty components *)
Named(p) == p = <<>> \/ \E j \in DOMAIN p : Len(p[j]) > 1 \/ p[j][1] \in {"", ".."}

VARIABLE p
Lists == UNION {[1..n -> Comps] : n \in 0..MaxComps}
Init == p \in Lists
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
(* refusing every path that is not safe keeps all writes inside, and a safe path leads where it says *)
Inv_SafeStays == Safe(p) => ~Escapes(p) /\ Walk(Flat(p), <<>>, 0).at = [j \in DOMAIN p |-> p[j][1]]
Inv_EscapeIsNamed == Escapes(p) => Named(p)
Inv_Either == ~(Safe(p) /\ Named(p))
(* "write": the file has to appear; "refuse": it must not; "inside": at most inside the directory *)
Verdict == IF Safe(p) THEN "write" ELSE IF Named(p) THEN "refuse" ELSE "inside"
Emit == PrintT("@@" \o ToJson([p |-> p, verdict |-> Verdict, escapes |-> Escapes(p)]))
===============================================================================
