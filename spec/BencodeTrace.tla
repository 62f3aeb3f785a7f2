---------------------------- MODULE BencodeTrace -----------------------------
(* Judges recorded calls of the real decoder and encoder.                       *)
(*   [op "dec", w, out "ok"|"err", v, n]   decode(w) gave the value whose canonical *)
(*                                       encoding is v, and consumed n bytes    *)
(*   [op "enc", v, w]                      encode(v) gave w                      *)
EXTENDS Bencode, TLC, Json
CONSTANTS File
Recs == ndJsonDeserialize(File)

RECURSIVE Read(_, _, _)
Read(s, w, k) == IF s.out # "run" \/ k > Len(w) THEN <<s, k - 1>> ELSE Read(Feed(s, w[k], 100, 20), w, k + 1)

Good(r) ==
  CASE r.op = "dec" ->
         LET z == Read(Start, r.w, 1) IN
         CASE z[1].out = "done" /\ Fits64(z[1].val) -> r.out = "ok" /\ r.v = Enc(z[1].val) /\ r.n = z[2]
           [] z[1].out = "run" /\ r.w # <<>> -> r.out = "err"
           [] OTHER -> r.out = "err" \/ (r.out = "ok" /\ r.n <= Len(r.w))
    [] r.op = "enc" -> Canonical(r.v) /\ Enc(r.v) = r.w
    [] r.op = "entry" -> r.w = EncS(r.key) \o Enc(r.v)
    [] r.op = "absent" -> r.w = <<>>
    [] r.op = "back" -> LET z == Read(Start, r.w, 1) IN   \* decode, then encode
         z[1].out = "done" /\ z[2] = Len(r.w) /\ Canonical(z[1].val) /\ r.back = r.w

VARIABLE l
Init == l = 1
Next == l <= Len(Recs) /\ (IF Good(Recs[l]) THEN TRUE ELSE PrintT("@@" \o ToJson([bad |-> l]))) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter = Len(Recs) + 1
==============================================================================
