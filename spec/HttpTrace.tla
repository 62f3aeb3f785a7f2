------------------------------ MODULE HttpTrace ------------------------------
(* Judges recorded exchanges of the real client with HTTP trackers.                   *)
(*  [how, body, out, flat, ms, req, path, host, hash]                                *)
(*   how: "whole" the server sent a complete good response in time, "cut" closed        *)
(*        before the announced end, "late" after a while, "bad" anything else           *)
(*   flat: the endpoints returned, 6 bytes each;  req: the request as received           *)
EXTENDS Bencode, TLC, Json
CONSTANTS File, MaxMs
Recs == ndJsonDeserialize(File)

RECURSIVE Read(_, _, _)
Read(s, w, k) == IF s.out # "run" \/ k > Len(w) THEN <<s, k - 1>> ELSE Read(Feed(s, w[k], 100, 20), w, k + 1)

PeersKey == <<112,101,101,114,115>>
Whole6(s) == SubSeq(s, 1, 6 * (Len(s) \div 6))
(* What the body says: a compact list, or no list; "odd" where bencode is not canonical. *)
Says(w) ==
  LET z == Read(Start, w, 1) IN
  IF z[1].out = "run" \/ z[2] <= 1 THEN [k |-> "none", s |-> <<>>]
  ELSE IF z[1].out = "rej" THEN [k |-> "odd", s |-> <<>>]
  ELSE IF z[1].val.k # "d" THEN [k |-> "none", s |-> <<>>]
  ELSE LET hits == {i \in DOMAIN z[1].val.e : z[1].val.e[i][1] = PeersKey} IN
       IF hits = {} THEN [k |-> "none", s |-> <<>>]
       ELSE LET v == z[1].val.e[CHOOSE i \in hits : TRUE][2] IN
            IF v.k # "s" THEN [k |-> "none", s |-> <<>>]
            ELSE [k |-> IF z[2] < Len(w) \/ Len(v.b) % 6 # 0 THEN "ragged" ELSE "list", s |-> v.b]

Outcome(r) ==
  LET q == Says(r.body)
      err == r.out = "err"
      list == r.out = "ok" /\ r.flat = Whole6(q.s) IN
  CASE r.how = "bad" -> err
    [] q.k = "none" -> err
    [] q.k = "odd" -> r.out \in {"ok", "err"}
    [] q.k = "ragged" -> err \/ list
    [] OTHER -> IF r.how = "whole" THEN list ELSE err \/ list

(* ------------------------------ the request ------------------------------ *)
Hex(b) == CASE b \in 48..57 -> b - 48 [] b \in 65..70 -> b - 55 [] b \in 97..102 -> b - 87 [] OTHER -> 99
Unreserved(b) == b \in 48..57 \/ b \in 65..90 \/ b \in 97..122 \/ b \in {45, 46, 95, 126}
RECURSIVE Pct(_)       \* percent decoding; <<999>> where it is not properly encoded
Pct(s) == IF s = <<>> THEN <<>>
          ELSE IF s[1] = 37 THEN IF Len(s) >= 3 /\ Hex(s[2]) < 16 /\ Hex(s[3]) < 16 THEN <<Hex(s[2]) * 16 + Hex(s[3])>> \o Pct(SubSeq(s, 4, Len(s))) ELSE <<999>>
          ELSE IF Unreserved(s[1]) THEN <<s[1]>> \o Pct(Tail(s)) ELSE <<999>>
RECURSIVE Find(_, _, _)
Find(s, b, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = b THEN i ELSE Find(s, b, i + 1)
RECURSIVE Split(_, _)
Split(s, b) == LET i == Find(s, b, 1) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), b)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
InfoHash == <<105,110,102,111,95,104,97,115,104,61>>      \* info_hash=
PeerId == <<112,101,101,114,95,105,100,61>>               \* peer_id=
Param(fs, name) == {SubSeq(fs[i], Len(name) + 1, Len(fs[i])) : i \in {j \in DOMAIN fs : Starts(fs[j], name)}}
(* r.req: [method, target, host] as bytes; own: the fields the tracker's address has already *)
Request(r) ==
  LET q == Find(r.req.target, 63, 1)
      fs == Split(SubSeq(r.req.target, q + 1, Len(r.req.target)), 38) IN
  /\ r.req.method = <<71,69,84>>
  /\ q # 0 /\ SubSeq(r.req.target, 1, q - 1) = r.path
  /\ {Pct(x) : x \in Param(fs, InfoHash)} = {r.hash}
  /\ Param(fs, PeerId) # {} /\ \A x \in Param(fs, PeerId) : Len(Pct(x)) = 20 /\ 999 \notin {Pct(x)[i] : i \in 1..20}
  /\ \A i \in DOMAIN r.own : \E j \in DOMAIN fs : fs[j] = r.own[i]
  /\ r.req.host = r.host

Good(r) == r.ms <= MaxMs /\ Outcome(r) /\ (r.asked => Request(r))

VARIABLE l
Init == l = 1
Next == l <= Len(Recs) /\ (IF Good(Recs[l]) THEN TRUE
                           ELSE PrintT("@@" \o ToJson([bad |-> l, what |-> IF Recs[l].ms > MaxMs THEN "time" ELSE IF ~Outcome(Recs[l]) THEN "result" ELSE "request"]))) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter = Len(Recs) + 1
==============================================================================
