------------------------------ MODULE SwarmOps ------------------------------
(* What one torrent decides (src/actors/torrent.rs), as operators shared by the   *)
(* exhaustive model (Swarm) and the trace validator (SwarmTrace).                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Min2(a, b) == IF a < b THEN a ELSE b
(* Failures count up to four: beyond that they make no difference. *)
Bump(f, e) == [f EXCEPT ![e] = Min2(@ + 1, 4)]

(* The peers the next attempt may go to, given the failures of the known ones. *)
Preferred(known, f) ==
  LET a == {e \in known : f[e] < 2}
      b == {e \in known : f[e] < 4}
  IN IF a # {} THEN a ELSE IF b # {} THEN b ELSE known

(* When a download starts, and with how many transfers at once. *)
StartNow(info, nfound, started, minPeers) == info /\ nfound >= minPeers /\ ~started
=============================================================================
