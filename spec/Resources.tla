----------------------------- MODULE Resources ------------------------------
(* What the client holds open, and for how long.  Every use - a session with a peer, a  *)
(* probe, an exchange with a tracker, a request of a user, a write - takes something     *)
(* from the system when it begins and gives it back when it is over, however it ends.     *)
(* A torrent takes a fixed number of threads, whatever happens to it, and gives them       *)
(* back when nothing is left to be done for it.                                       *)
EXTENDS Naturals, FiniteSets
CONSTANTS Torrents,
          Kinds,         \* kinds of use
          Width,         \* kind -> uses of it that one torrent has at once
          Ends,          \* ways in which a use can end
          Tries,         \* uses of one kind that a torrent makes in all
          PerTorrent,    \* threads
          Stays,         \* torrents that keep their threads: {} is the client
         Forgets        \* set of <<kind, end>> after which what was taken is not given back: {} is the client
VARIABLES added, done,   \* torrents: all, those for which nothing is left to be done
          n,             \* torrent, kind -> uses so far
          going,         \* uses [t, k, i]
          held,          \* uses that have something open
          threads
vars == <<added, done, n, going, held, threads>>
Of(s, t, k) == {u \in s : u.t = t /\ u.k = k}

Init == added = {} /\ done = {} /\ n = [t \in Torrents |-> [k \in Kinds |-> 0]] /\ going = {} /\ held = {} /\ threads = 0
Add(t) == t \notin added /\ added' = added \cup {t} /\ threads' = threads + PerTorrent /\ UNCHANGED <<done, n, going, held>>
Begin(t, k) == /\ t \in added \ done /\ n[t][k] < Tries /\ Cardinality(Of(going, t, k)) < Width[k]
               /\ n' = [n EXCEPT ![t][k] = @ + 1]
               /\ LET u == [t |-> t, k |-> k, i |-> n[t][k]] IN going' = going \cup {u} /\ held' = held \cup {u}
               /\ UNCHANGED <<added, done, threads>>
Over(u, how) == /\ u \in going /\ going' = going \ {u}
                /\ held' = IF <<u.k, how>> \in Forgets THEN held ELSE held \ {u}
                /\ UNCHANGED <<added, done, n, threads>>
Finish(t) == /\ t \in added \ done /\ \A u \in going : u.t # t
             /\ done' = done \cup {t} /\ threads' = (IF t \in Stays THEN threads ELSE threads - PerTorrent) /\ UNCHANGED <<added, n, going, held>>
Next == (\E t \in Torrents : Add(t) \/ Finish(t)) \/ (\E t \in Torrents, k \in Kinds : Begin(t, k)) \/ (\E u \in going, how \in Ends : Over(u, how))
Spec == Init /\ [][Next]_vars /\ (\A t \in Torrents : WF_vars(Finish(t))) /\ WF_vars(\E u \in going, how \in Ends : Over(u, how))

Inv_Held == held \subseteq going
Inv_Width == \A t \in Torrents, k \in Kinds : Cardinality(Of(held, t, k)) <= Width[k]
Inv_Threads == threads = PerTorrent * Cardinality(added \ done)
Live_Quiet == <>[](held = {} /\ threads = 0)
=============================================================================
