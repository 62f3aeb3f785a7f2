----------------------------- MODULE Concurrent -----------------------------
(* Who runs where: src/main.rs, src/actors/torrent.rs, src/actors/connection.rs,     *)
(* src/actors/writer.rs.  HTTP workers answer posts; every torrent has an actor that   *)
(* handles one message at a time and blocks its thread while it asks a peer for the    *)
(* metadata, W connection threads that block while they talk to a peer, and a writer.  *)
(* Steps of a bad torrent may take for ever (its peers are silent, its files cannot be *)
(* written): no fairness is assumed of them.  Good torrents shall not notice.          *)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS Torrents, Bad, Workers, W, Pieces,
          Own          \* TRUE: every torrent has a thread and pools of its own.  FALSE: it lives on the worker that took the post.
VARIABLES home,        \* torrent -> executor its actor runs on, "none" before it is added
          busy,        \* executor -> torrent it is busy with, or "no"
          meta,        \* torrents whose metadata is known
          todo,        \* torrent -> pieces not fetched
          conns,       \* torrent -> pieces being fetched
          fetched,     \* torrent -> pieces to be written
          written      \* torrent -> pieces written
vars == <<home, busy, meta, todo, conns, fetched, written>>
Good == Torrents \ Bad
Execs == Workers \cup (IF Own THEN Torrents ELSE {})

Init == /\ home = [t \in Torrents |-> "none"] /\ busy = [x \in Execs |-> "no"] /\ meta = {} /\ todo = [t \in Torrents |-> Pieces]
        /\ conns = [t \in Torrents |-> {}] /\ fetched = [t \in Torrents |-> {}] /\ written = [t \in Torrents |-> {}]

Post(t, w) == /\ home[t] = "none" /\ busy[w] = "no" /\ home' = [home EXCEPT ![t] = IF Own THEN t ELSE w]
              /\ UNCHANGED <<busy, meta, todo, conns, fetched, written>>
AskMeta(t) == /\ home[t] # "none" /\ t \notin meta /\ busy[home[t]] = "no" /\ busy' = [busy EXCEPT ![home[t]] = t]
              /\ UNCHANGED <<home, meta, todo, conns, fetched, written>>
(* The attempt ends; the metadata may or may not have come. *)
GotMeta(t) == /\ home[t] # "none" /\ busy[home[t]] = t /\ busy' = [busy EXCEPT ![home[t]] = "no"] /\ meta' = meta \cup {t}
              /\ UNCHANGED <<home, todo, conns, fetched, written>>
NoMeta(t) == /\ t \in Bad /\ home[t] # "none" /\ busy[home[t]] = t /\ busy' = [busy EXCEPT ![home[t]] = "no"]
             /\ UNCHANGED <<home, meta, todo, conns, fetched, written>>
(* The actor hands a piece to one of its connection threads. *)
Assign(t, p) == /\ t \in meta /\ busy[home[t]] = "no" /\ p \in todo[t] /\ Cardinality(conns[t]) < W
                /\ todo' = [todo EXCEPT ![t] = @ \ {p}] /\ conns' = [conns EXCEPT ![t] = @ \cup {p}]
                /\ UNCHANGED <<home, busy, meta, fetched, written>>
Fetch(t, p) == /\ p \in conns[t] /\ busy[home[t]] = "no"
               /\ conns' = [conns EXCEPT ![t] = @ \ {p}] /\ fetched' = [fetched EXCEPT ![t] = @ \cup {p}]
               /\ UNCHANGED <<home, busy, meta, todo, written>>
Fail(t, p) == /\ t \in Bad /\ p \in conns[t] /\ busy[home[t]] = "no"
              /\ conns' = [conns EXCEPT ![t] = @ \ {p}] /\ todo' = [todo EXCEPT ![t] = @ \cup {p}]
              /\ UNCHANGED <<home, busy, meta, fetched, written>>
Write(t, p) == /\ p \in fetched[t] /\ fetched' = [fetched EXCEPT ![t] = @ \ {p}] /\ written' = [written EXCEPT ![t] = @ \cup {p}]
               /\ UNCHANGED <<home, busy, meta, todo, conns>>

Next == \E t \in Torrents : \/ \E w \in Workers : Post(t, w)
                            \/ AskMeta(t) \/ GotMeta(t) \/ NoMeta(t)
                            \/ \E p \in Pieces : Assign(t, p) \/ Fetch(t, p) \/ Fail(t, p) \/ Write(t, p)
(* Strong where the mere coming and going of others on a shared thread disables the step. *)
Spec == /\ Init /\ [][Next]_vars
        /\ \A t \in Good : /\ SF_vars(\E w \in Workers : Post(t, w)) /\ SF_vars(AskMeta(t)) /\ WF_vars(GotMeta(t))
                           /\ \A p \in Pieces : SF_vars(Assign(t, p)) /\ SF_vars(Fetch(t, p)) /\ WF_vars(Write(t, p))
Live_Good == \A t \in Good : <>(written[t] = Pieces)
Inv_Width == \A t \in Torrents : Cardinality(conns[t]) <= W
Inv_Once == \A t \in Torrents : /\ todo[t] \cap conns[t] = {} /\ conns[t] \cap fetched[t] = {} /\ fetched[t] \cap written[t] = {}
                                /\ todo[t] \cup conns[t] \cup fetched[t] \cup written[t] = Pieces
=============================================================================
