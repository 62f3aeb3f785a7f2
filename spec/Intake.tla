------------------------------- MODULE Intake -------------------------------
(* From a posted magnet to the peers its torrent knows: src/main.rs,                *)
(* src/actors/trackers_interface.rs, src/actors/tracker.rs.                        *)
(* Every accepted magnet is put in the mailbox of every tracker; exchanges of one    *)
(* tracker run side by side; every reachable peer of a reply is made known to the    *)
(* torrent the exchange was for.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Magnets, Trackers,
          Cap,            \* room in a mailbox, 0: unbounded.  With bounds a full mailbox makes the sender wait.
          Peers           \* [Trackers -> [Magnets -> set of peers listed]], over <<tracker, magnet, i>>
VARIABLES accepted,       \* magnets answered with success
          sending,        \* <<magnet, tracker>> still to be put in mailboxes
          box,            \* tracker -> sequence of magnets
          running,        \* exchanges in progress: <<tracker, magnet>>
          state,          \* tracker -> "up", "silent", "nonsense", "down"
          announced,      \* <<tracker, magnet>> the tracker got a proper announce for
          toprobe,        \* <<tracker, magnet, peer>> listed and not probed
          known,          \* magnet -> peers its torrent knows
          turns           \* how often trackers may still change
vars == <<accepted, sending, box, running, state, announced, toprobe, known, turns>>

Init == /\ accepted = {} /\ sending = {} /\ box = [k \in Trackers |-> <<>>] /\ running = {} /\ state \in [Trackers -> {"up", "silent"}]
        /\ announced = {} /\ toprobe = {} /\ known = [m \in Magnets |-> {}] /\ turns = 2

Post(m) == /\ m \notin accepted /\ accepted' = accepted \cup {m} /\ sending' = sending \cup {<<m, k>> : k \in Trackers}
           /\ UNCHANGED <<box, running, state, announced, toprobe, known, turns>>
Deliver(m, k) == /\ <<m, k>> \in sending /\ (Cap = 0 \/ Len(box[k]) < Cap)
                 /\ sending' = sending \ {<<m, k>>} /\ box' = [box EXCEPT ![k] = Append(@, m)]
                 /\ UNCHANGED <<accepted, running, state, announced, toprobe, known, turns>>
Begin(k) == /\ box[k] # <<>> /\ running' = running \cup {<<k, Head(box[k])>>} /\ box' = [box EXCEPT ![k] = Tail(@)]
            /\ UNCHANGED <<accepted, sending, state, announced, toprobe, known, turns>>
(* The whole exchange of Udp: it ends well with a tracker that answers and badly with others. *)
Succeed(k, m) == /\ <<k, m>> \in running /\ state[k] = "up"
                 /\ running' = running \ {<<k, m>>} /\ announced' = announced \cup {<<k, m>>}
                 /\ toprobe' = toprobe \cup {<<k, m, p>> : p \in Peers[k][m]}
                 /\ UNCHANGED <<accepted, sending, box, state, known, turns>>
Fail(k, m) == /\ <<k, m>> \in running /\ state[k] # "up" /\ running' = running \ {<<k, m>>}
              /\ UNCHANGED <<accepted, sending, box, state, announced, toprobe, known, turns>>
(* Probing one peer takes its time, other exchanges go on meanwhile. *)
Probe(k, m, p, ok) == /\ <<k, m, p>> \in toprobe /\ toprobe' = toprobe \ {<<k, m, p>>}
                      /\ known' = IF ok THEN [known EXCEPT ![m] = @ \cup {p}] ELSE known
                      /\ UNCHANGED <<accepted, sending, box, running, state, announced, turns>>
Turn(k, s) == /\ turns > 0 /\ turns' = turns - 1 /\ state[k] # s /\ state' = [state EXCEPT ![k] = s]
              /\ UNCHANGED <<accepted, sending, box, running, announced, toprobe, known>>

Reachable(p) == p[3] = 1
Next == \/ \E m \in Magnets : Post(m) \/ \E k \in Trackers : Deliver(m, k) \/ Succeed(k, m) \/ Fail(k, m)
                                                           \/ \E p \in Peers[k][m] : Probe(k, m, p, Reachable(p))
        \/ \E k \in Trackers : Begin(k) \/ \E s \in {"up", "silent"} : Turn(k, s)
Spec == /\ Init /\ [][Next]_vars
        /\ \A m \in Magnets : /\ WF_vars(Post(m))
                              /\ \A k \in Trackers : /\ WF_vars(Deliver(m, k)) /\ WF_vars(Succeed(k, m)) /\ WF_vars(Fail(k, m))
                                                     /\ \A p \in Peers[k][m] : WF_vars(Probe(k, m, p, Reachable(p)))
        /\ \A k \in Trackers : WF_vars(Begin(k))

Inv_Own == \A m \in Magnets : \A p \in known[m] : p[2] = m
Inv_OnlyAccepted == \A a \in announced : a[2] \in accepted
(* A tracker that answers from some time on gets every magnet accepted from then on, whatever the others do. *)
Live_Announced == \A k \in Trackers : \A m \in Magnets :
                     []((m \notin accepted /\ [](state[k] = "up")) => <>(<<k, m>> \in announced))
Live_Known == \A k \in Trackers : \A m \in Magnets : \A p \in Peers[k][m] :
                     (<<k, m>> \in announced /\ Reachable(p)) ~> (p \in known[m])
=============================================================================
