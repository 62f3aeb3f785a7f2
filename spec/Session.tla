------------------------------ MODULE Session ------------------------------
(* The client's attempt on one peer (Client.tla) composed with a peer that may     *)
(* send anything at any time: what every attempt guarantees, exhaustively.         *)
EXTENDS Client
-----------------------------------------------------------------------------
(* Composition with a peer that may send anything at any time. *)
CONSTANTS Kinds, Blocks, Budget, Chan
VARIABLES c, chan, budget, fin,
          unsol    \* the client received data it had not asked for

vars == <<c, chan, budget, fin, unsol>>

Anything ==
  {[t |-> "hs", ok |-> TRUE], [t |-> "hs", ok |-> FALSE], Msg("unchoke"), Msg("choke"),
   [t |-> "ext", size |-> 2, ut |-> 3], [t |-> "ext", size |-> 1, ut |-> 3], [t |-> "ext", size |-> 0, ut |-> 3],
   [t |-> "ext", size |-> 2, ut |-> -1], [t |-> "ext", size |-> 99, ut |-> 3],
   Msg("noise"), Msg("bad"), Msg("frag"),
   [t |-> "data", ok |-> TRUE, i |-> 0], [t |-> "data", ok |-> TRUE, i |-> 1],
   [t |-> "data", ok |-> FALSE, i |-> 0]}

Init == /\ \E k \in Kinds, n \in Blocks : c = NewClient(k, n)
        /\ chan = <<>> /\ budget = Budget /\ fin = FALSE /\ unsol = FALSE

PeerSends == /\ ~fin /\ budget > 0 /\ Len(chan) < Chan
             /\ \E m \in Anything : chan' = Append(chan, m)
             /\ budget' = budget - 1
             /\ UNCHANGED <<c, fin, unsol>>

(* Once its budget is used up the peer may still send irrelevant messages forever. *)
PeerChatters == /\ ~fin /\ budget = 0 /\ Len(chan) < Chan
                /\ chan' = Append(chan, Msg("noise"))
                /\ UNCHANGED <<c, budget, fin, unsol>>

PeerCloses == ~fin /\ fin' = TRUE /\ UNCHANGED <<c, chan, budget, unsol>>

ClientReads == /\ ~Ended(c) /\ chan # <<>>
               /\ c' = Read(c, Head(chan)) /\ chan' = Tail(chan)
               /\ unsol' = (unsol \/ (Head(chan).t = "data" /\ c.asked <= Len(c.got)))
               /\ UNCHANGED <<budget, fin>>

ClientIdles == /\ ~Ended(c) /\ chan = <<>>
               /\ c' = Read(c, Msg("none"))
               /\ UNCHANGED <<chan, budget, fin, unsol>>

Next == PeerSends \/ PeerChatters \/ PeerCloses \/ ClientReads \/ ClientIdles
Spec == Init /\ [][Next]_vars /\ WF_vars(ClientReads \/ ClientIdles)

Requests(x) == SelectSeq(x.sent, LAMBDA m : m.t \in {"req", "mreq"})

(* C10: nothing before the peer's handshake with the right hash; interested and    *)
(* the extension handshake first; requests only when unchoked and informed.        *)
Inv_Order == /\ c.ph = "hs" => c.sent = <<>>
             /\ Len(c.sent) >= 1 => c.sent[1].t = "interested"
             /\ Len(c.sent) >= 2 => c.sent[2].t = "exths"
Act_AskOnlyWhenReady ==
  [][Len(Requests(c')) > Len(Requests(c)) => ~c'.choked /\ c.ph = "xfer"]_vars
Act_Intro == [][c.ph = "nego" /\ c'.ph = "xfer" => c'.size # 0 /\ ~c'.choked]_vars
Act_NothingAfterChoke == [][c.ph = "xfer" /\ c.choked => c'.sent = c.sent]_vars
(* C08: one request at a time, the first one missing; unsolicited data aside, the   *)
(* indices are 0, 1, 2, ...                                                        *)
Inv_OneOutstanding == c.asked <= Len(c.got) + 1
Inv_InOrder == LET r == Requests(c) IN
  ~unsol => Len(r) <= Len(c.got) + 1 /\ \A i \in 1..Len(r) : r[i].i = i - 1
Inv_InRange == \A i \in 1..Len(Requests(c)) : Requests(c)[i].i < c.n
(* C01 / C06: success only with all data verified *)
Inv_OkVerified == c.out = "ok" => Len(c.got) = c.n /\ Verified(c) /\ c.n > 0
(* C11: whatever the peer does, the attempt ends *)
Live_Ends == <>Ended(c)
(* C12: no message leaves the client without a next step *)
Inv_Total == ~Ended(c) => c.ph \in {"hs", "nego", "xfer"}
=============================================================================
