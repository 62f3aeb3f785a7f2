------------------------------ MODULE Framing ------------------------------
(* The message reader of src/peer/stream.rs (read_stream): a length header,       *)
(* then as many bytes; what has not fully arrived is waited for.                  *)
(* The stream is cut into segments at arbitrary points.                          *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Lens,     \* the body lengths of the messages in the stream (0: keep-alive)
          Hdr,      \* bytes of a header
          Buf       \* bytes the reader's socket holds: bodies may be larger

VARIABLES sent,     \* bytes on their way or arrived
          arrived,  \* bytes that have reached the reader's socket, read ones included
          read,     \* bytes consumed
          need,     \* bytes of a body still to come; None: a header is next
          out       \* messages understood: body lengths
vars == <<sent, arrived, read, need, out>>

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Hdr + Head(s) + Total(Tail(s))
N == Total(Lens)
None == 0
Min(a, b) == IF a < b THEN a ELSE b

Init == sent = 0 /\ arrived = 0 /\ read = 0 /\ need = None /\ out = <<>>

(* The peer sends the next segment, of any length; it arrives later, as far as     *)
(* the socket has room for it.                                                   *)
Send == \E k \in 1..(N - sent) : sent' = sent + k /\ UNCHANGED <<arrived, read, need, out>>
Arrive == LET a == Min(sent, read + Buf)
          IN  arrived < a /\ arrived' = a /\ UNCHANGED <<sent, read, need, out>>

(* A header is left in the socket until all of it is there. *)
TakeHeader ==
  /\ need = None /\ arrived - read >= Hdr /\ Len(out) < Len(Lens)
  /\ read' = read + Hdr
  /\ LET n == Lens[Len(out) + 1]
     IN  IF n = 0 THEN need' = None /\ out' = Append(out, 0) ELSE need' = n /\ out' = out
  /\ UNCHANGED <<sent, arrived>>

(* Of a body whatever is there is taken. *)
TakeBody ==
  /\ need > 0 /\ arrived > read
  /\ LET k == Min(arrived - read, need)
     IN  /\ read' = read + k
         /\ IF k = need THEN need' = None /\ out' = Append(out, Lens[Len(out) + 1]) ELSE need' = need - k /\ out' = out
  /\ UNCHANGED <<sent, arrived>>
Take == TakeHeader \/ TakeBody

Next == Send \/ Arrive \/ Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Send) /\ WF_vars(Arrive) /\ WF_vars(Take)

(* What was understood is a prefix of what was meant, however it was cut. *)
Inv_Prefix == Len(out) <= Len(Lens) /\ out = SubSeq(Lens, 1, Len(out))
(* Everything that has fully arrived is eventually understood, nothing is before. *)
RECURSIVE Bytes(_)
Bytes(k) == IF k = 0 THEN 0 ELSE Hdr + Lens[k] + Bytes(k - 1)
Inv_Done == Bytes(Len(out)) <= read /\ read <= arrived
Live_All == <>(out = Lens)
=============================================================================
