------------------------------- MODULE Client -------------------------------
(* One attempt of the client on one peer: the client's state machine of          *)
(* src/peer/manager.rs (get_info, download, init_peer), src/peer/mod.rs          *)
(* (apply_message), src/peer/buffer.rs and src/peer/download/mod.rs (execute),    *)
(* as pure operators on a record, so that the same definition is used            *)
(*   - in Session, composed with a peer that may send anything (exhaustive),     *)
(*   - in SessionGen, composed with scripted peers, to enumerate strategies and   *)
(*     predict their outcome, and                                                *)
(*   - in SessionTrace, to decide whether a recorded session is a behaviour of    *)
(*     the client.                                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS IdleMax,     \* reads without a message that make the client give up (code: 10)
          ChatMax,     \* messages without use that make it give up (code: 10 seconds' worth)
          MaxParts     \* metadata larger than this is refused (code: 64 MiB)

(* A message as the client understands it:                                       *)
(*   hs(ok)  unchoke  choke  ext(size, ut)  noise  bad  data(ok, i)  frag           *)
(* noise: any message without effect, keep-alives included; bad: a malformed      *)
(* message, which counts as no message; frag: an incomplete message, after which  *)
(* nothing more can be understood.                                               *)
Msg(t) == [t |-> t]

(* kind: what the attempt is for; n: the number of blocks (for metadata it        *)
(* follows from the announced size, see Parts).                                  *)
NewClient(kind, n) ==
  [ph |-> "hs", kind |-> kind, n |-> n, total |-> n, choked |-> TRUE, size |-> 0, ut |-> -1,
   idle |-> 0, chat |-> 0, asked |-> 0, got |-> <<>>, lost |-> FALSE, out |-> "none",
   sent |-> <<>>]       \* what the client sent, newest last

Ended(c) == c.ph = "end"
End(c, o) == [c EXCEPT !.ph = "end", !.out = o]
Say(c, m) == [c EXCEPT !.sent = Append(@, m)]

Ready(c) == c.size # 0 /\ ~c.choked

(* The announced size in units of metadata parts; sizes are given in parts here.  *)
Capacity(c) == IF c.kind = "meta" THEN c.size ELSE c.n

(* total: the number of blocks or parts there really are *)
Verified(c) == Len(c.got) = c.total /\ \A i \in 1..Len(c.got) : c.got[i]

(* What a received message does to the session state (apply_message). *)
Apply(c, m) ==
  CASE m.t = "choke"   -> [c EXCEPT !.choked = TRUE]
    [] m.t = "unchoke" -> [c EXCEPT !.choked = FALSE]
    [] m.t = "ext"     -> [c EXCEPT !.size = m.size, !.ut = m.ut]
    [] m.t = "frag"    -> [c EXCEPT !.lost = TRUE]
    [] OTHER           -> c

IsNone(c, m) == m.t \in {"none", "bad", "frag"} \/ c.lost

(* Handshake: the peer's first message.  Afterwards interested and the extension   *)
(* handshake go out.                                                             *)
ReadHs(c, m) ==
  IF IsNone(c, m)
  THEN LET d == [Apply(c, m) EXCEPT !.idle = @ + 1] IN IF d.idle >= IdleMax THEN End(d, "fail") ELSE d
  ELSE IF m.t = "hs" /\ m.ok
  THEN [Say(Say(c, [t |-> "interested"]), [t |-> "exths"]) EXCEPT !.ph = "nego", !.idle = 0]
  ELSE End(c, "fail")

(* Negotiation: until unchoked and a metadata size is known. *)
ReadNego(c, m) ==
  LET d == IF c.lost THEN c ELSE Apply(c, m)
      e == IF IsNone(c, m) THEN [d EXCEPT !.idle = @ + 1] ELSE [d EXCEPT !.chat = @ + 1]
  IN  CASE Ready(e) -> IF e.kind = "meta" /\ e.size > MaxParts
                       THEN End(e, "fail")
                       ELSE [e EXCEPT !.ph = "xfer", !.n = Capacity(e), !.idle = 0, !.chat = 0]
        [] e.idle >= IdleMax \/ e.chat >= ChatMax -> End(e, "fail")
        [] OTHER -> e

(* One iteration of the transfer loop with message m (or none): read, full?,      *)
(* choked?, no use for too long?, ask for the next block, idle for too long?       *)
Request(c) == [t |-> IF c.kind = "meta" THEN "mreq" ELSE "req", i |-> Len(c.got)]

ReadXfer(c, m) ==
  LET none == IsNone(c, m)
      a == IF c.lost THEN c ELSE Apply(c, m)
      useful == ~none /\ m.t = "data" /\ Len(a.got) < a.n
      b == IF useful THEN [a EXCEPT !.got = Append(@, m.ok /\ m.i = Len(@)), !.chat = 0]
           ELSE IF none THEN a ELSE [a EXCEPT !.chat = @ + 1]
      d == IF none THEN b ELSE [b EXCEPT !.idle = 0]
  IN  IF Len(d.got) = d.n THEN End(d, IF Verified(d) THEN "ok" ELSE "fail")
      ELSE IF d.choked THEN End(d, "fail")
      ELSE IF d.chat >= ChatMax THEN End(d, "fail")
      ELSE LET ask == d.asked # Len(d.got) + 1 /\ ~(d.kind = "meta" /\ d.ut = -1)
               f == IF ask THEN [Say(d, Request(d)) EXCEPT !.asked = @ + 1]
                    ELSE IF d.asked # Len(d.got) + 1 THEN [d EXCEPT !.asked = @ + 1] ELSE d
               g == [f EXCEPT !.idle = @ + 1]
           IN  IF g.idle > IdleMax THEN End(g, "fail") ELSE g

Read(c, m) ==
  CASE c.ph = "hs"   -> ReadHs(c, m)
    [] c.ph = "nego" -> ReadNego(c, m)
    [] c.ph = "xfer" -> ReadXfer(c, m)

=============================================================================
