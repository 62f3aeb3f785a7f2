----------------------------- MODULE SessionGen -----------------------------
(* Enumerates peer strategies and predicts, by running the client of Client.tla   *)
(* against each, what becomes of the attempt.  A strategy is                      *)
(*   hs   what answers the handshake                                             *)
(*   pre  tokens sent once the client's extension handshake has arrived           *)
(*   ans  one token sequence per data request; when used up, requests are        *)
(*        answered correctly                                                     *)
(* Tokens are classes; the environment picks a concrete message for each.         *)
EXTENDS Client, Json

CONSTANTS Kind, N,            \* what is fetched, in how many blocks or parts
          HsTok, PreTok, AnsTok,
          PreMax, AnsMax,     \* longest sequences
          Base                \* TRUE: pre is [unchoke, ext] with insertions; FALSE: any sequence

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>}
                  ELSE LET R == SeqsUpTo(S, n - 1) IN R \cup {Append(s, x) : s \in R, x \in S}

(* All ways to weave the inserted tokens into unchoke, ext. *)
Weave(s) == IF Len(s) = 0 THEN {<<"unchoke", "ext">>}
            ELSE {SubSeq(s, 1, i) \o <<"unchoke">> \o SubSeq(s, i + 1, j) \o <<"ext">> \o SubSeq(s, j + 1, Len(s))
                    : i \in 0..Len(s), j \in 0..Len(s)}
          \* i <= j only: SubSeq of a descending range is empty, which would drop tokens

Pres == IF Base THEN UNION {{p \in Weave(s) : Len(p) = Len(s) + 2} : s \in SeqsUpTo(PreTok, PreMax)}
        ELSE SeqsUpTo(PreTok, PreMax)

Strategies ==
  {[hs |-> h, pre |-> <<"unchoke", "ext">>, ans |-> <<>>] : h \in HsTok}
  \cup {[hs |-> "good", pre |-> p, ans |-> a] : p \in Pres, a \in SeqsUpTo(AnsTok, AnsMax)}

(* A pause of half the client's patience: that many reads find nothing. *)
Pause == [k \in 1..(IdleMax \div 2) |-> Msg("none")]

(* What the peer sends for a token; i: index of the request it answers (0 before any). *)
Effect(tok, i) ==
  CASE tok = "unchoke" -> <<Msg("unchoke")>>
    [] tok = "choke"   -> <<Msg("choke")>>
    [] tok = "ext"     -> <<[t |-> "ext", size |-> (IF Kind = "meta" THEN N ELSE 1), ut |-> 3]>>
    [] tok = "ext0"    -> <<[t |-> "ext", size |-> 0, ut |-> 3]>>
    [] tok = "extnout" -> <<[t |-> "ext", size |-> (IF Kind = "meta" THEN N ELSE 1), ut |-> -1]>>
    [] tok = "extless" -> <<[t |-> "ext", size |-> N - 1, ut |-> 3]>>
    [] tok = "extmore" -> <<[t |-> "ext", size |-> N + 1, ut |-> 3]>>
    [] tok = "exthuge" -> <<[t |-> "ext", size |-> 1000, ut |-> 3]>>
    [] tok \in {"noise", "ka", "reject", "big"} -> <<Msg("noise")>>
    [] tok = "noise12" -> [k \in 1..12 |-> Msg("noise")]
    [] tok = "kaslow"  -> [k \in 1..16 |-> Msg("noise")]
    [] tok = "kaslowgood" -> Append([k \in 1..16 |-> Msg("noise")], [t |-> "data", ok |-> TRUE, i |-> i])
    [] tok = "bad"     -> <<Msg("bad")>>
    [] tok = "frag"    -> <<Msg("frag")>>
    [] tok = "good"    -> <<[t |-> "data", ok |-> TRUE, i |-> i]>>
    [] tok \in {"corrupt", "unsol"} -> <<[t |-> "data", ok |-> FALSE, i |-> i]>>
    [] tok = "dup"     -> <<[t |-> "data", ok |-> TRUE, i |-> i], [t |-> "data", ok |-> TRUE, i |-> i]>>
    [] tok = "goodchoke" -> <<[t |-> "data", ok |-> TRUE, i |-> i], Msg("choke")>>
    [] tok \in {"noisegood", "biggood"} -> <<Msg("noise"), [t |-> "data", ok |-> TRUE, i |-> i]>>
    [] tok = "pause" -> Pause
    [] tok = "pausegood" -> Append(Pause, [t |-> "data", ok |-> TRUE, i |-> i])
    [] tok = "badgood" -> <<Msg("bad"), [t |-> "data", ok |-> TRUE, i |-> i]>>
    [] tok = "choking" -> <<Msg("choke"), Msg("unchoke"), [t |-> "data", ok |-> TRUE, i |-> i]>>
    [] tok = "extgood" -> <<[t |-> "ext", size |-> (IF Kind = "meta" THEN N ELSE 1), ut |-> 3],
                           [t |-> "data", ok |-> TRUE, i |-> i]>>
    [] OTHER -> <<>>      \* silent, close, rst, chatter

Stops(tok) == tok \in {"silent", "close", "rst", "chatter", "frag"}

RECURSIVE Effects(_, _, _)
Effects(toks, k, i) == IF k > Len(toks) THEN <<>>
                       ELSE IF Stops(toks[k]) THEN Effect(toks[k], i)
                       ELSE Effect(toks[k], i) \o Effects(toks, k + 1, i)
StopsIn(toks) == \E k \in 1..Len(toks) : Stops(toks[k])
ChatIn(toks) == \E k \in 1..Len(toks) : toks[k] = "chatter" /\ \A j \in 1..(k - 1) : ~Stops(toks[j])

HsEffect(h) == CASE h = "good" -> <<[t |-> "hs", ok |-> TRUE]>>
                 [] h = "slow" -> Append(Pause, [t |-> "hs", ok |-> TRUE])
                 [] h = "bad"  -> <<[t |-> "hs", ok |-> FALSE]>>
                 [] h = "frag" -> <<Msg("frag")>>
                 [] h = "late" -> <<Msg("noise")>>     \* something else before the handshake
                 [] OTHER      -> <<>>                 \* silent, close

(* The peer: p.stop: it sends nothing more; p.chat: it chatters; p.n: requests answered *)
RECURSIVE Run(_, _, _, _)
Run(c, chan, p, s) ==
  IF Ended(c) THEN c
  ELSE LET m  == IF chan # <<>> THEN Head(chan) ELSE IF p.chat THEN Msg("noise") ELSE Msg("none")
           d  == Read(c, m)
           ch == IF chan # <<>> THEN Tail(chan) ELSE chan
           new == SubSeq(d.sent, Len(c.sent) + 1, Len(d.sent))
           ex == p.stop = FALSE /\ \E k \in 1..Len(new) : new[k].t = "exths"
           rq == p.stop = FALSE /\ \E k \in 1..Len(new) : new[k].t \in {"req", "mreq"}
           i  == IF rq THEN new[Len(new)].i ELSE 0
           tk == IF p.n < Len(s.ans) THEN <<s.ans[p.n + 1]>> ELSE <<"good">>
       IN  CASE ex -> Run(d, ch \o Effects(s.pre, 1, 0),
                          [p EXCEPT !.stop = StopsIn(s.pre), !.chat = ChatIn(s.pre)], s)
             [] rq -> Run(d, ch \o Effects(tk, 1, i),
                          [p EXCEPT !.n = @ + 1, !.stop = StopsIn(tk), !.chat = ChatIn(tk)], s)
             [] OTHER -> Run(d, ch, p, s)

Outcome(s) == Run(NewClient(Kind, N), HsEffect(s.hs), [stop |-> s.hs \notin {"good", "slow"}, chat |-> FALSE, n |-> 0], s)

(* What the properties demand of the attempt: a peer that serves everything, sends   *)
(* nothing malformed and withholds nothing must be served from; an attempt whose     *)
(* data were not all correct must not count; malformed messages may cost it.          *)
Toks(s) == {s.pre[k] : k \in 1..Len(s.pre)} \cup {s.ans[k] : k \in 1..Len(s.ans)}
Pauses(s) == Cardinality({k \in 1..Len(s.pre) : s.pre[k] = "pause"})
Demand(s, c) == IF "unsol" \in Toks(s) THEN "any"      \* a client may ignore what it did not ask for
                ELSE IF Pauses(s) > 1 THEN "any"       \* at the limit of its patience
                ELSE IF c.out = "ok" THEN IF Toks(s) \cap {"bad", "badgood"} # {} THEN "any" ELSE "ok"
                ELSE "fail"

ASSUME \A s \in Strategies :
  LET c == Outcome(s) IN
  PrintT("@@" \o ToJson([hs |-> s.hs, pre |-> s.pre, ans |-> s.ans, out |-> c.out, demand |-> Demand(s, c),
                         nreq |-> Len(SelectSeq(c.sent, LAMBDA x : x.t \in {"req", "mreq"})), kind |-> Kind, n |-> N]))

VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
Spec == Init /\ [][Next]_dummy
=============================================================================
