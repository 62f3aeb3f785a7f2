------------------------------- MODULE Bencode -------------------------------
(* Bencode as a streaming recogniser: a pushdown automaton that reads one byte *)
(* at a time and accepts exactly the canonical encodings.  Values carry the    *)
(* decimal digits of their integers, so that numbers of any size are exact.    *)
(*   [k |-> "i", n |-> digits]   digits: a sequence of bytes, "-" first or not *)
(*   [k |-> "s", b |-> bytes]    [k |-> "l", e |-> <<values>>]                  *)
(*   [k |-> "d", e |-> <<key, value>> pairs, keys ascending]                    *)
EXTENDS Naturals, Sequences, FiniteSets

ASCII(c) == CASE c = "i" -> 105 [] c = "l" -> 108 [] c = "d" -> 100 [] c = "e" -> 101 [] c = ":" -> 58 [] c = "-" -> 45 [] c = "0" -> 48
IsDigit(b) == b \in 48..57

(* ------------------------------ the encoder ------------------------------ *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))

EncS(b) == Dec(Len(b)) \o <<58>> \o b

RECURSIVE Enc(_), EncAll(_), EncPairs(_)
EncAll(e) == IF e = <<>> THEN <<>> ELSE Enc(Head(e)) \o EncAll(Tail(e))
EncPairs(e) == IF e = <<>> THEN <<>> ELSE EncS(Head(e)[1]) \o Enc(Head(e)[2]) \o EncPairs(Tail(e))
Enc(v) == CASE v.k = "i" -> <<105>> \o v.n \o <<101>>
            [] v.k = "s" -> EncS(v.b)
            [] v.k = "l" -> <<108>> \o EncAll(v.e) \o <<101>>
            [] v.k = "d" -> <<100>> \o EncPairs(v.e) \o <<101>>

RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))

RECURSIVE Canonical(_)
CanonNum(n) == /\ n # <<>>
               /\ LET d == IF n[1] = 45 THEN Tail(n) ELSE n IN
                  /\ d # <<>> /\ \A i \in DOMAIN d : IsDigit(d[i])
                  /\ (d[1] = 48 => n = <<48>>)
Canonical(v) == CASE v.k = "i" -> CanonNum(v.n)
                  [] v.k = "s" -> TRUE
                  [] v.k = "l" -> \A i \in DOMAIN v.e : Canonical(v.e[i])
                  [] v.k = "d" -> /\ \A i \in DOMAIN v.e : Canonical(v.e[i][2])
                                  /\ \A i \in 1..(Len(v.e) - 1) : Less(v.e[i][1], v.e[i + 1][1])

(* integers of 64 bits, signed *)
Max64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
Fits(n) == LET neg == n[1] = 45 d == IF neg THEN Tail(n) ELSE n IN
           Len(d) < 19 \/ (Len(d) = 19 /\ (Less(d, Max64) \/ d = Max64 \/ (neg /\ d = [Max64 EXCEPT ![19] = 56])))
RECURSIVE Fits64(_)
Fits64(v) == CASE v.k = "i" -> Fits(v.n)
               [] v.k = "s" -> TRUE
               [] v.k = "l" -> \A i \in DOMAIN v.e : Fits64(v.e[i])
               [] v.k = "d" -> \A i \in DOMAIN v.e : Fits64(v.e[i][2])

(* keys are text: UTF-8 (RFC 3629) *)
Cont(b) == b \in 128..191
RECURSIVE Utf8(_)
Utf8(s) == IF s = <<>> THEN TRUE
           ELSE LET a == s[1] n == Len(s) IN
             \/ a < 128 /\ Utf8(Tail(s))
             \/ a \in 194..223 /\ n >= 2 /\ Cont(s[2]) /\ Utf8(SubSeq(s, 3, n))
             \/ a \in 224..239 /\ n >= 3 /\ Cont(s[2]) /\ Cont(s[3]) /\ (a = 224 => s[2] >= 160) /\ (a = 237 => s[2] < 160) /\ Utf8(SubSeq(s, 4, n))
             \/ a \in 240..244 /\ n >= 4 /\ Cont(s[2]) /\ Cont(s[3]) /\ Cont(s[4]) /\ (a = 240 => s[2] >= 144) /\ (a = 244 => s[2] < 144) /\ Utf8(SubSeq(s, 5, n))

(* --------------------------- the pushdown automaton ----------------------- *)
(* st.tok: "none" between values, "int" in an integer, "len" in a length,      *)
(*         "str" in a string (need bytes left)                                 *)
(* st.stk: open containers, outermost first                                    *)
(* st.out: "run" | "done" | "rej"                                              *)
Start == [tok |-> "none", acc |-> <<>>, need |-> 0, stk |-> <<>>, out |-> "run", val |-> <<>>]
Rej(st) == [st EXCEPT !.out = "rej"]

RECURSIVE ToNat(_)
ToNat(d) == IF d = <<>> THEN 0 ELSE 10 * ToNat(SubSeq(d, 1, Len(d) - 1)) + (d[Len(d)] - 48)

(* a complete value arrives in the innermost container *)
Deliver(st, v) ==
  LET s == [st EXCEPT !.tok = "none", !.acc = <<>>] IN
  IF s.stk = <<>> THEN [s EXCEPT !.out = "done", !.val = v]
  ELSE LET t == s.stk[Len(s.stk)]
           put(f) == [s EXCEPT !.stk = Append(SubSeq(s.stk, 1, Len(s.stk) - 1), f)] IN
       IF t.t = "l" THEN put([t EXCEPT !.e = Append(@, v)])
       ELSE IF ~t.haskey THEN
              IF v.k = "s" /\ Utf8(v.b) /\ (t.e = <<>> \/ Less(t.e[Len(t.e)][1], v.b))
              THEN put([t EXCEPT !.haskey = TRUE, !.key = v.b]) ELSE Rej(s)
            ELSE put([t EXCEPT !.haskey = FALSE, !.e = Append(@, <<t.key, v>>)])

(* is a value, rather than a key, expected next? *)
WantKey(st) == st.stk # <<>> /\ LET t == st.stk[Len(st.stk)] IN t.t = "d" /\ ~t.haskey
MayClose(st) == st.stk # <<>> /\ LET t == st.stk[Len(st.stk)] IN t.t = "l" \/ ~t.haskey

Pop(st) ==
  LET t == st.stk[Len(st.stk)]
      s == [st EXCEPT !.stk = SubSeq(st.stk, 1, Len(st.stk) - 1)]
  IN Deliver(s, [k |-> t.t, e |-> t.e])

Feed(st, b, maxdepth, maxdigits) ==
  CASE st.out # "run" -> st
    [] st.tok = "none" ->
         IF IsDigit(b) THEN [st EXCEPT !.tok = "len", !.acc = <<b>>]
         ELSE IF b = 101 /\ MayClose(st) THEN Pop(st)
         ELSE IF WantKey(st) THEN Rej(st)
         ELSE IF b = 105 THEN [st EXCEPT !.tok = "int", !.acc = <<>>]
         ELSE IF b \in {108, 100} /\ Len(st.stk) < maxdepth THEN
           [st EXCEPT !.stk = Append(@, [t |-> IF b = 108 THEN "l" ELSE "d", e |-> <<>>, haskey |-> FALSE, key |-> <<>>])]
         ELSE Rej(st)
    [] st.tok = "int" ->
         IF b = 101 THEN IF CanonNum(st.acc) THEN Deliver(st, [k |-> "i", n |-> st.acc]) ELSE Rej(st)
         ELSE IF b = 45 /\ st.acc = <<>> THEN [st EXCEPT !.acc = <<45>>]
         ELSE IF IsDigit(b) /\ Len(st.acc) < maxdigits /\ st.acc # <<48>> /\ ~(st.acc = <<45>> /\ b = 48) THEN [st EXCEPT !.acc = Append(@, b)]
         ELSE Rej(st)
    [] st.tok = "len" ->
         IF b = 58 THEN LET n == ToNat(st.acc) IN
              IF n = 0 THEN Deliver(st, [k |-> "s", b |-> <<>>]) ELSE [st EXCEPT !.tok = "str", !.acc = <<>>, !.need = n]
         ELSE IF IsDigit(b) /\ st.acc # <<48>> /\ Len(st.acc) < 8 THEN [st EXCEPT !.acc = Append(@, b)]
         ELSE Rej(st)
    [] st.tok = "str" ->
         IF st.need = 1 THEN Deliver([st EXCEPT !.need = 0], [k |-> "s", b |-> Append(st.acc, b)])
         ELSE [st EXCEPT !.need = @ - 1, !.acc = Append(@, b)]

(* a canonical continuation of what has been read between two bytes of no string: *)
(* only the innermost container can be waiting for the value of a key              *)
RECURSIVE Closes(_)
Closes(n) == IF n = 0 THEN <<>> ELSE <<101>> \o Closes(n - 1)
Completion(st) ==
  LET int == IF st.tok = "int" THEN (IF st.acc \in {<<>>, <<45>>} THEN <<49>> ELSE <<>>) \o <<101>> ELSE <<>>
      val == IF st.tok = "none" /\ st.stk # <<>> /\ st.stk[Len(st.stk)].haskey THEN <<48, 58>> ELSE <<>>
  IN int \o val \o Closes(Len(st.stk))
==============================================================================
