----------------------------- MODULE ControlOps -----------------------------
(* The control interface of src/main.rs: which requests add a torrent.              *)
(* A request: address it is sent to, method, path, how its bytes arrive, its body.    *)
EXTENDS Integers, Sequences

(* Everything that is not listed first in a dimension is a deviation from the one     *)
(* request that adds a torrent.                                                     *)
Addrs   == <<"loop", "other">>
Methods == <<"POST", "GET", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "post", "POSTS", "PROPFIND">>
Paths   == <<"/add/magnet", "/", "/add", "/add/", "/add/magnets", "/magnet", "/add/magnet/x", "/add/torrent", "/x/add/magnet", "/addmagnet", "/add/magnet.", "/add/magnet?x=1">>
(* Ways in which a whole request arrives; ways in which it never becomes whole.       *)
Whole   == <<"plain", "chunked", "split", "keep", "http10", "expect", "form", "notype", "json", "utf8", "lower", "close">>
Broken  == <<"cut", "cuthead", "cutchunk", "nolength", "badlength", "stall", "stallhead", "garbage", "tls", "hugehead", "badversion">>
Bodies  == <<"magnet", "empty", "text", "binary", "object", "hash">>

Set(s) == {s[i] : i \in 1..Len(s)}
Routed == {"/add/magnet", "/add/magnet?x=1"}
Requests == [a : Set(Addrs), m : Set(Methods), p : Set(Paths), f : Set(Whole) \cup Set(Broken), b : Set(Bodies)]

Arrives(r) == r.a = "loop" /\ r.f \in Set(Whole)
Routes(r) == Arrives(r) /\ r.m = "POST" /\ r.p \in Routed
Adds(r) == Routes(r) /\ r.b = "magnet"
(* An answer: status, 0 for a connection closed without one, -1 for no connection, -2    *)
(* for nothing at all.  How requests that are for somebody else are refused is free.     *)
Success(st) == st >= 200 /\ st < 300
AnswerOk(r, st) == /\ Adds(r) => Success(st)
                   /\ (Routes(r) /\ ~Adds(r)) => ~Success(st)
                   /\ Arrives(r) => st # -2
Deviations(r) == (IF r.a = "loop" THEN 0 ELSE 1) + (IF r.m = "POST" THEN 0 ELSE 1) + (IF r.p = "/add/magnet" THEN 0 ELSE 1)
                 + (IF r.f = "plain" THEN 0 ELSE 1) + (IF r.b = "magnet" THEN 0 ELSE 1)
=============================================================================
