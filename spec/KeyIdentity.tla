----------------------------- MODULE KeyIdentity -----------------------------
(***************************************************************************)
(* What a cached key may be found under.  A key belongs to a password, a    *)
(* salt and a cost.  A cache that looks keys up by anything less, such as   *)
(* the parts put together without telling where one ends, confuses some of  *)
(* them.  Every way of putting them together here is refuted (Confused):    *)
(* there are parameters it takes for the same.  These are what is run.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Letters,   \* of passwords
          Bytes,     \* of salts: letters
          Costs, MaxPassword, MaxSalt

VARIABLES c, flat
vars == <<c, flat>>

Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Params == [pw : Seqs(Letters, MaxPassword), salt : Seqs(Bytes, MaxSalt), cost : Costs]

RECURSIVE Str(_)
Str(s) == IF s = <<>> THEN "" ELSE Head(s) \o Str(Tail(s))
Hex(x) == CASE x = "a" -> "61" [] x = "1" -> "31" [] x = "6" -> "36" [] x = ":" -> "3a"
RECURSIVE HexStr(_)
HexStr(s) == IF s = <<>> THEN "" ELSE Hex(Head(s)) \o HexStr(Tail(s))

\* The parts of the key, in some order, with or without something in between.
Orders == {<<"p", "s", "c">>, <<"p", "c", "s">>, <<"s", "p", "c">>, <<"s", "c", "p">>, <<"c", "p", "s">>, <<"c", "s", "p">>,
           <<"p", "s">>, <<"s", "p">>, <<"p", "c">>, <<"c", "p">>, <<"s", "c">>, <<"c", "s">>}
Ways == {<<o, hex, sep>> : o \in Orders, hex \in BOOLEAN, sep \in {"", ":"}}
    \cup {<<<<"p", "s", "c">>, "first">>, <<<<"p", "s", "c">>, "last">>, <<<<"p", "s", "c">>, "sorted">>, <<<<"p", "s", "c">>, "lengths">>}

Part(x, p, hex) == CASE x = "p" -> Str(p.pw) [] x = "s" -> (IF hex THEN HexStr(p.salt) ELSE Str(p.salt)) [] x = "c" -> ToString(p.cost)
RECURSIVE Join(_, _, _, _)
Join(o, p, hex, sep) == Part(Head(o), p, hex) \o (IF Len(o) = 1 THEN "" ELSE sep \o Join(Tail(o), p, hex, sep))

Least(s) == IF s = <<>> THEN "" ELSE s[1]
Last(s) == IF s = <<>> THEN "" ELSE s[Len(s)]
How(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Counts(s) == [x \in Letters \cup Bytes |-> How(s, x)]
Flat(w, p) ==
    IF Len(w) = 3 THEN ToString(w) \o Join(w[1], p, w[2], w[3])
    ELSE ToString(w) \o ToString(CASE w[2] = "first" -> <<Least(p.pw), Least(p.salt), p.cost>>
                      [] w[2] = "last" -> <<Last(p.pw), Last(p.salt), p.cost>>
                      [] w[2] = "sorted" -> <<Counts(p.pw), Counts(p.salt), p.cost>>
                      [] w[2] = "lengths" -> <<Len(p.pw), Len(p.salt), p.cost>>)

Init == c \in Params /\ flat = {}
Put == flat = {} /\ flat' = {Flat(w, c) : w \in Ways} /\ UNCHANGED c
Spec == Init /\ [][Put]_vars

\* Every way confuses some parameters.
Few == [pw : Seqs(Letters, 2), salt : Seqs(Bytes, 2), cost : Costs]
ASSUME \A w \in Ways : Cardinality({Flat(w, p) : p \in Few}) < Cardinality(Few) \/ PrintT(<<"not confused", w>>)
\* The parts themselves do not.
ASSUME Cardinality({<<p.pw, p.salt, p.cost>> : p \in Few}) = Cardinality(Few)

Emit == PrintT(ToJson([pw |-> Str(c.pw), salt |-> Str(c.salt), cost |-> c.cost, flat |-> flat']))
=============================================================================
