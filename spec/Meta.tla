--------------------------------- MODULE Meta ---------------------------------
(***************************************************************************)
(* The properties of a header's entries.  They are stored one property     *)
(* after the other, each with its values for the entries that have one.    *)
(* The machine reads them in the order they are stored in and then hands   *)
(* the values out.  A value is known by the property and the number of the *)
(* entry it belongs to.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Entries,    \* numbers of entries
          Vary        \* "defined", "order" or "empty"

VARIABLES c, todo, acc, out
vars == <<c, todo, acc, out>>

Valued == {"ctime", "atime", "mtime", "attr"}
Props == Valued \cup {"name", "empty", "emptyfile"}

\* Which entries have a value: all, said by a flag, or those of a bit vector.
Vectors(n) == {[all |-> TRUE, bits |-> [x \in 1..n |-> TRUE]]} \cup {[all |-> FALSE, bits |-> b] : b \in [1..n -> BOOLEAN]}
Fixed(n) == [all |-> FALSE, bits |-> [x \in 1..n |-> x % 2 = 1]]
None == [all |-> FALSE, bits |-> <<>>]

Count(b) == Cardinality({x \in DOMAIN b : b[x]})
Canonical == <<"empty", "emptyfile", "name", "ctime", "atime", "mtime", "attr">>
Ok(o) == \A x, y \in DOMAIN o : o[x] = "emptyfile" /\ o[y] = "empty" => y < x
Perms(S) == {o \in [1..Cardinality(S) -> S] : (\A x, y \in DOMAIN o : x # y => o[x] # o[y]) /\ Ok(o)}
Pick(S) == SelectSeq(Canonical, LAMBDA p : p \in S)

Cases ==
    UNION {
      CASE Vary = "defined" ->
            {[n |-> n, es |-> [x \in 1..n |-> FALSE], ef |-> <<>>, def |-> d,
              order |-> SelectSeq(Canonical, LAMBDA p : p = "name" \/ (p \in Valued /\ d[p] # None))] :
                d \in [Valued -> Vectors(n) \cup {None}]}
        [] Vary = "order" ->
            {[n |-> n, es |-> [x \in 1..n |-> "empty" \in S /\ x # 1], ef |-> IF "emptyfile" \in S THEN [x \in 1..(n - 1) |-> x % 2 = 0] ELSE <<>>,
              def |-> [p \in Valued |-> IF p \in S THEN Fixed(n) ELSE None], order |-> o] :
                <<S, o>> \in UNION {{<<T, o>> : o \in Perms(T)} : T \in {T \in SUBSET Props : "emptyfile" \in T => "empty" \in T}}}
        [] Vary = "empty" ->
            UNION {UNION {{[n |-> n, es |-> es, ef |-> ef, def |-> [p \in Valued |-> IF p = "attr" THEN v ELSE None],
               order |-> SelectSeq(Canonical, LAMBDA p : (p = "empty" /\ Count(es) > 0) \/ (p = "emptyfile" /\ ef # <<>>) \/ p = "name" \/ (p = "attr" /\ v # None))] :
                    ef \in {<<>>} \cup [1..Count(es) -> BOOLEAN], v \in {None} \cup Vectors(n)} : es \in [1..n -> BOOLEAN]} : x \in {1}}
      : n \in Entries}

Absent == [empty |-> <<>>, emptyfile |-> <<>>, name |-> <<>>, ctime |-> <<>>, atime |-> <<>>, mtime |-> <<>>, attr |-> <<>>]
Init == c \in Cases /\ todo = c.order /\ acc = Absent /\ out = <<>>

\* What is stored of a property: a bit for every entry, a bit for every entry
\* without data, or the values there are, in order.
Stored(p) ==
    CASE p = "empty" -> c.es
      [] p = "emptyfile" -> c.ef
      [] p = "name" -> [x \in 1..c.n |-> x]
      [] OTHER -> SelectSeq([x \in 1..c.n |-> x], LAMBDA x : c.def[p].bits[x])

\* Reading spreads the values over the entries that have one.
Spread(p, vals) ==
    IF p \in {"empty", "emptyfile", "name"} THEN vals
    ELSE [x \in 1..c.n |-> IF c.def[p].bits[x] THEN vals[Count(SubSeq(c.def[p].bits, 1, x))] ELSE 0]

Read ==
    /\ todo # <<>>
    /\ acc' = [acc EXCEPT ![Head(todo)] = Spread(Head(todo), Stored(Head(todo)))]
    /\ todo' = Tail(todo)
    /\ UNCHANGED <<c, out>>

At(s, x, d) == IF s = <<>> THEN d ELSE s[x]
Entry(x) ==
    LET e == At(acc.empty, x, FALSE)
    IN  [data |-> ~e,
         file |-> e /\ At(acc.emptyfile, Count(SubSeq(acc.empty, 1, x)), FALSE),
         name |-> At(acc.name, x, 0), ctime |-> At(acc.ctime, x, 0), atime |-> At(acc.atime, x, 0),
         mtime |-> At(acc.mtime, x, 0), attr |-> At(acc.attr, x, 0)]

HandOut ==
    /\ todo = <<>> /\ Len(out) < c.n
    /\ out' = Append(out, Entry(Len(out) + 1))
    /\ UNCHANGED <<c, todo, acc>>

Next == Read \/ HandOut
Spec == Init /\ [][Next]_vars

\* C08: a value is reported for the entry it belongs to, and only where it is
\* defined, whatever the order.
Own == \A x \in DOMAIN out :
    /\ out[x].name = (IF \E y \in DOMAIN c.order : c.order[y] = "name" THEN x ELSE 0)
    /\ \A p \in Valued : out[x][p] = IF c.def[p] # None /\ c.def[p].bits[x] THEN x ELSE 0
    /\ out[x].data = ~c.es[x]
    /\ out[x].file => c.es[x]

Emit == (todo' = <<>> /\ Len(out') = c.n /\ Len(out) < c.n) => PrintT(ToJson([c |-> c, out |-> out']))
=============================================================================
