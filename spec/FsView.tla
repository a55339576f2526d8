------------------------------- MODULE FsView -------------------------------
(***************************************************************************)
(* The tree of an archive: how names of entries become paths, which        *)
(* directories there are, and what they list.                              *)
(*                                                                         *)
(* A name is a sequence of tokens joined by separators: 0 is the empty     *)
(* string, -1 is ".", -2 is "..", and a positive number is an ordinary     *)
(* element (they sort as numbers do).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Cases     \* sets of sequences of entries [n: tokens, dir: BOOLEAN, bs: BOOLEAN]

VARIABLES
    entries,    \* the case
    k,          \* how many entries were taken in
    list,       \* what was found: [p: path, first: entry, dir, dup]
    parents,    \* directories that something lies in
    done
vars == <<entries, k, list, parents, done>>

(***************************************************************************)
(* Cleaning a name, step by step as path.Clean does it.                    *)
(***************************************************************************)
RECURSIVE Norm(_, _, _)
Norm(toks, stack, rooted) ==
    IF toks = <<>> THEN stack
    ELSE LET t == Head(toks)
             rest == Tail(toks)
         IN  IF t \in {0, -1} THEN Norm(rest, stack, rooted)
             ELSE IF t = -2
             THEN IF stack # <<>> /\ Last(stack) # -2 THEN Norm(rest, Front(stack), rooted)
                  ELSE IF rooted THEN Norm(rest, stack, rooted)
                  ELSE Norm(rest, Append(stack, -2), rooted)
             ELSE Norm(rest, Append(stack, t), rooted)

RECURSIVE Strip(_)
Strip(p) == IF Len(p) > 1 /\ p[1] = -2 THEN Strip(Tail(p)) ELSE p

Rooted(toks) == Len(toks) > 1 /\ toks[1] = 0
\* <<>> for a name that stands for nothing below the root.
Clean(toks) ==
    LET p == Strip(Norm(toks, <<>>, Rooted(toks)))
    IN  IF p = <<-2>> THEN <<>> ELSE p

\* A directory's name, or one that ends in a slash.
IsDir(e) == e.dir \/ (~e.bs /\ Len(e.n) > 1 /\ Last(e.n) = 0)

Parents(p) == {SubSeq(p, 1, j) : j \in 1..(Len(p) - 1)}

(***************************************************************************)
(* The index is built entry by entry.                                      *)
(***************************************************************************)
Init ==
    /\ entries \in Cases
    /\ k = 0 /\ list = <<>> /\ parents = {} /\ done = FALSE

Known(p) == {j \in DOMAIN list : list[j].p = p}

Take ==
    /\ k < Len(entries)
    /\ k' = k + 1
    /\ LET e == entries[k + 1]
           p == Clean(e.n)
       IN  IF p = <<>> THEN UNCHANGED <<list, parents>>
           ELSE IF Known(p) # {}
           THEN /\ list' = [list EXCEPT ![CHOOSE j \in Known(p) : TRUE].dup = TRUE]
                /\ UNCHANGED parents
           ELSE /\ list' = Append(list, [p |-> p, first |-> k + 1, dir |-> IsDir(e), dup |-> FALSE])
                /\ parents' = parents \cup Parents(p)
    /\ UNCHANGED <<entries, done>>

Complete ==
    /\ k = Len(entries) /\ ~done
    /\ done' = TRUE
    /\ list' = [j \in DOMAIN list |->
                   IF list[j].p \in parents /\ ~list[j].dir THEN [list[j] EXCEPT !.dup = TRUE] ELSE list[j]]
               \o SetToSeq({[p |-> p, first |-> 0, dir |-> TRUE, dup |-> FALSE] : p \in {q \in parents : Known(q) = {}}})
    /\ UNCHANGED <<entries, k, parents>>

Next == Take \/ Complete
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the view has to be, said of the entries alone.                     *)
(***************************************************************************)
Claims(p) == {i \in DOMAIN entries : Clean(entries[i].n) = p}
Below(p) == {i \in DOMAIN entries : LET q == Clean(entries[i].n) IN Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p}
Exists(p) == p # <<>> /\ (Claims(p) \cup Below(p)) # {}
First(p) == IF Claims(p) = {} THEN 0 ELSE Min(Claims(p))
DirAt(p) == IF Claims(p) = {} THEN TRUE ELSE IsDir(entries[First(p)])
Ambiguous(p) == Cardinality(Claims(p)) > 1 \/ (Claims(p) # {} /\ ~DirAt(p) /\ Below(p) # {})

Paths == UNION {{SubSeq(Clean(entries[i].n), 1, j) : j \in 1..Len(Clean(entries[i].n))} : i \in DOMAIN entries}

\* C13
ViewIsRight ==
    done =>
        /\ {list[j].p : j \in DOMAIN list} = {p \in Paths : Exists(p)}
        /\ \A i, j \in DOMAIN list : list[i].p = list[j].p => i = j
        /\ \A j \in DOMAIN list :
              LET x == list[j] IN x.first = First(x.p) /\ x.dir = DirAt(x.p) /\ x.dup = Ambiguous(x.p)
        \* every element's parent is there, up to the root
        /\ \A j \in DOMAIN list : \A q \in Parents(list[j].p) : \E m \in DOMAIN list : list[m].p = q
ValidPaths == \A j \in DOMAIN list : \A m \in DOMAIN list[j].p : list[j].p[m] > 0
CleanIsIdempotent == \A i \in DOMAIN entries : LET p == Clean(entries[i].n) IN p # <<>> => Clean(p) = p

\* Children of a directory in order.
Children(p) ==
    SortSeq(SetToSeq({list[j] : j \in {m \in DOMAIN list : Len(list[m].p) = Len(p) + 1 /\ SubSeq(list[m].p, 1, Len(p)) = p}}),
            LAMBDA a, b : Last(a.p) < Last(b.p))
Dirs == {<<>>} \cup {list[j].p : j \in {m \in DOMAIN list : list[m].dir}}

Emit ==
    done' /\ ~done =>
        PrintT(ToJson([entries |-> entries, all |-> list',
                       dirs |-> {[p |-> p, c |-> Children(p)'] : p \in Dirs'}]))

(***************************************************************************)
(* Cases                                                                   *)
(***************************************************************************)
Entry(n, d, b) == [n |-> n, dir |-> d, bs |-> b]
CoreNames == {<<1>>, <<2>>, <<3>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 1, 1>>, <<-2, 1>>, <<0, 1>>, <<1, -1, 2>>, <<1, 0>>, <<-1>>,
              <<2, -2, 1>>}
Core == {Entry(n, d, FALSE) : n \in CoreNames, d \in BOOLEAN}
Few == {Entry(n, d, FALSE) : n \in {<<1>>, <<1, 2>>, <<2, 1>>}, d \in BOOLEAN}
Tokens == {1, 2, 0, -1, -2}
AllNames == [1..1 -> Tokens] \cup [1..2 -> Tokens] \cup [1..3 -> Tokens]
All == {Entry(n, d, b) : n \in AllNames, d \in BOOLEAN, b \in BOOLEAN}
Triples == {<<a, b, c>> : a \in Core, b \in Core, c \in Core}
Pairs == {<<a, b>> : a \in All, b \in Few} \cup {<<a, b>> : a \in Few, b \in All}
Small == {<<a, b>> : a \in Few, b \in Few} \cup {<<>>} \cup {<<a>> : a \in All}
Plain == {Entry(n, d, FALSE) : n \in {<<1>>, <<3>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<3, 2>>, <<1, 2, 3>>}, d \in BOOLEAN}
Quads == {<<a, b, c, d>> : a \in Plain, b \in Plain, c \in Plain, d \in Plain}
Long == [1..4 -> {1, 2, 0, -2}] \cup [1..5 -> {1, -2}]
Longs == {<<Entry(a, d, FALSE), b>> : a \in Long, d \in BOOLEAN, b \in Few}
=============================================================================
