------------------------------ MODULE CoderGraph ------------------------------
(***************************************************************************)
(* The wiring of the coders of a stream.  Each coder has inputs and one    *)
(* output; inputs and outputs are numbered through over the coders.  Bind  *)
(* pairs connect an input to an output, and the list of packed streams     *)
(* names the inputs fed from the archive.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Shapes,    \* set of sequences: the number of inputs of each coder
          Mode       \* "all" (any numbers), "valid" (wirings that make sense), "linear"

VARIABLES c, built, res
vars == <<c, built, res>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
First(shape, k) == Sum(SubSeq(shape, 1, k - 1))
NIn(shape) == Sum(shape)
NOut(shape) == Len(shape)
NPacked(shape) == NIn(shape) - (NOut(shape) - 1)
CoderOf(shape, in) == CHOOSE k \in DOMAIN shape : First(shape, k) <= in /\ in < First(shape, k) + shape[k]

\* A packed stream that is the only one is not listed, it is the input nothing
\* is bound to; if that is not exactly one there is no such input.
Listed(shape) == NPacked(shape) > 1
Unbound(binds, n) == {x \in 0..(n - 1) : \A b \in DOMAIN binds : binds[b].i # x}
Implied(shape, binds) == LET u == Unbound(binds, NIn(shape)) IN IF Cardinality(u) = 1 THEN <<CHOOSE x \in u : TRUE>> ELSE <<-1>>

Raw(shape) ==
    [shape : {shape},
     binds : [1..(NOut(shape) - 1) -> [i : 0..(NIn(shape) - 1), o : 0..(NOut(shape) - 1)]],
     packed : IF Listed(shape) THEN [1..NPacked(shape) -> 0..(NIn(shape) - 1)] ELSE {<<>>}]

\* Every input has one source and every output but one a use.
Sound(k) ==
    LET p == IF Listed(k.shape) THEN k.packed ELSE Implied(k.shape, k.binds)
        uses(x) == Cardinality({b \in DOMAIN k.binds : k.binds[b].i = x}) + Cardinality({q \in DOMAIN p : p[q] = x})
    IN  /\ \A x \in 0..(NIn(k.shape) - 1) : uses(x) = 1
        /\ \A b1, b2 \in DOMAIN k.binds : k.binds[b1].o = k.binds[b2].o => b1 = b2

\* The coder an output feeds, 0 for the one that is the result.
Feeds(k, o) == IF \E b \in DOMAIN k.binds : k.binds[b].o = o
               THEN CoderOf(k.shape, k.binds[CHOOSE b \in DOMAIN k.binds : k.binds[b].o = o].i)
               ELSE 0
RECURSIVE Reaches(_, _, _)
Reaches(k, x, n) == x = 0 \/ (n > 0 /\ Reaches(k, Feeds(k, x - 1), n - 1))
Acyclic(k) == \A x \in DOMAIN k.shape : Reaches(k, x, Len(k.shape))
\* Listed in the order they depend on each other.
Ordered(k) == \A b \in DOMAIN k.binds : k.binds[b].o + 1 < CoderOf(k.shape, k.binds[b].i)

\* Wirings that make sense, in each of a few orders of writing them down.
Rev(s) == [x \in DOMAIN s |-> s[Len(s) + 1 - x]]
ValidCases(shape) ==
    LET ins == 0..(NIn(shape) - 1)
        n == NOut(shape)
        maps == UNION {{f \in [(0..(n - 1)) \ {m} -> ins] :
                            \A x, y \in DOMAIN f : x # y => f[x] # f[y]} : m \in {n - 1}}
        mk(f, rb, rp) ==
            LET bs == [x \in 1..(n - 1) |-> [i |-> f[x - 1], o |-> x - 1]]
                ps == SetToSortSeq({x \in ins : \A y \in DOMAIN f : f[y] # x}, LAMBDA a, b : a < b)
            IN  [shape |-> shape, binds |-> IF rb THEN Rev(bs) ELSE bs,
                 packed |-> IF Len(ps) = 1 THEN <<>> ELSE IF rp = 0 THEN ps ELSE IF rp = 1 THEN Rev(ps) ELSE Append(Tail(ps), Head(ps))]
    IN  {mk(f, rb, rp) : f \in maps, rb \in BOOLEAN, rp \in 0..2}

Linear(shape) ==
    LET n == Len(shape)
        bs == [x \in 1..(n - 1) |-> [i |-> x, o |-> x - 1]]
    IN  {[shape |-> shape, binds |-> bs, packed |-> <<>>], [shape |-> shape, binds |-> Rev(bs), packed |-> <<>>]}

Cases == UNION {IF Mode = "all" THEN Raw(s) ELSE IF Mode = "valid" THEN ValidCases(s) ELSE Linear(s) : s \in Shapes}

Init == c \in Cases /\ built = <<>> /\ res = "building"

Packed(k) == IF Listed(k.shape) THEN k.packed ELSE Implied(k.shape, k.binds)
Index(s, x) == CHOOSE n \in DOMAIN s : s[n] = x

\* Coder by coder: an input comes from a packed stream or from a coder that is
\* there already.
Source(k, in, n) ==
    IF \E q \in DOMAIN Packed(k) : Packed(k)[q] = in
    THEN [kind |-> "packed", n |-> Index(Packed(k), in)]
    ELSE IF \E b \in DOMAIN k.binds : k.binds[b].i = in /\ k.binds[b].o + 1 < n
    THEN [kind |-> "coder", n |-> k.binds[CHOOSE b \in DOMAIN k.binds : k.binds[b].i = in /\ k.binds[b].o + 1 < n].o + 1]
    ELSE [kind |-> "missing", n |-> 0]

Build ==
    /\ res = "building" /\ Len(built) < Len(c.shape)
    /\ LET n == Len(built) + 1
           src == [x \in 1..c.shape[n] |-> Source(c, First(c.shape, n) + x - 1, n)]
       IN  IF \E x \in DOMAIN src : src[x].kind = "missing"
           THEN res' = "failed" /\ UNCHANGED built
           ELSE built' = Append(built, src) /\ UNCHANGED res
    /\ UNCHANGED c

Finish ==
    /\ res = "building" /\ Len(built) = Len(c.shape)
    /\ LET free == {o \in 1..Len(c.shape) : \A b \in DOMAIN c.binds : c.binds[b].o # o - 1}
       IN  res' = IF Cardinality(free) = 1 THEN "ok" ELSE "failed"
    /\ UNCHANGED <<c, built>>

Next == Build \/ Finish
Spec == Init /\ [][Next]_vars

Main == CHOOSE o \in 1..Len(c.shape) : \A b \in DOMAIN c.binds : c.binds[b].o # o - 1

\* What was built is the wiring as a whole.
Same == res = "ok" => built = [n \in DOMAIN c.shape |-> [x \in 1..c.shape[n] |-> Source(c, First(c.shape, n) + x - 1, 1000)]]
\* C17: what can be built coder by coder is what makes sense and is in order.
Agree == res \in {"ok", "failed"} => (res = "ok" <=> Sound(c) /\ Acyclic(c) /\ Ordered(c))
Uses == res = "ok" =>
    \A p \in 1..NPacked(c.shape) : Cardinality({<<n, x>> \in (1..Len(c.shape)) \X (1..10) : x \in DOMAIN built[n] /\ built[n][x] = [kind |-> "packed", n |-> p]}) = 1

\* The whole wiring, for those that make sense.
Wiring == [n \in DOMAIN c.shape |-> [x \in 1..c.shape[n] |-> Source(c, First(c.shape, n) + x - 1, 1000)]]

Answer == IF res' = "ok" THEN "ok" ELSE IF Sound(c) /\ Acyclic(c) THEN "reorder" ELSE "reject"
Emit == res' # "building" =>
    PrintT(ToJson([c |-> c, answer |-> Answer, built |-> IF Answer = "reject" THEN <<>> ELSE Wiring,
                   main |-> IF Answer = "reject" THEN 0 ELSE Main,
                   packed |-> NPacked(c.shape)]))
=============================================================================
