-------------------------------- MODULE Truncate --------------------------------
(***************************************************************************)
(* An archive whose data ends early.  Stream 1 is complete, stream 2 ends   *)
(* before the files in it do: Lo units of it can certainly be decoded, Hi   *)
(* units perhaps.  Handles are opened, read in units and closed in any      *)
(* order.  Once the end has shown, a handle stays failed.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

SizesThree == <<2, 1, 2>>
SizesFour == <<1, 0, 2, 1>>

CONSTANTS Sizes,     \* of the files of stream 2, in units
          Other,     \* size of the file of stream 1
          Handles

VARIABLES c,   \* [lo, hi]
          hs,  \* Handles -> what is open
          act  \* the last action, for the trace
vars == <<c, hs>>

N == Len(Sizes)
Files == 0..N
RECURSIVE Start(_)
Start(f) == IF f <= 1 THEN 0 ELSE Start(f - 1) + Sizes[f - 1]
SizeOf(f) == IF f = 0 THEN Other ELSE Sizes[f]
Total == Start(N) + Sizes[N]

Closed == [f |-> -1, pos |-> 0, dead |-> FALSE]

Init ==
    /\ \E lo \in 0..(Total - 1) : \E hi \in lo..Total : c = [lo |-> lo, hi |-> hi]
    /\ hs = [x \in Handles |-> Closed]
    /\ act = [op |-> "none"]

\* Whether the first n units of the stream of f can be had.
Have(f, n) == IF f = 0 \/ n <= c.lo THEN "ok"
              ELSE IF n <= c.hi THEN "any" ELSE "fails"

Open(x, f) ==
    /\ hs[x] = Closed
    /\ LET r == IF SizeOf(f) = 0 THEN "ok"
               ELSE IF f # 0 /\ c.lo = 0 /\ Start(f) = 0 THEN "any" \* a decoder may need something to begin with
               ELSE Have(f, Start(f)) IN
       /\ act' = [op |-> "open", h |-> x, f |-> f, reply |-> r]
       /\ hs' = IF r = "ok" THEN [hs EXCEPT ![x] = [f |-> f, pos |-> 0, dead |-> FALSE]] ELSE hs
    /\ UNCHANGED c

Left(x) == SizeOf(hs[x].f) - hs[x].pos

\* Exactly n units are asked for, one by one.
Read(x, n) ==
    /\ hs[x] # Closed /\ ~hs[x].dead /\ n <= Left(x)
    /\ LET r == Have(hs[x].f, Start(hs[x].f) + hs[x].pos + n) IN
       /\ act' = [op |-> "read", h |-> x, n |-> n, reply |-> r]
       /\ hs' = IF r = "ok" THEN [hs EXCEPT ![x].pos = @ + n] ELSE [hs EXCEPT ![x].dead = TRUE]
    /\ UNCHANGED c

\* All that is left is asked for at once; what comes before the error is left open.
ReadAll(x) ==
    /\ hs[x] # Closed /\ ~hs[x].dead
    /\ LET r == IF Left(x) = 0 THEN "ok" ELSE Have(hs[x].f, Start(hs[x].f) + SizeOf(hs[x].f)) IN
       /\ act' = [op |-> "all", h |-> x, reply |-> r]
       /\ hs' = IF r = "ok" THEN [hs EXCEPT ![x].pos = SizeOf(hs[x].f)] ELSE [hs EXCEPT ![x].dead = TRUE]
    /\ UNCHANGED c

\* A failed handle does not come back to life.
Again(x) ==
    /\ hs[x] # Closed /\ hs[x].dead
    /\ act' = [op |-> "again", h |-> x]
    /\ UNCHANGED vars

Close(x) ==
    /\ hs[x] # Closed
    /\ act' = [op |-> "close", h |-> x]
    /\ hs' = [hs EXCEPT ![x] = Closed]
    /\ UNCHANGED c

Next == \E x \in Handles :
    \/ \E f \in Files : Open(x, f)
    \/ \E n \in 1..2 : Read(x, n)
    \/ ReadAll(x) \/ Again(x) \/ Close(x)

Spec == Init /\ [][Next]_<<vars, act>>

\* C06
\* Files before the missing part can be read, files after its beginning cannot.
Readable ==
    \A x \in Handles : hs[x] # Closed /\ hs[x].dead =>
        hs[x].f # 0 /\ Start(hs[x].f) + SizeOf(hs[x].f) > c.lo
NothingInvented ==
    \A x \in Handles : hs[x] # Closed /\ hs[x].f # 0 =>
        \/ hs[x].pos = 0
        \/ Start(hs[x].f) + hs[x].pos <= c.lo

ASSUME PrintT(ToJson([cfg |-> [sizes |-> Sizes, other |-> Other]]))
Emit == PrintT(ToJson([s |-> <<c, hs>>, t |-> <<c', hs'>>, a |-> act', l |-> TLCGet("level")]))
=============================================================================
