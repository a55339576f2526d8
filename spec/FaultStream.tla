------------------------------ MODULE FaultStream ------------------------------
(***************************************************************************)
(* Storage that fails now and then below one stream.  An operation may hit  *)
(* a failure while the storage is out of order; what it read ahead then may *)
(* let it go on for a while, so that the decoder is tainted.  An operation  *)
(* may only fail if it hits a failure or its decoder is tainted.  A handle  *)
(* that failed stays failed, and its decoder is thrown away.                *)
(*                                                                         *)
(* What an operation does is up to the code (obs); the code is walked along *)
(* the edges that agree with what was seen.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes, Handles

SizesThree == <<1, 1, 2>>
SizesTwo == <<2, 1>>

VARIABLES broken,   \* whether the storage may fail
          arch,     \* whether the archive is open
          hs,       \* what the handles have open
          idle,     \* position -> idle decoder there
          act
vars == <<broken, arch, hs, idle>>

N == Len(Sizes)
RECURSIVE Start(_)
Start(f) == IF f = 1 THEN 0 ELSE Start(f - 1) + Sizes[f - 1]
Total == Start(N) + Sizes[N]

Closed == [f |-> 0, pos |-> 0, dead |-> FALSE, taint |-> FALSE]
None == "none"

Init ==
    /\ broken = FALSE /\ arch = FALSE
    /\ hs = [x \in Handles |-> Closed]
    /\ idle = [p \in 0..(Total - 1) |-> None]
    /\ act = [op |-> [do |-> "none"], obs |-> [ok |-> TRUE]]

Live == (\E x \in Handles : hs[x] # Closed) \/ (\E p \in DOMAIN idle : idle[p] # None)

Break ==
    /\ ~broken /\ broken' = TRUE
    /\ act' = [op |-> [do |-> "break"], obs |-> [ok |-> TRUE]]
    /\ UNCHANGED <<arch, hs, idle>>

\* all: decoders that read in the background may have hit a failure at any time.
Mend ==
    /\ broken /\ broken' = FALSE
    /\ \E all \in BOOLEAN :
        /\ act' = [op |-> [do |-> "mend"], obs |-> [all |-> all]]
        /\ hs' = IF all THEN [x \in Handles |-> IF hs[x] = Closed THEN Closed ELSE [hs[x] EXCEPT !.taint = TRUE]] ELSE hs
        /\ idle' = IF all THEN [p \in DOMAIN idle |-> IF idle[p] = None THEN None ELSE "tainted"] ELSE idle
    /\ UNCHANGED arch

\* hit: the operation met a failure of the storage.
Obs == {o \in [hit : BOOLEAN, ok : BOOLEAN] : o.hit => broken}

OpenArchive ==
    /\ ~arch
    /\ \E o \in Obs :
        /\ ~o.ok => o.hit
        /\ arch' = o.ok
        /\ act' = [op |-> [do |-> "archive"], obs |-> o]
    /\ UNCHANGED <<broken, hs, idle>>

Max(S) == CHOOSE p \in S : \A q \in S : q <= p
Open(x, f) ==
    /\ arch /\ hs[x] = Closed
    /\ LET C == {p \in DOMAIN idle : idle[p] # None /\ p <= Start(f)}
           taint == C # {} /\ idle[Max(C)] = "tainted" IN
       \E o \in Obs :
        /\ ~o.ok => o.hit \/ taint
        /\ hs' = IF o.ok THEN [hs EXCEPT ![x] = [f |-> f, pos |-> 0, dead |-> FALSE, taint |-> taint \/ o.hit]] ELSE hs
        /\ idle' = IF C = {} THEN idle ELSE [idle EXCEPT ![Max(C)] = None]
        /\ act' = [op |-> [do |-> "open", h |-> x, f |-> f], obs |-> o]
    /\ UNCHANGED <<broken, arch>>

Read(x, n) ==
    /\ hs[x] # Closed /\ ~hs[x].dead /\ n <= Sizes[hs[x].f] - hs[x].pos
    /\ \E o \in Obs :
        /\ ~o.ok => o.hit \/ hs[x].taint
        /\ hs' = IF o.ok THEN [hs EXCEPT ![x].pos = @ + n, ![x].taint = @ \/ o.hit] ELSE [hs EXCEPT ![x].dead = TRUE]
        /\ act' = [op |-> [do |-> "read", h |-> x, n |-> n], obs |-> o]
    /\ UNCHANGED <<broken, arch, idle>>

\* A failed handle fails without trying anything.
Again(x) ==
    /\ hs[x].dead
    /\ act' = [op |-> [do |-> "again", h |-> x], obs |-> [hit |-> FALSE, ok |-> FALSE]]
    /\ UNCHANGED vars

Close(x) ==
    /\ hs[x] # Closed
    /\ LET p == Start(hs[x].f) + hs[x].pos IN
        idle' = IF hs[x].dead \/ p = Total \/ idle[p] # None THEN idle
                ELSE [idle EXCEPT ![p] = IF hs[x].taint THEN "tainted" ELSE "clean"]
    /\ hs' = [hs EXCEPT ![x] = Closed]
    \* Decoders may complain on closing about what they read ahead.
    /\ \E ok \in BOOLEAN :
        /\ ok \/ hs[x].taint \/ hs[x].dead
        /\ act' = [op |-> [do |-> "close", h |-> x], obs |-> [hit |-> FALSE, ok |-> ok]]
    /\ UNCHANGED <<broken, arch>>

Next ==
    \/ Break \/ Mend \/ OpenArchive
    \/ \E x \in Handles :
        \/ \E f \in 1..N : Open(x, f)
        \/ \E n \in 1..2 : Read(x, n)
        \/ Again(x) \/ Close(x)

Spec == Init /\ [][Next]_<<vars, act>>

\* C05
\* Handles are failed for good.
StayFailed == [][\A x \in Handles : hs[x].dead => hs'[x] = Closed \/ hs'[x].dead]_<<vars, act>>
\* What failed is thrown away: whatever is idle never failed, and fails once at most.
ThrownAway == [][\A x \in Handles : hs[x].dead /\ hs'[x] = Closed => idle' = idle]_<<vars, act>>
\* When the storage works, only what was tainted before can fail.
Recovers == [][\A x \in Handles : ~broken /\ ~hs[x].dead /\ hs'[x].dead => hs[x].taint]_<<vars, act>>
Untainted == (\A x \in Handles : ~hs[x].taint) /\ (\A p \in DOMAIN idle : idle[p] # "tainted")
Mended == [][~broken /\ Untainted =>
    Untainted' \/ broken']_<<vars, act>>

ASSUME PrintT(ToJson([cfg |-> [sizes |-> Sizes]]))
Emit == PrintT(ToJson([s |-> <<broken, arch, hs, idle>>, t |-> <<broken', arch', hs', idle'>>, a |-> act', l |-> TLCGet("level")]))
=============================================================================
