----------------------------- MODULE DirCursor -----------------------------
(***************************************************************************)
(* Directory handles of the fs.FS view and reading them in batches.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Dirs,     \* number of entries of each directory
    Handles,
    Batches   \* what ReadDir is called with

VARIABLES
    hs,       \* per handle: the directory and how far it was read
    out,      \* per handle: the entries it returned (history)
    act

vars == <<hs, out, act>>
Closed == [d |-> 0, pos |-> 0]
state == [hs |-> hs]

Init ==
    /\ hs = [h \in Handles |-> Closed]
    /\ out = [h \in Handles |-> <<>>]
    /\ act = [op |-> "init"]

Open(h, d) ==
    /\ hs[h] = Closed
    /\ hs' = [hs EXCEPT ![h] = [d |-> d, pos |-> 0]]
    /\ out' = [out EXCEPT ![h] = <<>>]
    /\ act' = [op |-> "open", h |-> h, d |-> d]

\* The reply: entries from+1 .. from+k, and whether io.EOF.
ReadDir(h, n) ==
    /\ hs[h] # Closed
    /\ LET left == Dirs[hs[h].d] - hs[h].pos
           k == IF n > 0 /\ n < left THEN n ELSE left
           eof == n > 0 /\ left = 0
       IN  /\ hs' = [hs EXCEPT ![h].pos = @ + k]
           /\ out' = [out EXCEPT ![h] = @ \o [i \in 1..k |-> hs[h].pos + i]]
           /\ act' = [op |-> "readdir", h |-> h, d |-> hs[h].d, n |-> n,
                      from |-> hs[h].pos, k |-> k, eof |-> eof]

\* Asking a directory for its information or its content changes nothing.
Stat(h) ==
    /\ hs[h] # Closed
    /\ act' = [op |-> "stat", h |-> h, d |-> hs[h].d]
    /\ UNCHANGED <<hs, out>>

ReadContent(h) ==
    /\ hs[h] # Closed
    /\ act' = [op |-> "read", h |-> h, d |-> hs[h].d]
    /\ UNCHANGED <<hs, out>>

Close(h) ==
    /\ hs[h] # Closed
    /\ hs' = [hs EXCEPT ![h] = Closed]
    /\ out' = [out EXCEPT ![h] = <<>>]
    /\ act' = [op |-> "close", h |-> h, d |-> hs[h].d]

Next ==
    \E h \in Handles :
        \/ \E d \in DOMAIN Dirs : Open(h, d)
        \/ \E n \in Batches : ReadDir(h, n)
        \/ Stat(h)
        \/ ReadContent(h)
        \/ Close(h)

Spec == Init /\ [][Next]_vars
View == <<hs, out>>

\* C14
ExactlyOnce == \A h \in Handles : hs[h] # Closed => out[h] = [i \in 1..hs[h].pos |-> i]
InRange == \A h \in Handles : hs[h] # Closed => hs[h].pos <= Dirs[hs[h].d]
EofOnlyAtEnd ==
    [][act'.op = "readdir" =>
        /\ act'.eof => act'.k = 0 /\ hs[act'.h].pos = Dirs[act'.d]
        /\ act'.n > 0 => act'.k <= act'.n /\ (act'.k = 0 => act'.eof)
        /\ act'.n <= 0 => ~act'.eof /\ hs'[act'.h].pos = Dirs[act'.d]]_vars
Independent ==
    [][\A h \in Handles : act'.h # h => hs'[h] = hs[h]]_vars

ASSUME PrintT(ToJson([cfg |-> [dirs |-> Dirs]]))
Emit == PrintT(ToJson([s |-> state, t |-> state', a |-> act', l |-> TLCGet("level")]))
BatchesSmall == {-1, 0, 1, 2, 4, 9}
BatchesLarge == {-9, -1, 0, 1, 2, 3, 5, 7, 100}
DirsSmall == <<0, 1, 3, 4>>
DirsLarge == <<0, 1, 2, 5, 7, 16>>
=============================================================================
