----------------------------- MODULE StreamPool -----------------------------
(***************************************************************************)
(* How the files of an archive share the decoders of its streams.          *)
(*                                                                         *)
(* A stream (7-Zip calls it a folder) holds the concatenated contents of   *)
(* its files and can only be decoded forwards.  Opening a file needs a     *)
(* decoder that stands at the start of the file: one of those kept idle    *)
(* is moved forward, or a new one is created.  Closing a file keeps its    *)
(* decoder idle for later files of the stream.                             *)
(*                                                                         *)
(* One action per public call; each call of the code is atomic here as it  *)
(* only touches shared state in one critical section (ConcurrentPool.tla   *)
(* splits them).                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
    Streams,    \* per stream the sequence of its files' sizes
    Handles,    \* handles that can be open at the same time
    Cap,        \* decoders kept idle per stream at most
    ReadSizes,  \* sizes read in one go
    CloseFails, \* whether decoders can fail to close
    Faults      \* whether decoders can fail to be made and to decode

VARIABLES
    idle,       \* per stream: positions of idle decoders, least recently kept first
    hs,         \* per handle: what it is
    act         \* last action and the reply to it (hidden by the view)

vars == <<idle, hs, act>>
state == [idle |-> idle, hs |-> hs]

None == -1

RECURSIVE SumTo(_, _)
SumTo(sizes, n) == IF n = 0 THEN 0 ELSE sizes[n] + SumTo(sizes, n - 1)

Size(s) == SumTo(Streams[s], Len(Streams[s]))
Off(s, i) == SumTo(Streams[s], i - 1)
FileSize(s, i) == Streams[s][i]
Pooled(s) == Len(Streams[s]) > 1

\* A file is named by its stream and its number in there, <<0, 0>> stands for
\* an entry without content.
Files == {<<0, 0>>} \cup {<<s, i>> : s \in DOMAIN Streams, i \in 1..10}
RealFiles == {f \in Files : f[1] = 0 \/ f[2] \in DOMAIN Streams[f[1]]}

Closed == [st |-> "closed"]

Init ==
    /\ idle = [s \in DOMAIN Streams |-> <<>>]
    /\ hs = [h \in Handles |-> Closed]
    /\ act = [op |-> "init"]

SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

\* The decoder that Open continues, None if there is none to continue.
Candidates(s, off) == {p \in ToSet(idle[s]) : p <= off}
Chosen(s, off) == IF Candidates(s, off) = {} THEN None ELSE SetMax(Candidates(s, off))

Open(h, f) ==
    /\ hs[h] = Closed
    /\ IF f[1] = 0
       THEN /\ hs' = [hs EXCEPT ![h] = [st |-> "open", s |-> 0, i |-> 0, n |-> 0]]
            /\ act' = [op |-> "open", h |-> h, s |-> 0, i |-> 0, from |-> None, at |-> 0, fresh |-> FALSE]
            /\ UNCHANGED idle
       ELSE LET s == f[1]
                off == Off(s, f[2])
                from == Chosen(s, off)
            IN  /\ hs' = [hs EXCEPT ![h] = [st |-> "open", s |-> s, i |-> f[2], n |-> FileSize(s, f[2])]]
                /\ idle' = [idle EXCEPT ![s] = SelectSeq(@, LAMBDA p : p # from)]
                /\ act' = [op |-> "open", h |-> h, s |-> s, i |-> f[2],
                           from |-> from, at |-> off, fresh |-> from = None]

Read(h, m) ==
    /\ hs[h].st = "open"
    /\ LET n == IF m < hs[h].n THEN m ELSE hs[h].n
           left == hs[h].n - n
       IN  /\ hs' = [hs EXCEPT ![h].n = left]
           /\ act' = [op |-> "read", h |-> h, m |-> m, n |-> n, left |-> left,
                      s |-> hs[h].s,
                      at |-> IF hs[h].s = 0 THEN 0
                             ELSE Off(hs[h].s, hs[h].i) + FileSize(hs[h].s, hs[h].i) - hs[h].n]
    /\ UNCHANGED idle

\* What becomes of the decoder of a file that is closed.
Fate(s, pos) ==
    IF pos = Size(s) THEN "end"
    ELSE IF ~Pooled(s) THEN "single"
    ELSE IF pos \in ToSet(idle[s]) THEN "duplicate"
    ELSE "kept"

\* Opening fails: no decoder can be made, or the one that is there or was made
\* fails on its way to the file and nobody can use it any more.
OpenFails(h, f, how) ==
    /\ Faults /\ hs[h] = Closed /\ f[1] # 0
    /\ LET s == f[1]
           off == Off(s, f[2])
           from == Chosen(s, off)
       IN  /\ IF how = "create" THEN from = None ELSE (IF from = None THEN 0 ELSE from) < off
           /\ idle' = [idle EXCEPT ![s] = SelectSeq(@, LAMBDA p : p # from)]
           /\ act' = [op |-> "openfails", h |-> h, s |-> s, i |-> f[2], from |-> from, at |-> off,
                      fresh |-> from = None, how |-> how]
    /\ UNCHANGED hs

\* A decoder that failed is of no use any more, and neither is the handle.
ReadFails(h) ==
    /\ Faults /\ hs[h].st = "open" /\ hs[h].s # 0 /\ hs[h].n > 0
    /\ hs' = [hs EXCEPT ![h].st = "failed"]
    /\ act' = [op |-> "readfails", h |-> h, s |-> hs[h].s]
    /\ UNCHANGED idle

CloseFailed(h, fails) ==
    /\ hs[h].st = "failed"
    /\ hs' = [hs EXCEPT ![h] = Closed]
    /\ act' = [op |-> "close", h |-> h, s |-> hs[h].s, at |-> None, fate |-> "failed", evicted |-> None, fails |-> fails]
    /\ UNCHANGED idle

\* A decoder that reports an error when it is closed is closed all the same, and
\* so is the handle.
Close(h, fails) ==
    /\ hs[h].st = "open"
    /\ hs' = [hs EXCEPT ![h] = Closed]
    /\ IF hs[h].s = 0
       THEN /\ ~fails
            /\ act' = [op |-> "close", h |-> h, s |-> 0, at |-> 0, fate |-> "none", evicted |-> None, fails |-> FALSE]
            /\ UNCHANGED idle
       ELSE LET s == hs[h].s
                pos == Off(s, hs[h].i) + FileSize(s, hs[h].i) - hs[h].n
                fate == Fate(s, pos)
                full == Append(idle[s], pos)
                over == fate = "kept" /\ Len(full) > Cap
            IN  /\ fails => (fate # "kept" \/ over)
                /\ idle' = IF fate # "kept" THEN idle
                           ELSE [idle EXCEPT ![s] = IF over THEN Tail(full) ELSE full]
                /\ act' = [op |-> "close", h |-> h, s |-> s, at |-> pos, fate |-> fate,
                           evicted |-> IF over THEN Head(full) ELSE None, fails |-> fails]

Next ==
    \E h \in Handles :
        \/ \E f \in RealFiles : Open(h, f)
        \/ \E m \in ReadSizes : Read(h, m)
        \/ \E fails \in CloseFails : Close(h, fails) \/ CloseFailed(h, fails)
        \/ \E f \in RealFiles, how \in {"create", "skip"} : OpenFails(h, f, how)
        \/ ReadFails(h)

Spec == Init /\ [][Next]_vars

View == <<idle, hs>>

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
IsOpen(h) == hs[h].st = "open"
Pos(h) == Off(hs[h].s, hs[h].i) + FileSize(hs[h].s, hs[h].i) - hs[h].n

TypeOK ==
    /\ \A s \in DOMAIN Streams : \A k \in DOMAIN idle[s] : idle[s][k] \in 0..Size(s)
    /\ \A h \in Handles : IsOpen(h) /\ hs[h].s # 0 => hs[h].n \in 0..FileSize(hs[h].s, hs[h].i)

\* C03
Bounded == \A s \in DOMAIN Streams : Len(idle[s]) <= Cap
Distinct == \A s \in DOMAIN Streams : Cardinality(ToSet(idle[s])) = Len(idle[s])
NoneAtEnd == \A s \in DOMAIN Streams : \A p \in ToSet(idle[s]) : p < Size(s)
NoneForSingle == \A s \in DOMAIN Streams : ~Pooled(s) => idle[s] = <<>>

\* Every decoder is accounted for: it is created by an open, and leaves by a
\* close or an eviction.
Holds(x) == x.st \in {"open", "failed"} /\ x.s # 0
Live == Len(FlattenSeq([s \in DOMAIN Streams |-> idle[s]]))
        + Cardinality({h \in Handles : Holds(hs[h])})
LiveNext == Len(FlattenSeq([s \in DOMAIN Streams |-> idle'[s]]))
            + Cardinality({h \in Handles : Holds(hs'[h])})
Conserved ==
    [][LiveNext = Live
        + (IF act'.op = "open" /\ act'.fresh THEN 1 ELSE 0)
        - (IF act'.op = "openfails" /\ ~act'.fresh THEN 1 ELSE 0)
        - (IF act'.op = "close" /\ act'.fate \in {"end", "single", "duplicate", "failed"} THEN 1 ELSE 0)
        - (IF act'.op = "close" /\ act'.evicted # None THEN 1 ELSE 0)]_vars

\* C04: nothing closer was idle, and a new decoder is only made if none would do.
Closest ==
    [][act'.op \in {"open", "openfails"} /\ act'.s # 0 =>
        /\ act'.from <= act'.at
        /\ \A p \in ToSet(idle[act'.s]) : p <= act'.at => p <= act'.from]_vars

\* C01: what a handle reads next is where its file's content is.
Faithful ==
    [][act'.op = "read" /\ act'.s # 0 =>
        /\ act'.at = Pos(act'.h)
        /\ act'.at + act'.n <= Off(act'.s, hs[act'.h].i) + FileSize(act'.s, hs[act'.h].i)]_vars

ASSUME PrintT(ToJson([cfg |-> [streams |-> Streams, cap |-> Cap]]))
Emit == PrintT(ToJson([s |-> state, t |-> state', a |-> act', l |-> TLCGet("level")]))
=============================================================================
