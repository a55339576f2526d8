--------------------------- MODULE ConcurrentPool ---------------------------
(***************************************************************************)
(* Goroutines that read files of the same archive at once.                 *)
(*                                                                         *)
(* StreamPool has one action per call; here the calls of the goroutines are *)
(* split where others can get in between: a decoder is taken from those that *)
(* are idle in one step, created in another if there was none to take, moved  *)
(* to the start of the file, read from, and given back or closed.            *)
(*                                                                         *)
(* Decoders are numbered in the order in which they are created.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
    Streams,    \* per stream the sequence of its files' sizes
    Procs,      \* goroutines
    Cap,        \* decoders kept idle per stream at most
    Programs,   \* what a goroutine may do: files to read, and how much of each
    Split       \* whether taking a decoder is two steps, which is wrong

VARIABLES
    prog,       \* per goroutine: what it does
    idle,       \* per stream: idle decoders, least recently kept first
    dec,        \* the decoders
    pr          \* per goroutine: where it is

vars == <<prog, idle, dec, pr>>

RECURSIVE SumTo(_, _)
SumTo(sizes, n) == IF n = 0 THEN 0 ELSE sizes[n] + SumTo(sizes, n - 1)
Size(s) == SumTo(Streams[s], Len(Streams[s]))
Off(v) == SumTo(Streams[v.s], v.i - 1)
FileSize(v) == Streams[v.s][v.i]
Pooled(s) == Len(Streams[s]) > 1

Visit(p) == prog[p][pr[p].k]
Rest(k) == [pc |-> "rest", k |-> k, d |-> 0, n |-> 0, got |-> 0, gone |-> 0]

Init ==
    /\ prog \in [Procs -> Programs]
    /\ idle = [s \in DOMAIN Streams |-> <<>>]
    /\ dec = <<>>
    /\ pr = [p \in Procs |-> Rest(1)]

To(p, r) == pr' = [pr EXCEPT ![p] = r]

\* What is idle and not beyond the start of the file.
Before(s, off) == {d \in ToSet(idle[s]) : dec[d].pos <= off}
Closest(s, off) == CHOOSE d \in Before(s, off) : \A e \in Before(s, off) : dec[e].pos <= dec[d].pos

CallOpen(p) ==
    /\ pr[p].pc = "rest" /\ pr[p].k <= Len(prog[p])
    /\ To(p, [pr[p] EXCEPT !.pc = "take"])
    /\ UNCHANGED <<prog, idle, dec>>

Take(p) ==
    /\ pr[p].pc = "take" /\ ~Split
    /\ LET v == Visit(p) IN
        IF Before(v.s, Off(v)) = {}
        THEN To(p, [pr[p] EXCEPT !.pc = "create"]) /\ UNCHANGED idle
        ELSE LET d == Closest(v.s, Off(v)) IN
             /\ idle' = [idle EXCEPT ![v.s] = SelectSeq(@, LAMBDA e : e # d)]
             /\ To(p, [pr[p] EXCEPT !.pc = "seek", !.d = d])
    /\ UNCHANGED <<prog, dec>>

\* Looking for a decoder and taking it, with others in between.
Look(p) ==
    /\ pr[p].pc = "take" /\ Split
    /\ LET v == Visit(p) IN
        IF Before(v.s, Off(v)) = {}
        THEN To(p, [pr[p] EXCEPT !.pc = "create"])
        ELSE To(p, [pr[p] EXCEPT !.pc = "pickup", !.d = Closest(v.s, Off(v))])
    /\ UNCHANGED <<prog, idle, dec>>
PickUp(p) ==
    /\ pr[p].pc = "pickup"
    /\ idle' = [idle EXCEPT ![Visit(p).s] = SelectSeq(@, LAMBDA e : e # pr[p].d)]
    /\ To(p, [pr[p] EXCEPT !.pc = "seek"])
    /\ UNCHANGED <<prog, dec>>

Create(p) ==
    /\ pr[p].pc = "create"
    /\ dec' = Append(dec, [s |-> Visit(p).s, pos |-> 0, live |-> TRUE])
    /\ To(p, [pr[p] EXCEPT !.pc = "seek", !.d = Len(dec) + 1])
    /\ UNCHANGED <<prog, idle>>

\* Skipping what is in between can be a step, or several for others to see.
Seek(p) ==
    /\ pr[p].pc = "seek"
    /\ dec' = [dec EXCEPT ![pr[p].d].pos = Off(Visit(p))]
    /\ To(p, [pr[p] EXCEPT !.pc = "opened", !.n = FileSize(Visit(p))])
    /\ UNCHANGED <<prog, idle>>

RetOpen(p) ==
    /\ pr[p].pc = "opened"
    /\ To(p, [pr[p] EXCEPT !.pc = "open", !.got = 0])
    /\ UNCHANGED <<prog, idle, dec>>

\* Reads until it has as much as it wants.
Wanted(p) == LET v == Visit(p) IN IF v.m < FileSize(v) THEN v.m ELSE FileSize(v)
Read(p) ==
    /\ pr[p].pc = "open" /\ pr[p].got < Wanted(p)
    /\ \E n \in 1..(Wanted(p) - pr[p].got) :
        /\ dec' = [dec EXCEPT ![pr[p].d].pos = @ + n]
        /\ To(p, [pr[p] EXCEPT !.got = @ + n, !.n = @ - n])
    /\ UNCHANGED <<prog, idle>>

CallClose(p) ==
    /\ pr[p].pc = "open" /\ pr[p].got = Wanted(p)
    /\ To(p, [pr[p] EXCEPT !.pc = "give"])
    /\ UNCHANGED <<prog, idle, dec>>

\* The decoder becomes idle, or is of no more use, or another one has to go.
Give(p) ==
    /\ pr[p].pc = "give"
    /\ LET s == Visit(p).s
           d == pr[p].d
           full == Append(idle[s], d) IN
        IF dec[d].pos = Size(s) \/ ~Pooled(s) \/ \E e \in ToSet(idle[s]) : dec[e].pos = dec[d].pos
        THEN To(p, [pr[p] EXCEPT !.pc = "dispose", !.gone = d, !.d = 0]) /\ UNCHANGED idle
        ELSE /\ idle' = [idle EXCEPT ![s] = IF Len(full) > Cap THEN Tail(full) ELSE full]
             /\ To(p, [pr[p] EXCEPT !.pc = IF Len(full) > Cap THEN "dispose" ELSE "closed",
                                    !.gone = IF Len(full) > Cap THEN Head(full) ELSE 0, !.d = 0])
    /\ UNCHANGED <<prog, dec>>

Dispose(p) ==
    /\ pr[p].pc = "dispose"
    /\ dec' = [dec EXCEPT ![pr[p].gone].live = FALSE]
    /\ To(p, [pr[p] EXCEPT !.pc = "closed", !.gone = 0])
    /\ UNCHANGED <<prog, idle>>

RetClose(p) ==
    /\ pr[p].pc = "closed"
    /\ To(p, Rest(pr[p].k + 1))
    /\ UNCHANGED <<prog, idle, dec>>

Step(p) == CallOpen(p) \/ Take(p) \/ Look(p) \/ PickUp(p) \/ Create(p) \/ Seek(p) \/ RetOpen(p) \/ Read(p)
           \/ CallClose(p) \/ Give(p) \/ Dispose(p) \/ RetClose(p)

Finished == \A p \in Procs : pr[p].pc = "rest" /\ pr[p].k > Len(prog[p])
Next == (\E p \in Procs : Step(p)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
\* C02: a decoder is with one goroutine, or idle, or gone.
Places(d) ==
    Cardinality({p \in Procs : pr[p].d = d}) + Cardinality({p \in Procs : pr[p].gone = d})
    + Cardinality({x \in {<<s, j>> : s \in DOMAIN Streams, j \in 1..10} : x[2] \in DOMAIN idle[x[1]] /\ idle[x[1]][x[2]] = d})
Exclusive == \A d \in DOMAIN dec : Places(d) = IF dec[d].live THEN 1 ELSE 0

\* C02: what a goroutine reads is what follows what it has read of its file.
Faithful == \A p \in Procs : pr[p].pc = "open" => dec[pr[p].d].pos = Off(Visit(p)) + pr[p].got

\* C03
Bounded == \A s \in DOMAIN Streams : Len(idle[s]) <= Cap
Distinct == \A s \in DOMAIN Streams : Cardinality({dec[d].pos : d \in ToSet(idle[s])}) = Len(idle[s])
NoneAtEnd == \A s \in DOMAIN Streams : \A d \in ToSet(idle[s]) : dec[d].pos < Size(s)
NoneForSingle == \A s \in DOMAIN Streams : ~Pooled(s) => idle[s] = <<>>

\* C02: all of them get done.
Ends == <>Finished

(***************************************************************************)
(* Configurations                                                          *)
(***************************************************************************)
OneStream == <<<<1, 2, 1>>>>
TwoStreams == <<<<2, 1>>, <<1, 1>>>>
Single == <<<<2>>, <<1, 1>>>>
Visits(st) == UNION {{[s |-> s, i |-> i, m |-> m] : i \in DOMAIN st[s], m \in {0, 1, 9}} : s \in DOMAIN st}
Useful(st) == {v \in Visits(st) : v.m # 1 \/ st[v.s][v.i] > 1}
Upto2(st) == {<<v>> : v \in Useful(st)} \cup {<<v, w>> : v \in Useful(st), w \in Useful(st)}
ProgOne == Upto2(OneStream)
ProgTwo == Upto2(TwoStreams)
ProgSingle == Upto2(Single)
\* After someone left decoders behind, all are after them.
ProgFew == {<<[s |-> 1, i |-> i, m |-> m]>> : i \in 1..3, m \in {0, 9}} \cup
           {<<[s |-> 1, i |-> 2, m |-> 1], [s |-> 1, i |-> 3, m |-> 0]>>, <<[s |-> 1, i |-> 1, m |-> 0], [s |-> 1, i |-> 2, m |-> 9]>>}
\* The goroutines are alike.
Alike == Permutations(Procs)
Emit == (pr # [p \in Procs |-> Rest(1)]) \/ PrintT(ToJson([streams |-> Streams, cap |-> Cap, prog |-> prog]))
=============================================================================
