------------------------------- MODULE Recycle -------------------------------
(***************************************************************************)
(* Decoders of a method that are put aside when their handle is closed and   *)
(* taken up again for whatever is opened next, of any archive.               *)
(*                                                                         *)
(* A decoder remembers the streams that it decoded since it was last reset.  *)
(* What comes out of it is right if there is only the one it is used for.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Handles,
    Kinds,      \* of streams
    Stubborn,   \* kinds with something below that cannot be closed the first time
    Keep        \* decoders that are put aside at most

VARIABLES
    hs,     \* handles: state, kind of stream, phase, decoder
    mem,    \* decoders: what they remember
    used,   \* decoders: how they were used last
    bag,    \* decoders put aside
    act
vars == <<hs, mem, used, bag>>

Decoders == 1..(Cardinality(Handles) + Keep)
None == [st |-> "none", k |-> "", ph |-> "", d |-> 0]
New == <<"new", "">>

Init ==
    /\ hs = [h \in Handles |-> None]
    /\ mem = [d \in Decoders |-> <<>>]
    /\ used = [d \in Decoders |-> New]
    /\ bag = <<>>
    /\ act = [op |-> "init"]

IsOpen(h) == hs[h].st = "open"
\* Closing it failed.
IsStuck(h) == hs[h].st = "stuck"
Held == {hs[h].d : h \in {x \in Handles : IsOpen(x) \/ IsStuck(x)}}
Idle == {bag[i] : i \in DOMAIN bag}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* Phases: nothing, some or all there is was decoded.
Open(h, k) ==
    /\ ~IsOpen(h) /\ ~IsStuck(h)
    /\ LET recycled == bag # <<>>
           d == IF recycled THEN bag[Len(bag)] ELSE Min(Decoders \ (Held \cup Idle)) IN
        /\ bag' = IF recycled THEN SubSeq(bag, 1, Len(bag) - 1) ELSE bag
        /\ hs' = [hs EXCEPT ![h] = [st |-> "open", k |-> k, ph |-> "start", d |-> d]]
        \* reset
        /\ mem' = [mem EXCEPT ![d] = <<k>>]
        /\ used' = IF recycled THEN used ELSE [used EXCEPT ![d] = New]
    /\ act' = [op |-> "open", h |-> h, k |-> k]

Read(h, to) ==
    /\ IsOpen(h)
    /\ \/ to = "mid" /\ hs[h].ph = "start"
       \/ to = "end"
    /\ hs' = [hs EXCEPT ![h].ph = to]
    /\ act' = [op |-> "read", h |-> h, to |-> to]
    /\ UNCHANGED <<mem, used, bag>>

\* The decoder stays with the handle, to be closed again.
CloseFails(h) ==
    /\ IsOpen(h) /\ hs[h].k \in Stubborn
    /\ hs' = [hs EXCEPT ![h].st = "stuck"]
    /\ act' = [op |-> "closefails", h |-> h]
    /\ UNCHANGED <<mem, used, bag>>

Close(h) ==
    /\ \/ IsOpen(h) /\ hs[h].k \notin Stubborn
       \/ IsStuck(h)
    /\ LET d == hs[h].d IN
        /\ bag' = IF Len(bag) < Keep THEN Append(bag, d) ELSE bag
        /\ used' = [used EXCEPT ![d] = <<hs[h].k, hs[h].ph>>]
    /\ hs' = [hs EXCEPT ![h] = [None EXCEPT !.st = "closed"]]
    /\ act' = [op |-> "close", h |-> h]
    /\ UNCHANGED mem

\* Closed handles are used once more.
Late(h, op) ==
    /\ hs[h].st = "closed"
    /\ act' = [op |-> op, h |-> h]
    /\ UNCHANGED vars

\* What is open is forgotten about without closing it.
Forget(h) ==
    /\ IsOpen(h) \/ IsStuck(h)
    /\ hs' = [hs EXCEPT ![h] = None]
    /\ act' = [op |-> "forget", h |-> h]
    /\ UNCHANGED <<mem, used, bag>>

Next ==
    \E h \in Handles :
        \/ \E k \in Kinds : Open(h, k)
        \/ \E to \in {"mid", "end"} : Read(h, to)
        \/ Close(h) \/ CloseFails(h) \/ Forget(h)
        \/ \E op \in {"lateread", "lateclose"} : Late(h, op)

Spec == Init /\ [][Next]_<<vars, act>>

\* C20
Clean == \A h \in Handles : IsOpen(h) => mem[hs[h].d] = <<hs[h].k>>
Exclusive ==
    /\ \A g, h \in Handles : g # h /\ hs[g].d # 0 /\ hs[h].d # 0 => hs[g].d # hs[h].d
    /\ Held \cap Idle = {}
    /\ Cardinality(Idle) = Len(bag)
Bounded == Len(bag) <= Keep
\* Nothing that happens to a handle changes what another one decodes.
Apart == [][\A h \in Handles : act'.h # h => hs'[h] = hs[h] /\ (IsOpen(h) => mem'[hs[h].d] = mem[hs[h].d])]_<<vars, act>>

\* Decoders are told apart by how they were used.
Shown ==
    [hs |-> [h \in Handles |->
        <<hs[h].st, hs[h].k, hs[h].ph, IF hs[h].d # 0 THEN used[hs[h].d] ELSE New>>],
     bag |-> [i \in DOMAIN bag |-> used[bag[i]]]]
View == Shown

ASSUME PrintT(ToJson([cfg |-> [kinds |-> Kinds]]))
Emit == PrintT(ToJson([s |-> Shown, t |-> Shown', a |-> act', l |-> TLCGet("level")]))
=============================================================================
