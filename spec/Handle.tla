------------------------------- MODULE Handle -------------------------------
(***************************************************************************)
(* What a handle promises its user, call by call: exactly the declared     *)
(* bytes, io.EOF on every further read, empty reads that do nothing,       *)
(* closing twice, and no reading once closed.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Files,      \* sizes of the files; 0 stands for an entry without content
    Handles,
    Buffers,    \* buffer sizes
    Vias        \* the interfaces a file can be opened through

VARIABLES hs, act
vars == <<hs, act>>
None == [st |-> "none", f |-> 0, left |-> 0]
state == [hs |-> hs]

Init == hs = [h \in Handles |-> None] /\ act = [op |-> "init"]

Open(h, f, via) ==
    /\ hs[h] = None
    /\ hs' = [hs EXCEPT ![h] = [st |-> "open", f |-> f, left |-> Files[f]]]
    /\ act' = [op |-> "open", h |-> h, f |-> f, via |-> via]

\* One read of a buffer of size b.  Any number of the bytes that fit may be
\* delivered; the reply says which calls are complete: the driver goes on until
\* the buffer is full, and so sees n bytes and then, if eof, io.EOF.
Read(h, b) ==
    /\ hs[h].st # "none"
    /\ LET open == hs[h].st = "open"
           n == IF ~open \/ b = 0 THEN 0 ELSE IF b < hs[h].left THEN b ELSE hs[h].left
           reply == IF b = 0 THEN "nothing"
                    ELSE IF hs[h].left = 0 THEN (IF open THEN "eof" ELSE "noteof?")
                    ELSE IF ~open THEN "error"
                    ELSE IF b > hs[h].left THEN "bytes+eof" ELSE "bytes"
       IN  /\ hs' = [hs EXCEPT ![h].left = @ - n]
           /\ act' = [op |-> "read", h |-> h, f |-> hs[h].f, b |-> b, n |-> n, reply |-> reply,
                      at |-> Files[hs[h].f] - hs[h].left]

Stat(h) ==
    /\ hs[h].st = "open"
    /\ act' = [op |-> "stat", h |-> h, f |-> hs[h].f]
    /\ UNCHANGED hs

Close(h) ==
    /\ hs[h].st # "none"
    /\ hs' = [hs EXCEPT ![h].st = "closed"]
    /\ act' = [op |-> "close", h |-> h, f |-> hs[h].f, again |-> hs[h].st = "closed"]

\* The program forgets about a closed handle.
Drop(h) ==
    /\ hs[h].st = "closed"
    /\ hs' = [hs EXCEPT ![h] = None]
    /\ act' = [op |-> "drop", h |-> h]

Next ==
    \E h \in Handles :
        \/ \E f \in DOMAIN Files, v \in Vias : Open(h, f, v)
        \/ \E b \in Buffers : Read(h, b)
        \/ Stat(h) \/ Close(h) \/ Drop(h)

Spec == Init /\ [][Next]_vars
View == hs

\* C21
TypeOK == \A h \in Handles : hs[h] # None => hs[h].left \in 0..Files[hs[h].f]
ExactBytes ==
    [][act'.op = "read" =>
        /\ act'.at + act'.n <= Files[act'.f]
        /\ act'.reply \in {"eof", "bytes+eof"} => act'.at + act'.n = Files[act'.f]
        /\ act'.b = 0 => hs' = hs]_vars
StaysClosed == [][act'.op = "read" /\ hs[act'.h].st = "closed" => act'.n = 0]_vars
Independent == [][\A h \in Handles : act'.h # h => hs'[h] = hs[h]]_vars

ASSUME PrintT(ToJson([cfg |-> [files |-> Files]]))
Emit == PrintT(ToJson([s |-> state, t |-> state', a |-> act', l |-> TLCGet("level")]))
FilesSmall == <<0, 2, 3>>
FilesOne == <<0, 1, 2, 3, 5>>
=============================================================================
