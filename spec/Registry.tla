------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The table of decompressors by method id.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Ids,       \* names of method ids
    Versions,  \* decompressors that can be registered, > 0
    Initial,   \* what ids map to at the start, 0 for nothing
    Handles    \* streams that can be open at the same time

VARIABLES table, streams, act
vars == <<table, streams, act>>
state == [table |-> table, streams |-> streams]
None == [id |-> "", v |-> 0]

Init ==
    /\ table = [i \in Ids |-> Initial]
    /\ streams = [h \in Handles |-> None]
    /\ act = [op |-> "init"]

Register(i, v) ==
    /\ table' = [table EXCEPT ![i] = v]
    /\ act' = [op |-> "register", id |-> i, v |-> v]
    /\ UNCHANGED streams

\* Opening an archive that uses an id works whether or not it is registered.
OpenArchive(i) ==
    /\ act' = [op |-> "archive", id |-> i]
    /\ UNCHANGED <<table, streams>>

OpenStream(h, i) ==
    /\ streams[h] = None
    /\ streams' = IF table[i] = 0 THEN streams ELSE [streams EXCEPT ![h] = [id |-> i, v |-> table[i]]]
    /\ act' = [op |-> "open", h |-> h, id |-> i, v |-> table[i]]
    /\ UNCHANGED table

Read(h) ==
    /\ streams[h] # None
    /\ act' = [op |-> "read", h |-> h, id |-> streams[h].id, v |-> streams[h].v]
    /\ UNCHANGED <<table, streams>>

Close(h) ==
    /\ streams[h] # None
    /\ streams' = [streams EXCEPT ![h] = None]
    /\ act' = [op |-> "close", h |-> h]
    /\ UNCHANGED table

Next ==
    \/ \E i \in Ids : OpenArchive(i) \/ \E v \in Versions : Register(i, v)
    \/ \E h \in Handles : Read(h) \/ Close(h) \/ \E i \in Ids : OpenStream(h, i)

Spec == Init /\ [][Next]_vars
View == <<table, streams>>

\* C18
Exact ==
    [][act'.op = "register" =>
        \A i \in Ids : table'[i] = IF i = act'.id THEN act'.v ELSE table[i]]_vars
OnlyByRegister == [][act'.op # "register" => table' = table]_vars
Latest == [][act'.op = "open" => act'.v = table[act'.id]]_vars
Keep == [][\A h \in Handles : streams[h] # None /\ streams'[h] # None => streams'[h] = streams[h]]_vars

ASSUME PrintT(ToJson([cfg |-> [ids |-> Ids, initial |-> Initial]]))
Emit == PrintT(ToJson([s |-> state, t |-> state', a |-> act', l |-> TLCGet("level")]))
=============================================================================
