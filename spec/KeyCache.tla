------------------------------ MODULE KeyCache ------------------------------
(***************************************************************************)
(* Decryption with a cache of derived keys.                                *)
(*                                                                         *)
(* An archive is encrypted under parameters; a program opens it with some  *)
(* password, right or wrong.  The key is a function of the password given  *)
(* and the archive's salt and cost only (Derive below: an injective        *)
(* pairing), wherever it comes from.  Each open file has a cipher of its   *)
(* own whose state is how many blocks it decrypted.                        *)
(*                                                                         *)
(* One archive of the model stands for a block of real archives that       *)
(* together take up half of the real cache.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Archives, Passwords, Cap, Handles, Blocks, TooCostly

VARIABLES
    cache,   \* least recently used first: [p, a, key]
    hs,      \* per handle
    act
vars == <<cache, hs, act>>
None == [a |-> 0, p |-> 0, key |-> <<0, 0>>, pos |-> 0]
state == [cache |-> cache, hs |-> hs]

Derive(p, a) == <<p, a>>
Is(e, p, a) == e.p = p /\ e.a = a
Cached(p, a) == \E i \in DOMAIN cache : Is(cache[i], p, a)

Init == cache = <<>> /\ hs = [h \in Handles |-> None] /\ act = [op |-> "init"]

\* Looking a key up moves it to the end; deriving one adds it, and the oldest
\* makes room.
Lookup(p, a) ==
    LET old == SelectSeq(cache, LAMBDA e : Is(e, p, a))
        rest == SelectSeq(cache, LAMBDA e : ~Is(e, p, a))
        key == IF old # <<>> THEN old[1].key ELSE Derive(p, a)
        full == Append(rest, [p |-> p, a |-> a, key |-> key])
    IN  [key |-> key, cache |-> IF Len(full) > Cap THEN Tail(full) ELSE full]

Open(h, a, p) ==
    /\ hs[h] = None
    /\ a \notin TooCostly
    /\ LET l == Lookup(p, a)
       IN  /\ cache' = l.cache
           /\ hs' = [hs EXCEPT ![h] = [a |-> a, p |-> p, key |-> l.key, pos |-> 0]]
    /\ act' = [op |-> "open", h |-> h, a |-> a, p |-> p, hit |-> Cached(p, a)]

\* A cost above the limit is an error that leaves no trace.
Reject(a, p) ==
    /\ a \in TooCostly
    /\ act' = [op |-> "reject", a |-> a, p |-> p]
    /\ UNCHANGED <<cache, hs>>

Read(h) ==
    /\ hs[h] # None /\ hs[h].pos < Blocks
    /\ hs' = [hs EXCEPT ![h].pos = @ + 1]
    /\ act' = [op |-> "read", h |-> h, a |-> hs[h].a, p |-> hs[h].p, key |-> hs[h].key, at |-> hs[h].pos]
    /\ UNCHANGED cache

Close(h) ==
    /\ hs[h] # None
    /\ hs' = [hs EXCEPT ![h] = None]
    /\ act' = [op |-> "close", h |-> h]
    /\ UNCHANGED cache

Next ==
    \/ \E h \in Handles : Read(h) \/ Close(h) \/ \E a \in Archives, p \in Passwords : Open(h, a, p)
    \/ \E a \in Archives, p \in Passwords : Reject(a, p)

Spec == Init /\ [][Next]_vars
View == <<cache, hs>>

\* C15
RightKey == [][act'.op = "read" => act'.key = Derive(act'.p, act'.a)]_vars
CacheRight == \A i \in DOMAIN cache : cache[i].key = Derive(cache[i].p, cache[i].a)
Bounded == Len(cache) <= Cap
NoDuplicates == \A i, j \in DOMAIN cache : Is(cache[i], cache[j].p, cache[j].a) => i = j
RejectsLeaveNoTrace == [][act'.op = "reject" => cache' = cache]_vars

ASSUME PrintT(ToJson([cfg |-> [archives |-> Cardinality(Archives), passwords |-> Cardinality(Passwords), blocks |-> Blocks, costly |-> SetToSeq(TooCostly)]]))
Emit == PrintT(ToJson([s |-> state, t |-> state', a |-> act', l |-> TLCGet("level")]))
=============================================================================
