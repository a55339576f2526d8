-------------------------------- MODULE Volumes --------------------------------
(***************************************************************************)
(* An archive in volumes.  The archive takes the first Size units of what  *)
(* the volumes held together when they were made.  Each may have been lost *)
(* or spoilt.  Opening opens them one after the other and reads the header *)
(* at the end; an open archive is closed again.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxVolumes, Size, Trail,
          Many,        \* the largest number of a volume
          States       \* of volumes: "ok", "missing", "loop" (cannot be opened), "directory" (cannot be read), "short"

VARIABLES c, k, open, view, phase, result
vars == <<c, k, open, view, phase, result>>

\* Sizes of the volumes, some of which may be empty.
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Cuts(n) == {s \in [1..n -> 0..(Size + Trail)] : Sum(s) = Size + Trail}

\* The volumes of x.001 have three digits, and more from the thousandth on.
Name(x) == IF x < 10 THEN "00" \o ToString(x) ELSE IF x < 100 THEN "0" \o ToString(x) ELSE ToString(x)
ASSUME Many > 0 => PrintT(ToJson([names |-> [x \in 1..Many |-> Name(x)]]))

Init ==
    /\ \E n \in 1..MaxVolumes : \E s \in Cuts(n) : \E st \in [1..n -> States] :
        \E named \in {"first", "alone"}, sound \in BOOLEAN :
            /\ \A x \in 1..n : st[x] = "short" => s[x] > 0
            /\ Cardinality({x \in 1..n : st[x] # "ok"}) <= 1
            /\ named = "alone" => \A x \in 2..n : st[x] = "ok"
            /\ ~sound => \A x \in 1..n : st[x] = "ok"
            /\ c = [sizes |-> s, states |-> st, named |-> named, sound |-> sound]
    /\ k = 1 /\ open = {} /\ view = <<>> /\ phase = "opening" /\ result = "none"

N == Len(c.sizes)
Release(r) == phase' = "released" /\ open' = {} /\ result' = r /\ UNCHANGED <<c, k, view>>

\* What a volume shows: as many units as it has, of which it may have lost some.
OpenOne ==
    /\ phase = "opening" /\ k <= N /\ c.states[k] \notin {"missing", "loop"}
    /\ open' = open \cup {k}
    /\ view' = Append(view, k)
    /\ k' = k + 1
    /\ phase' = IF c.named = "alone" THEN "reading" ELSE "opening"
    /\ UNCHANGED <<c, result>>

\* The first one has to be there, after it the first that is not is the end.
NoMore ==
    /\ phase = "opening" /\ (IF k > N THEN TRUE ELSE c.states[k] = "missing")
    /\ IF k = 1 THEN Release("fails") ELSE phase' = "reading" /\ UNCHANGED <<c, k, open, view, result>>

CannotOpen == phase = "opening" /\ k <= N /\ c.states[k] = "loop" /\ Release("fails")

Seen == Len(view)
\* The units seen in their place, before anything is missing.
RECURSIVE Good(_)
Good(x) == IF x > Seen THEN 0
           ELSE IF c.states[x] # "ok" THEN 0
           ELSE c.sizes[x] + Good(x + 1)

Read ==
    /\ phase = "reading"
    /\ IF c.sound /\ Good(1) >= Size
       THEN phase' = "open" /\ UNCHANGED <<c, k, open, view, result>>
       ELSE Release("fails")

Close == phase = "open" /\ Release("reads")

Next == OpenOne \/ NoMore \/ CannotOpen \/ Read \/ Close
Spec == Init /\ [][Next]_vars

\* C12
NothingHeld == phase = "released" => open = {}
InOrder == view = [x \in 1..Seen |-> x]
AllOpen == phase = "open" /\ c.named = "first" /\ (\A x \in 1..N : c.states[x] = "ok") => Seen = N
Alone == c.named = "alone" => Seen <= 1
Whole == result = "reads" => Good(1) >= Size
Complains == phase = "released" /\ result = "fails" =>
    \/ ~c.sound
    \/ c.named = "alone" /\ (c.sizes[1] < Size \/ c.states[1] # "ok")
    \/ \E x \in 1..N : c.states[x] # "ok"

\* Left open: what lies behind the archive may matter or not.
Left == \E x \in 1..N : c.states[x] \in {"directory", "short"} /\ Sum(SubSeq(c.sizes, 1, x - 1)) >= Size
Emit == phase' = "released" =>
    PrintT(ToJson([c |-> c, opens |-> phase = "open", seen |-> view, left |-> Left]))
=============================================================================
