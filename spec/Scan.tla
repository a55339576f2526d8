---------------------------------- MODULE Scan ----------------------------------
(***************************************************************************)
(* Finding an archive in a file.  The file is searched for signatures in   *)
(* blocks that overlap; what follows each one found is checked, in order,  *)
(* until one holds.  Marks are places in the file with a signature (decoys *)
(* and the archive) or with the beginning of one.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Block, Sig, Limit, HeaderSize,
          Places,      \* where the archive can be
          DecoyPlaces, MaxDecoys,
          Fragments    \* lengths of the beginning of a signature right before the archive

VARIABLES f, off, found, k, res
vars == <<f, off, found, k, res>>

Apart(S) == \A x, y \in S : x # y => (x - y >= Sig \/ y - x >= Sig)
DecoySets == {{}} \cup {{x} : x \in DecoyPlaces} \cup
    (IF MaxDecoys > 1 THEN {{x, y} : x \in DecoyPlaces, y \in DecoyPlaces} ELSE {})

Init ==
    /\ f \in [archive : Places \cup {-1}, decoys : DecoySets, frag : Fragments]
    /\ f.archive \notin f.decoys
    /\ Apart(f.decoys \cup (IF f.archive = -1 THEN {} ELSE {f.archive}))
    /\ f.archive = -1 => f.frag = 0
    /\ f.frag > 0 => f.frag <= f.archive /\ \A d \in f.decoys : d + Sig <= f.archive - f.frag \/ d > f.archive
    /\ off = 0 /\ found = <<>> /\ k = 1 /\ res = -2

Marks == f.decoys \cup (IF f.archive >= 0 THEN {f.archive} ELSE {})
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
\* A block is read with enough of the next one for a signature across them.
In(o) == {m \in Marks : o <= m /\ m + Sig <= o + Block + Sig}

\* Blocks without a mark are passed over in one go.
NextBlock(o) == LET later == {m \in Marks : m > o + Block}
                IN  IF later = {} THEN Limit
                    ELSE LET m == CHOOSE x \in later : \A y \in later : x <= y
                         IN  (m \div Block - (IF m % Block = 0 THEN 1 ELSE 0)) * Block
Search ==
    /\ res = -2 /\ off < Limit
    /\ found' = found \o Sorted(In(off))
    /\ off' = IF 0 \in In(off) THEN Limit ELSE IF NextBlock(off) < off + Block THEN off + Block ELSE NextBlock(off)
    /\ UNCHANGED <<f, k, res>>

\* The file starts with a signature: no other is considered.
Candidates == IF found # <<>> /\ Head(found) = 0 THEN <<0>> ELSE found

Check ==
    /\ res = -2 /\ off >= Limit
    /\ IF k > Len(Candidates) THEN res' = -1 /\ UNCHANGED k
       ELSE IF Candidates[k] = f.archive THEN res' = f.archive /\ UNCHANGED k
       ELSE k' = k + 1 /\ UNCHANGED res
    /\ UNCHANGED <<f, off, found>>

Next == Search \/ Check
Spec == Init /\ [][Next]_vars

\* C11
Finds == res >= -1 =>
    (res = f.archive <=> (f.archive = -1 \/ (f.archive <= Limit /\ (0 \notin f.decoys))))
Rejects == res >= -1 /\ (f.archive = -1 \/ f.archive > Limit) => res = -1
AllFound == off >= Limit /\ 0 \notin Marks => \A m \in Marks : m <= Limit => \E x \in DOMAIN found : found[x] = m

Emit == res' # -2 => PrintT(ToJson([f |-> f, open |-> (res' >= 0), left |-> (0 \in f.decoys)]))
=============================================================================
