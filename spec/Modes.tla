--------------------------------- MODULE Modes --------------------------------
(***************************************************************************)
(* The file mode of an entry.  Attributes hold DOS attributes in their     *)
(* lower half and may hold POSIX mode bits in their upper half, which are  *)
(* there if they name a file type.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Perms, Dos
VARIABLES a, done
vars == <<a, done>>

Types == {"none", "fifo", "char", "dir", "block", "regular", "link", "socket"}
Init ==
    /\ a \in [type : Types, suid : BOOLEAN, sgid : BOOLEAN, sticky : BOOLEAN, perm : Perms,
              dosdir : BOOLEAN, readonly : BOOLEAN, dos : Dos, kind : {"data", "empty", "nothing"}]
    \* Without a type there are no POSIX bits.
    /\ a.type = "none" => a.perm = 0 /\ ~a.suid /\ ~a.sgid /\ ~a.sticky
    \* What else can have no data is left open.
    /\ a.kind = "nothing" => a.type \in {"none", "dir", "regular"}
    /\ done = FALSE

Posix == a.type # "none"
Marked == IF Posix THEN a.type = "dir" ELSE a.dosdir
\* Neither data nor an empty-file mark: a directory.
IsDir == Marked \/ a.kind = "nothing"
Write == 146  \* 0222
DosPerm == (IF IsDir THEN 511 ELSE 438) - (IF a.readonly THEN Write ELSE 0)
Mode ==
    [type |-> IF IsDir THEN "dir" ELSE IF Posix THEN a.type ELSE "regular",
     perm |-> IF Posix THEN a.perm ELSE DosPerm,
     suid |-> a.suid, sgid |-> a.sgid, sticky |-> a.sticky]

Next == ~done /\ done' = TRUE /\ UNCHANGED a
Spec == Init /\ [][Next]_vars

Dirs == a.kind = "nothing" => Mode.type = "dir"
Range == Mode.perm \in 0..511
Emit == PrintT(ToJson([a |-> a, mode |-> Mode]))
=============================================================================
