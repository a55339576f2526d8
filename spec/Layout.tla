-------------------------------- MODULE Layout --------------------------------
(***************************************************************************)
(* How a header's entries map to the data.  A header describes streams,    *)
(* each with a number of files, their sizes and checksums, and entries of  *)
(* which some have data.  The machine goes over the entries in order and   *)
(* hands out the files of the streams.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxFolders, MaxSubs, MaxPacked,
          Sizes,        \* sizes of files
          Digests,      \* which streams and files have checksums: "any", "files", "none"
          MinEmpty, MaxEmpty  \* entries without data

VARIABLES h, i, fo, k, off, list, phase
vars == <<h, i, fo, k, off, list, phase>>

Kinds == {"dir", "file"}

\* A stream: its packed streams, whether it has a checksum, and its files, each
\* with a size and whether it has a checksum of its own.  That of the only file
\* of a stream is not stored if the stream has one.
Files(n) == {f \in [1..n -> [size : Sizes, crc : BOOLEAN]] :
                Digests # "any" => \A x \in 1..n : f[x].crc = (Digests = "files")}
Folders ==
    UNION {{f \in [packed : 1..MaxPacked, crc : IF Digests = "any" THEN BOOLEAN ELSE {FALSE}, files : Files(n)] :
                n = 1 /\ f.crc => ~f.files[1].crc} : n \in 0..MaxSubs}

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Len(Head(s).files) + Total(Tail(s))

\* Where the entries without data are, and what they are.
Entries(d) ==
    UNION {{s \in [1..(d + e) -> {"data"} \cup Kinds] : Cardinality({x \in DOMAIN s : s[x] = "data"}) = d} : e \in MinEmpty..MaxEmpty}

Streams == UNION {[1..n -> Folders] : n \in 0..MaxFolders}
One(s) == \A x \in DOMAIN s : Len(s[x].files) = 1
NoFileCRC(s) == \A x \in DOMAIN s : \A y \in DOMAIN s[x].files : ~s[x].files[y].crc
\* What may be left out: the part on the files of streams, or the counts or the
\* sizes in it.
Forms(s) == {"full", "needed"} \cup (IF One(s) /\ NoFileCRC(s) THEN {"none"} ELSE {})

Init ==
    /\ \E s \in Streams : \E es \in Entries(Total(s)), form \in Forms(s) :
            h = [streams |-> s, entries |-> es, form |-> form]
    /\ i = 1 /\ fo = 1 /\ k = 1 /\ off = 0 /\ list = <<>> /\ phase = "list"

None == [stream |-> 0, nth |-> 0, off |-> 0, size |-> 0, crc |-> "none"]

\* An entry without data takes nothing.
Empty ==
    /\ phase = "list" /\ i <= Len(h.entries) /\ h.entries[i] # "data"
    /\ list' = Append(list, None) /\ i' = i + 1
    /\ UNCHANGED <<h, fo, k, off, phase>>

\* A stream without files left is passed over.
Skip ==
    /\ phase = "list" /\ i <= Len(h.entries) /\ h.entries[i] = "data"
    /\ k > Len(h.streams[fo].files)
    /\ fo' = fo + 1 /\ k' = 1 /\ off' = 0
    /\ UNCHANGED <<h, i, list, phase>>

Take ==
    /\ phase = "list" /\ i <= Len(h.entries) /\ h.entries[i] = "data"
    /\ k <= Len(h.streams[fo].files)
    /\ LET f == h.streams[fo].files[k]
       IN  /\ list' = Append(list, [stream |-> fo, nth |-> k, off |-> off, size |-> f.size,
                                    crc |-> IF h.streams[fo].crc /\ Len(h.streams[fo].files) = 1 THEN "stream"
                                            ELSE IF f.crc THEN "file" ELSE "none"])
           /\ off' = off + f.size
    /\ k' = k + 1 /\ i' = i + 1
    /\ UNCHANGED <<h, fo, phase>>

Finish == phase = "list" /\ i > Len(h.entries) /\ phase' = "done" /\ UNCHANGED <<h, i, fo, k, off, list>>

Next == Empty \/ Skip \/ Take \/ Finish
Spec == Init /\ [][Next]_vars

\* C07 on the model.
Data == SelectSeq(list, LAMBDA e : e.stream > 0)
InOrder == \A x, y \in DOMAIN Data : x < y =>
    Data[x].stream < Data[y].stream \/ (Data[x].stream = Data[y].stream /\ Data[x].nth < Data[y].nth)
\* The files of a stream lie one after the other from its start.
Adjacent == \A x \in DOMAIN Data :
    IF Data[x].nth = 1 THEN Data[x].off = 0
    ELSE x > 1 /\ Data[x - 1].stream = Data[x].stream /\ Data[x].off = Data[x - 1].off + Data[x - 1].size
\* In the end every file of every stream is an entry's.
Complete == phase = "done" =>
    /\ Len(list) = Len(h.entries)
    /\ \A x \in DOMAIN h.streams : \A y \in DOMAIN h.streams[x].files :
            Cardinality({z \in DOMAIN list : list[z].stream = x /\ list[z].nth = y}) = 1
    /\ \A z \in DOMAIN list : (list[z].stream = 0) <=> h.entries[z] # "data"
Checksums == \A z \in DOMAIN list :
    list[z].stream > 0 => (list[z].crc = "none" <=>
        ~h.streams[list[z].stream].files[list[z].nth].crc
        /\ ~(h.streams[list[z].stream].crc /\ Len(h.streams[list[z].stream].files) = 1))

Emit == phase' = "done" => PrintT(ToJson([h |-> h, list |-> list]))
=============================================================================
