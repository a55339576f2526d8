------------------------------- MODULE Integrity -------------------------------
(***************************************************************************)
(* The checksums of an archive.  The start header locates the header and   *)
(* has its checksum, and has one itself.  The header may hold the location *)
(* of the packed header and the checksum of what that decodes to.  Some    *)
(* regions of an archive are damaged and some checksums are adapted to     *)
(* that, then the archive is opened.                                       *)
(*                                                                         *)
(* A checksum is modelled by what it is computed of.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDamage, Archives

Regions == {"signature", "version", "offset", "size", "data", "gap", "packed", "header", "trailer", "startcrc", "headercrc"}

VARIABLES a,        \* the archive: how its header is stored and what else is there
          v,        \* regions: 0 as written, 1 damaged
          hcrc,     \* checksum of the header in the start header
          scrc,     \* checksum of the start header
          signed,   \* the checksums that were adapted
          step, verdict
vars == <<a, v, hcrc, scrc, signed, step, verdict>>

\* The header's bytes follow from where they are read and what is there.
Header == <<v["offset"], v["size"], v["header"]>>
Start == <<v["offset"], v["size"], hcrc>>
Damaged == {r \in Regions : v[r] = 1}

Init ==
    /\ a \in Archives
    /\ v = [r \in Regions |-> 0]
    /\ hcrc = <<0, 0, 0>>
    /\ scrc = <<0, 0, <<0, 0, 0>>>>
    /\ signed = {} /\ step = "damage" /\ verdict = "none"

Exists(r) == (r = "packed" => a.enc # "plain") /\ (r = "gap" => a.gap) /\ (r = "trailer" => a.trailer)

Damage(r) ==
    /\ step = "damage" /\ v[r] = 0 /\ Cardinality(Damaged) < MaxDamage /\ Exists(r) /\ signed = {}
    /\ v' = [v EXCEPT ![r] = 1]
    /\ hcrc' = IF r = "headercrc" THEN <<9, 9, 9>> ELSE hcrc
    /\ scrc' = IF r = "startcrc" THEN <<9, 9, <<9, 9, 9>>>> ELSE scrc
    /\ UNCHANGED <<a, signed, step, verdict>>

SignHeader ==
    /\ step = "damage" /\ "header" \notin signed /\ "start" \notin signed /\ Damaged \cap {"offset", "size", "header"} # {}
    /\ hcrc' = Header /\ signed' = signed \cup {"header"}
    /\ UNCHANGED <<a, v, scrc, step, verdict>>

SignStart ==
    /\ step = "damage" /\ "start" \notin signed /\ (signed # {} \/ Damaged \cap {"offset", "size", "headercrc"} # {})
    /\ scrc' = Start /\ signed' = signed \cup {"start"}
    /\ UNCHANGED <<a, v, hcrc, step, verdict>>

Open == step = "damage" /\ step' = "signature" /\ UNCHANGED <<a, v, hcrc, scrc, signed, verdict>>

End(x) == step' = "done" /\ verdict' = x /\ UNCHANGED <<a, v, hcrc, scrc, signed>>
Go(s) == step' = s /\ UNCHANGED <<a, v, hcrc, scrc, signed, verdict>>

Signature == step = "signature" /\ IF v["signature"] = 1 THEN End("reject") ELSE Go("start")
CheckStart == step = "start" /\ IF scrc # Start THEN End("reject") ELSE Go("header")
CheckHeader == step = "header" /\ IF hcrc # Header THEN End("reject") ELSE Go("read")

\* Reading a header that is not the one written can give anything, even if its
\* checksum fits.
ReadHeader ==
    /\ step = "read"
    /\ IF Damaged \cap {"offset", "size", "header"} # {} THEN End("any")
       ELSE IF a.extra = "header" THEN End("reject")
       ELSE IF a.enc = "plain" THEN End("same")
       ELSE Go("decode")

\* More may be left than the header, and the checksum of what it decodes to may
\* be another one.  A change to the packed header may not change what it decodes to, unless it is
\* not compressed.
Decode ==
    /\ step = "decode"
    /\ IF v["packed"] = 1
       THEN End(IF ~a.digest THEN "any" ELSE IF a.enc = "copy" THEN "reject" ELSE "rejectOrSame")
       ELSE IF a.extra \in {"decoded", "digest"} THEN End("reject")
       ELSE End("same")

Next == (\E r \in Regions : Damage(r)) \/ SignHeader \/ SignStart \/ Open \/ Signature \/ CheckStart \/ CheckHeader \/ ReadHeader \/ Decode
Spec == Init /\ [][Next]_vars

\* C10
Done == step = "done"
Protected == {"signature", "startcrc", "offset", "size", "headercrc", "header"}
Detected == Done /\ signed = {} /\ Damaged \cap Protected # {} => verdict = "reject"
\* Adapting one checksum only moves the mismatch, unless it is the last.
PartlySigned == Done /\ signed = {"header"} => verdict = "reject"
StartOnly == Done /\ signed = {"start"} /\ Damaged \cap Protected # {} => verdict = "reject"
PackedDetected == Done /\ "packed" \in Damaged /\ a.digest => verdict \in {"reject", "rejectOrSame", "any"} /\ (verdict = "any" => signed = {"header", "start"})
Outside == Done /\ Damaged \subseteq {"version", "data", "gap", "trailer"} /\ a.extra = "none" => verdict = "same"
TooMuch == Done /\ a.extra # "none" => verdict # "same"

Emit == step' = "done" => PrintT(ToJson([a |-> a, damaged |-> Damaged, signed |-> signed, verdict |-> verdict']))
=============================================================================
