------------------------------- MODULE Chunking -------------------------------
(***************************************************************************)
(* A decoder that has to look ahead (the branch filters), between a source  *)
(* that delivers its data in any portions and a consumer that asks for it    *)
(* in any portions.  The decoder collects bytes until there is enough to     *)
(* convert, converts as far as it can tell without what is to come, and      *)
(* hands on what is converted.                                              *)
(*                                                                         *)
(* Every pair of schedules is a case.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Lengths,    \* of the data
    Look,       \* what it takes to convert something
    Unit,       \* what is converted at a time at least
    Portions,   \* that the source delivers
    Asks,       \* sizes of the buffers of the consumer
    Sharp       \* whether as much as possible is converted each time

VARIABLES
    len, with,      \* length, whether the end comes with the last bytes
    src,            \* delivered by the source
    eof,            \* and whether it said that that was all
    buf, conv,      \* bytes held and how many of them are converted
    out,            \* handed on
    raw,            \* where what could not be converted starts, or -1
    ask,            \* what is being asked for, or 0
    done,           \* whether the consumer was told that that was all
    plan, asked,    \* the schedules
    act
vars == <<len, with, src, eof, buf, conv, out, raw, ask, done, plan, asked>>

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Init ==
    /\ len \in Lengths /\ with \in BOOLEAN
    /\ src = 0 /\ eof = FALSE /\ buf = 0 /\ conv = 0 /\ out = 0 /\ raw = -1 /\ ask = 0 /\ done = FALSE
    /\ plan = <<>> /\ asked = <<>>
    /\ act = "none"

Ask ==
    /\ ask = 0 /\ ~done
    /\ \E a \in Asks :
        /\ ask' = a /\ asked' = Append(asked, a)
    /\ act' = "ask"
    /\ UNCHANGED <<len, with, src, eof, buf, conv, out, raw, done, plan>>

Want == Max(ask, Look) - buf

\* The source delivers a portion.
Fill ==
    /\ ask > 0 /\ Want > 0 /\ ~eof
    /\ IF src = len THEN
            /\ eof' = TRUE
            /\ UNCHANGED <<src, buf, plan>>
       ELSE \E p \in Portions :
            LET k == Min(p, Min(Want, len - src)) IN
            /\ src' = src + k /\ buf' = buf + k
            /\ plan' = Append(plan, p)
            /\ eof' = (with /\ src + k = len)
    /\ act' = "fill"
    /\ UNCHANGED <<len, with, conv, out, raw, ask, done, asked>>

\* Something is converted, as much as there can be or a little less if
\* whether something is an instruction depends on what is to come.
Cuts(avail) == IF avail < Look THEN {0} ELSE {k \in 1..avail : avail - k < Look /\ k % Unit = 0 /\ (Sharp => avail - k < Unit \/ avail - k = Look - 1)}

Reply ==
    /\ ask > 0 /\ (Want <= 0 \/ eof)
    /\ IF buf = 0 THEN
            /\ done' = TRUE /\ ask' = 0
            /\ UNCHANGED <<buf, conv, out, raw>>
       ELSE LET tail == eof /\ buf < Look
                c0 == IF tail THEN buf ELSE conv IN
            /\ raw' = IF tail /\ conv < buf /\ raw = -1 THEN out + conv ELSE raw
            /\ \E k \in Cuts(buf - c0) :
                LET c == c0 + k
                    m == Min(c, ask) IN
                /\ out' = out + m /\ buf' = buf - m /\ conv' = c - m
            /\ ask' = 0 /\ UNCHANGED done
    /\ act' = "reply"
    /\ UNCHANGED <<len, with, src, eof, plan, asked>>

Next == Ask \/ Fill \/ Reply
Spec == Init /\ [][Next]_<<vars, act>>

\* C19
Ordered == out + buf = src /\ conv <= buf /\ src <= len
Complete == done => out = len
\* Everything is converted that can be, whatever the schedules.
AllConverted == raw # -1 => len - raw < Look
\* A read returns something, or says that that is all.
Progress == [][act' = "reply" => out' > out \/ done']_<<vars, act>>
Fits == [][out' - out <= ask]_<<vars, act>>

\* All that matters but for the schedules themselves.
View == <<len, with, src, eof, buf, conv, out, raw, ask, done, act>>

Emit == done' /\ ~done => PrintT(ToJson([len |-> len, with |-> with, plan |-> plan, asked |-> asked]))
=============================================================================
