---------------------------------- MODULE Far ----------------------------------
(***************************************************************************)
(* Where data lies in archives that are larger than 32 bits can say.  The   *)
(* numbers of TLC are too small, so a number is three digits of 21 bits,     *)
(* the lowest first.                                                        *)
(*                                                                         *)
(* A stream is stored as it is; its files lie one after the other from its  *)
(* start, and the streams from the position of the packed data.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Positions, Lengths,   \* exponents with an offset, see W
          MaxStreams, MaxFiles

VARIABLES pos, streams, f, k, off, starts, phase
vars == <<pos, streams, f, k, off, starts, phase>>

Base == 2097152
RECURSIVE Pow(_)
Pow(e) == IF e = 0 THEN 1 ELSE 2 * Pow(e - 1)
Zero == <<0, 0, 0>>

Add(x, y) ==
    LET a == x[1] + y[1]
        b == x[2] + y[2] + a \div Base
        c == x[3] + y[3] + b \div Base
    IN  <<a % Base, b % Base, c>>
Minus1(x) ==
    IF x[1] > 0 THEN <<x[1] - 1, x[2], x[3]>>
    ELSE IF x[2] > 0 THEN <<Base - 1, x[2] - 1, x[3]>>
    ELSE <<Base - 1, Base - 1, x[3] - 1>>
Less(x, y) == \/ x[3] < y[3]
              \/ x[3] = y[3] /\ x[2] < y[2]
              \/ x[3] = y[3] /\ x[2] = y[2] /\ x[1] < y[1]

\* <<e, d>> is 2^e + d, d from -1 upwards; <<-1, d>> is d.
W(m) ==
    LET p == IF m[1] < 0 THEN Zero
             ELSE [z \in 1..3 |-> IF z = (m[1] \div 21) + 1 THEN Pow(m[1] % 21) ELSE 0]
    IN  IF m[2] < 0 THEN Minus1(p) ELSE Add(p, <<m[2], 0, 0>>)

Init ==
    /\ pos \in {W(m) : m \in Positions}
    /\ \E n \in 1..MaxStreams : streams \in
        [1..n -> UNION {[1..z -> {W(m) : m \in Lengths}] : z \in 1..MaxFiles}]
    /\ f = 1 /\ k = 1 /\ off = pos /\ starts = <<>> /\ phase = "place"

Place ==
    /\ phase = "place" /\ f <= Len(streams) /\ k <= Len(streams[f])
    /\ starts' = Append(starts, [stream |-> f, nth |-> k, start |-> off, size |-> streams[f][k]])
    /\ off' = Add(off, streams[f][k])
    /\ k' = k + 1
    /\ UNCHANGED <<pos, streams, f, phase>>
NextStream ==
    /\ phase = "place" /\ f <= Len(streams) /\ k > Len(streams[f])
    /\ f' = f + 1 /\ k' = 1
    /\ UNCHANGED <<pos, streams, off, starts, phase>>
Finish == phase = "place" /\ f > Len(streams) /\ phase' = "done" /\ UNCHANGED <<pos, streams, f, k, off, starts>>

Next == Place \/ NextStream \/ Finish
Spec == Init /\ [][Next]_vars

\* C07.  Files do not overlap, whichever two are compared, and everything lies
\* where 63 bits can say.
Apart == \A x, y \in DOMAIN starts : x < y =>
    ~Less(starts[y].start, Add(starts[x].start, starts[x].size))
Digits(x) == \A z \in 1..3 : x[z] \in 0..(Base - 1)
InRange == Digits(off) /\ \A x \in DOMAIN starts : Digits(starts[x].start) /\ ~Less(starts[x].start, pos)
\* Nothing lies between files, and the data ends where the header begins.
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN Zero ELSE Add(Sum(SubSeq(s, 1, Len(s) - 1)), s[Len(s)].size)
Dense == \A x \in DOMAIN starts : starts[x].start = Add(Sum(SubSeq(starts, 1, x - 1)), pos)

PosFew == {<<-1, 0>>, <<31, -1>>, <<32, 0>>, <<40, 7>>}
LenFew == {<<-1, 3>>, <<31, 0>>, <<32, -1>>, <<32, 1>>}
PosAll == {<<-1, 0>>, <<-1, 1>>, <<30, 0>>, <<31, -1>>, <<31, 0>>, <<32, -1>>, <<32, 0>>, <<40, 7>>, <<61, 0>>}
LenAll == {<<-1, 1>>, <<31, -1>>, <<31, 0>>, <<32, -1>>, <<32, 0>>, <<32, 1>>, <<33, 5>>, <<48, 1>>, <<60, 0>>}

Emit == phase' = "done" => PrintT(ToJson([pos |-> pos, end |-> off, files |-> starts]))
=============================================================================
