-------------------------------- MODULE Methods --------------------------------
(***************************************************************************)
(* What a header can say about one coder: its method, its properties, how   *)
(* much it decodes to, how many inputs it has, and what there is to decode.  *)
(* Right is a coder as it should be, everything else departs from it in one *)
(* or two respects.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Departures

\* Methods and how many bytes of properties they take.  Those of the AES
\* method have a specification of their own.
Props == [
    copy |-> 0, deflate |-> 0, bzip2 |-> 0, lzma |-> 5, lzma2 |-> 1, zstd |-> 0, brotli |-> 0, brraw |-> 0, lz4 |-> 0,
    delta4 |-> 1, bcj |-> 0, arm |-> 0, arm64 |-> 0, ppc |-> 0, sparc |-> 0, aes |-> 20, ppmd |-> 5, bcj2 |-> 0]

\* Values for a byte.  Those that ask for much memory are left out.
Bytes(m, i) ==
    CASE m \in {"lzma", "ppmd"} /\ i > 3 -> {0, 1}
      [] m = "lzma2" -> {0, 1, 2, 25, 41, 64, 127, 128, 255}
      [] m = "aes" /\ i = 1 -> {0, 1, 63, 64, 128, 192, 255}
      [] OTHER -> {0, 1, 2, 31, 32, 63, 64, 65, 93, 127, 128, 224, 225, 255}

VARIABLES method, props, size, inputs, data, act
vars == <<method, props, size, inputs, data>>

Right == <<"right">>
PropsAlts(m) ==
    {<<"short", n>> : n \in 1..Props[m]} \cup {<<"long", n>> : n \in {1, 2, 300}}
    \cup {<<"byte", i, v>> : i \in 1..Props[m], v \in 0..255}

Fits(m, p) == p[1] # "byte" \/ p[3] \in Bytes(m, p[2])

\* 900001: 1000000, 900005: 2^63-1, 900006: 2^63, 900007: 2^64-1
Sizes == {<<"none">>, <<"less">>, <<"more">>} \cup {<<"n", n>> : n \in {900001, 900005, 900006, 900007}}
Inputs(m) == {<<"n", n>> : n \in {1, 2, 3, 4, 5}} \ {<<"n", IF m = "bcj2" THEN 4 ELSE 1>>}
Data == {<<"none">>, <<"half">>, <<"zeros">>, <<"ones">>, <<"noise">>, <<"flipped">>, <<"again">>, <<"start">>, <<"trail">>}

Departed == Cardinality({i \in 1..4 : <<props, size, inputs, data>>[i] # Right})

Init ==
    /\ method \in DOMAIN Props
    /\ props = Right /\ size = Right /\ inputs = Right /\ data = Right
    /\ act = "none"

Depart ==
    /\ act # "try" /\ Departed < Departures
    /\ \/ /\ props = Right /\ props' \in {p \in PropsAlts(method) : Fits(method, p)}
          /\ UNCHANGED <<size, inputs, data>>
       \/ /\ size = Right /\ size' \in Sizes
          /\ UNCHANGED <<props, inputs, data>>
       \/ /\ inputs = Right /\ inputs' \in Inputs(method)
          /\ UNCHANGED <<props, size, data>>
       \/ /\ data = Right /\ data' \in Data
          /\ UNCHANGED <<props, size, inputs>>
    /\ UNCHANGED <<method, act>>

Try ==
    /\ act # "try" /\ act' = "try"
    /\ UNCHANGED vars

Next == Depart \/ Try
Spec == Init /\ [][Next]_<<vars, act>>

TypeOK == Departed <= Departures /\ Fits(method, IF props = Right THEN <<"none">> ELSE props)

Emit == act' = "try" =>
    PrintT(ToJson([method |-> method, props |-> props, size |-> size, inputs |-> inputs, data |-> data,
                   right |-> Departed = 0]))
=============================================================================
