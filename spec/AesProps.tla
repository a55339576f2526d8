------------------------------ MODULE AesProps ------------------------------
(***************************************************************************)
(* The properties of the encryption method: cost, salt and IV packed into  *)
(* two bytes and what follows them.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Bitwise

CONSTANTS Costs, Skip, Limit, Passwords

VARIABLES c, stage, dec
vars == <<c, stage, dec>>

\* What 7-Zip writes for a salt and an IV of these lengths.
Byte0(cost, salt, iv) == cost + (IF salt > 0 THEN 128 ELSE 0) + (IF iv > 0 THEN 64 ELSE 0)
Byte1(salt, iv) == (IF salt > 0 THEN (salt - 1) * 16 ELSE 0) + (IF iv > 0 THEN iv - 1 ELSE 0)

Valid == [kind : {"valid"}, cost : Costs, salt : 0..16, iv : 0..16, pw : Passwords, more : {0}]
\* Arbitrary second bytes, and the wrong number of bytes after them.
Raw == [kind : {"raw"}, b0 : {3, 67, 131, 195}, b1 : {0, 1, 7, 15, 16, 23, 112, 127, 128, 240, 241, 255}, pw : {1}, more : {-1, 0, 1, 16}]

Init ==
    /\ c \in Valid \cup Raw
    /\ stage = "props" /\ dec = <<>>

B0 == IF c.kind = "raw" THEN c.b0 ELSE Byte0(c.cost, c.salt, c.iv)
B1 == IF c.kind = "raw" THEN c.b1 ELSE Byte1(c.salt, c.iv)
Declared == IF c.kind = "raw" THEN ((B0 \div 128) % 2) + (B1 \div 16) + ((B0 \div 64) % 2) + (B1 % 16) ELSE c.salt + c.iv
Present == Declared + c.more

Decode ==
    /\ stage = "props"
    /\ LET salt == ((B0 \div 128) % 2) + (B1 \div 16)
           iv == ((B0 \div 64) % 2) + (B1 % 16)
           cost == B0 % 64
           \* 7-Zip itself takes neither for a salt and an IV of length zero,
           \* which it never writes; both answers are right.
           reply == IF Present # salt + iv THEN "error"
                    ELSE IF cost # Skip /\ cost > Limit THEN "error"
                    ELSE IF B0 < 64 THEN "none"
                    ELSE "ok"
       IN  dec' = [salt |-> salt, iv |-> iv, cost |-> cost, reply |-> reply]
    /\ stage' = "done"
    /\ UNCHANGED c

Spec == Init /\ [][Decode]_vars

\* Decoding gives back what was encoded.
RoundTrip == stage = "done" /\ c.kind = "valid" => dec.salt = c.salt /\ dec.iv = c.iv /\ dec.cost = c.cost
Rejected == stage = "done" /\ c.more # 0 => dec.reply # "ok"

Emit == PrintT(ToJson([b0 |-> B0, b1 |-> B1, present |-> Present, pw |-> c.pw, dec |-> dec']))
=============================================================================
