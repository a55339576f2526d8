------------------------------- MODULE Filters -------------------------------
(***************************************************************************)
(* What the filters for executables and the delta filter do to a sequence of *)
(* bytes, in both directions, as the formats define it.  They act on          *)
(* addresses of 32 bits, which are words of four bytes or two halves here as  *)
(* the numbers of TLC are too small.                                         *)
(*                                                                         *)
(* A behaviour encodes a sequence and decodes the result again.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS
    Filter,     \* which one
    Pieces,     \* what the sequences are made of
    Count,      \* of how many
    Tails,      \* and what may follow
    Starts,     \* where they start, behind zeros: those below 0 are from 2^32 down
    Repeats,    \* how often they are repeated
    Branches     \* which branches BCJ2 converts

VARIABLES phase, start, choice, plain, coded, back
vars == <<phase, start, choice, plain, coded, back>>

(***************************************************************************)
(* Words: four bytes, the lowest first.                                    *)
(***************************************************************************)
AddW(a, b) ==
    LET s1 == a[1] + b[1]
        s2 == a[2] + b[2] + s1 \div 256
        s3 == a[3] + b[3] + s2 \div 256
        s4 == a[4] + b[4] + s3 \div 256
    IN <<s1 % 256, s2 % 256, s3 % 256, s4 % 256>>
NotW(a) == [i \in 1..4 |-> 255 - a[i]]
SubW(a, b) == AddW(AddW(a, NotW(b)), <<1, 0, 0, 0>>)
Word(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
Mod(n, m) == ((n % m) + m) % m
Put(b, at, w) == [i \in DOMAIN b |-> IF i >= at /\ i < at + Len(w) THEN w[i - at + 1] ELSE b[i]]

(***************************************************************************)
(* x86: near calls and jumps whose address has a top byte of 0 or 255, but   *)
(* for those that may be part of the operand of another one.                 *)
(* mask has a bit for each of the last three bytes that was such an opcode.  *)
(***************************************************************************)
MS(x) == x = 0 \/ x = 255
Allowed(m) == m \in {0, 1, 2, 4}
Bit(m) == CASE m = 0 -> 0 [] m = 1 -> 1 [] m \in {2, 3} -> 2 [] OTHER -> 3

RECURSIVE X86Addr(_, _, _, _)
X86Addr(src, m, cur, enc) ==
    LET dest == IF enc THEN AddW(src, cur) ELSE SubW(src, cur) IN
    IF m = 0 \/ ~MS(dest[4 - Bit(m)]) THEN dest
    ELSE X86Addr([i \in 1..4 |-> IF i <= 4 - Bit(m) THEN 255 - dest[i] ELSE dest[i]], m, cur, enc)

RECURSIVE X86(_, _, _, _, _, _)
X86(b, i, prev, mask, ip, enc) ==
    IF i + 4 > Len(b) THEN b
    ELSE IF b[i] \notin {232, 233} THEN X86(b, i + 1, prev, mask, ip, enc)
    ELSE LET d == i - prev
             m == IF d > 3 THEN 0 ELSE (mask * (2 ^ (d - 1))) % 8
             skip == ((m * 2) % 8) + 1 IN
        IF m # 0 /\ (~Allowed(m) \/ MS(b[i + 4 - Bit(m)])) THEN X86(b, i + 1, i, skip, ip, enc)
        ELSE IF ~MS(b[i + 4]) THEN X86(b, i + 1, i, skip, ip, enc)
        ELSE LET dest == X86Addr(SubSeq(b, i + 1, i + 4), m, Word(ip + i + 4), enc)
                 top == IF dest[4] % 2 = 1 THEN 255 ELSE 0 IN
             X86(Put(b, i + 1, <<dest[1], dest[2], dest[3], top>>), i + 5, i, 0, ip, enc)

(***************************************************************************)
(* Instructions of four bytes.                                             *)
(***************************************************************************)
Move(v, by, m, enc) == LET d == Mod(by, m) IN Mod(IF enc THEN v + d ELSE v - d, m)

ARM(w, pc, enc) ==
    IF w[4] # 235 THEN w
    ELSE LET v == Move(w[1] + 256 * w[2] + 65536 * w[3], (pc + 8) \div 4, 16777216, enc) IN
         <<v % 256, (v \div 256) % 256, v \div 65536, 235>>

PPC(w, pc, enc) ==
    IF w[1] \div 4 # 18 \/ (w[4] % 4) # 1 THEN w
    ELSE LET v == Move((w[1] % 4) * 16777216 + w[2] * 65536 + w[3] * 256 + (w[4] - 1), pc, 67108864, enc) IN
         <<72 + v \div 16777216, (v \div 65536) % 256, (v \div 256) % 256, (v % 256) + 1>>

SPARC(w, pc, enc) ==
    IF ~((w[1] = 64 /\ w[2] \div 64 = 0) \/ (w[1] = 127 /\ w[2] \div 64 = 3)) THEN w
    ELSE LET neg == IF w[1] = 127 THEN 4194304 ELSE 0
             v == Move((w[2] % 64) * 65536 + w[3] * 256 + w[4] + neg, pc \div 4, 8388608, enc)
             up == v >= 4194304 IN
         <<IF up THEN 127 ELSE 64, (IF up THEN 192 ELSE 0) + ((v \div 65536) % 64), (v \div 256) % 256, v % 256>>

\* Calls, and addresses of pages within 512 MiB.
ARM64(w, pc, enc) ==
    IF w[4] \div 4 = 37 THEN
        LET v == Move(w[1] + 256 * w[2] + 65536 * w[3] + 16777216 * (w[4] % 4), pc \div 4, 67108864, enc) IN
        <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, 148 + v \div 16777216>>
    ELSE IF w[4] \in {144, 176, 208, 240} THEN
        LET low == (w[4] - 144) \div 32
            rd == w[1] % 32
            high == w[1] \div 32 + 8 * w[2] + 2048 * w[3]
            imm == IF high >= 262144 THEN high - 524288 ELSE high IN
        IF imm < -32768 \/ imm >= 32768 THEN w
        ELSE LET n == Move(imm * 4 + low + 131072, pc \div 4096, 262144, enc) - 131072
                 h == Mod(n \div 4, 524288) IN
             <<rd + 32 * (h % 8), (h \div 8) % 256, h \div 2048, 144 + 32 * (n % 4)>>
    ELSE w

RECURSIVE Words4(_, _, _, _)
Words4(b, i, ip, enc) ==
    IF i + 3 > Len(b) THEN b
    ELSE LET w == SubSeq(b, i, i + 3)
             pc == ip + i - 1
             c == CASE Filter = "arm" -> ARM(w, pc, enc) [] Filter = "arm64" -> ARM64(w, pc, enc)
                    [] Filter = "ppc" -> PPC(w, pc, enc) [] Filter = "sparc" -> SPARC(w, pc, enc)
         IN Words4(Put(b, i, c), i + 4, ip, enc)

(***************************************************************************)
(* Differences.                                                            *)
(***************************************************************************)
Distance == CASE Filter = "delta1" -> 1 [] Filter = "delta2" -> 2 [] Filter = "delta3" -> 3 [] OTHER -> 0
DeltaEnc(b) == [i \in DOMAIN b |-> IF i <= Distance THEN b[i] ELSE Mod(b[i] - b[i - Distance], 256)]
RECURSIVE DeltaDec(_, _)
DeltaDec(b, i) ==
    IF i > Len(b) THEN b
    ELSE DeltaDec(IF i <= Distance THEN b ELSE Put(b, i, <<(b[i] + b[i - Distance]) % 256>>), i + 1)

(***************************************************************************)
(* BCJ2: addresses of calls and jumps go to streams of their own, and whether *)
(* they did to a fourth one, by a range coder.  Its numbers are two halves.  *)
(***************************************************************************)
IsJ(p, x) == x \in {232, 233} \/ (p = 15 /\ x \div 16 = 8)
Index(p, x) == CASE x = 232 -> p [] x = 233 -> 256 [] OTHER -> 257

Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Add2(a, b) == LET l == a[2] + b[2]
                  h == a[1] + b[1] + l \div 65536 IN <<h % 65536, l % 65536, h \div 65536>>
Sub2(a, b) == LET l == a[2] - b[2] IN
    IF l < 0 THEN <<a[1] - b[1] - 1, l + 65536>> ELSE <<a[1] - b[1], l>>
Shl8(a) == <<(a[1] % 256) * 256 + a[2] \div 256, (a[2] % 256) * 256>>
Bound(range, p) ==
    LET q == range[1] * 32 + range[2] \div 2048
        l == (q % 65536) * p IN
    <<(q \div 65536) * p + l \div 65536, l % 65536>>
Top == 256   \* in the upper half
Prob0 == [i \in 0..257 |-> 1024]
Up(p) == p + (2048 - p) \div 32
Down(p) == p - p \div 32

\* Encoder: low with its carry, range, the byte held back and how many follow.
Enc0 == [low |-> <<0, 0, 0>>, range |-> <<65535, 65535>>, cache |-> 0, size |-> 1, out |-> <<>>, prob |-> Prob0]
ShiftLow(e) ==
    LET hold == e.low[3] = 0 /\ e.low[1] >= 65280
        flushed == [i \in 1..e.size |-> ((IF i = 1 THEN e.cache ELSE 255) + e.low[3]) % 256]
        next == Shl8(<<e.low[1] % 256, e.low[2]>>) IN
    [e EXCEPT !.out = IF hold THEN @ ELSE @ \o flushed,
              !.cache = IF hold THEN @ ELSE e.low[1] \div 256,
              !.size = IF hold THEN @ + 1 ELSE 1,
              !.low = <<next[1], next[2], 0>>]
RECURSIVE Norm(_)
Norm(e) == IF e.range[1] < Top THEN Norm(ShiftLow([e EXCEPT !.range = Shl8(@)])) ELSE e
EncBit(e, i, bit) ==
    LET b == Bound(e.range, e.prob[i]) IN
    Norm(IF bit = 0 THEN [e EXCEPT !.range = b, !.prob[i] = Up(@)]
         ELSE LET s == Add2(<<e.low[1], e.low[2]>>, b) IN
              [e EXCEPT !.low = <<s[1], s[2], e.low[3] + s[3]>>, !.range = Sub2(@, b), !.prob[i] = Down(@)])
Flush(e) == ShiftLow(ShiftLow(ShiftLow(ShiftLow(ShiftLow(e)))))

Converts(i) == CASE choice = "all" -> TRUE [] choice = "none" -> FALSE [] OTHER -> i % 3 # 0

RECURSIVE Bcj2Enc(_, _, _, _)
Bcj2Enc(b, i, prev, s) ==
    IF i > Len(b) THEN <<s.main, s.call, s.jump, Flush(s.e).out>>
    ELSE LET x == b[i]
             t == [s EXCEPT !.main = Append(@, x)] IN
        IF ~IsJ(prev, x) THEN Bcj2Enc(b, i + 1, x, t)
        ELSE IF i + 4 > Len(b) \/ ~Converts(i) THEN
            Bcj2Enc(b, i + 1, x, [t EXCEPT !.e = EncBit(@, Index(prev, x), 0)])
        ELSE LET abs == AddW(SubSeq(b, i + 1, i + 4), Word(start + i + 4))
                 be == <<abs[4], abs[3], abs[2], abs[1]>>
                 u == [t EXCEPT !.e = EncBit(@, Index(prev, x), 1)] IN
             Bcj2Enc(b, i + 5, b[i + 4],
                     IF x = 232 THEN [u EXCEPT !.call = @ \o be] ELSE [u EXCEPT !.jump = @ \o be])

\* Decoder: code and range, and how much was read of each stream.
RECURSIVE DecNorm(_, _)
DecNorm(d, rc) ==
    IF d.range[1] >= Top THEN d
    ELSE LET c == Shl8(d.code)
             x == IF d.n < Len(rc) THEN rc[d.n + 1] ELSE 0 IN
         DecNorm([d EXCEPT !.range = Shl8(@), !.code = <<c[1], c[2] + x>>, !.n = @ + 1], rc)
DecBit(d, i, rc) ==
    LET b == Bound(d.range, d.prob[i]) IN
    IF Lt(d.code, b) THEN <<0, DecNorm([d EXCEPT !.range = b, !.prob[i] = Up(@)], rc)>>
    ELSE <<1, DecNorm([d EXCEPT !.range = Sub2(@, b), !.code = Sub2(@, b), !.prob[i] = Down(@)], rc)>>

RECURSIVE Bcj2Dec(_, _, _, _, _)
Bcj2Dec(s, at, prev, d, out) ==
    IF at[1] > Len(s[1]) THEN out
    ELSE LET x == s[1][at[1]]
             a == [at EXCEPT ![1] = @ + 1]
             o == Append(out, x) IN
        IF ~IsJ(prev, x) THEN Bcj2Dec(s, a, x, d, o)
        ELSE LET r == DecBit(d, Index(prev, x), s[4]) IN
            IF r[1] = 0 THEN Bcj2Dec(s, a, x, r[2], o)
            ELSE LET k == IF x = 232 THEN 2 ELSE 3
                     be == SubSeq(s[k], at[k], at[k] + 3)
                     rel == SubW(<<be[4], be[3], be[2], be[1]>>, Word(start + Len(o) + 4)) IN
                 Bcj2Dec(s, [a EXCEPT ![k] = @ + 4], rel[4], r[2], o \o rel)

\* The first of the five bytes that a range decoder starts with is 0.
Dec0(rc) == [code |-> <<rc[2] * 256 + rc[3], rc[4] * 256 + rc[5]>>, range |-> <<65535, 65535>>, n |-> 5, prob |-> Prob0]

(***************************************************************************)
(* Behaviours                                                              *)
(***************************************************************************)
Encoded(b) ==
    CASE Filter = "bcj" -> <<X86(b, 1, -9, 0, start, TRUE)>>
      [] Filter \in {"arm", "arm64", "ppc", "sparc"} -> <<Words4(b, 1, start, TRUE)>>
      [] Filter \in {"delta1", "delta2", "delta3"} -> <<DeltaEnc(b)>>
      [] Filter = "bcj2" -> Bcj2Enc(b, 1, 0, [main |-> <<>>, call |-> <<>>, jump |-> <<>>, e |-> Enc0])

Decoded(s) ==
    CASE Filter = "bcj" -> X86(s[1], 1, -9, 0, start, FALSE)
      [] Filter \in {"arm", "arm64", "ppc", "sparc"} -> Words4(s[1], 1, start, FALSE)
      [] Filter \in {"delta1", "delta2", "delta3"} -> DeltaDec(s[1], 1)
      [] Filter = "bcj2" -> Bcj2Dec(s, <<1, 1, 1>>, 0, Dec0(s[4]), <<>>)

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN <<>> ELSE s \o Repeat(s, n - 1)

Init ==
    /\ phase = "plain"
    /\ start \in Starts /\ choice \in Branches
    /\ \E n \in 0..Count : \E p \in [1..n -> DOMAIN Pieces], t \in Tails, k \in Repeats :
        plain = Repeat(FlattenSeq([i \in 1..n |-> Pieces[p[i]]]), k) \o t
    /\ coded = <<>> /\ back = <<>>

Encode ==
    /\ phase = "plain" /\ phase' = "coded"
    /\ coded' = Encoded(plain)
    /\ UNCHANGED <<start, choice, plain, back>>

Decode ==
    /\ phase = "coded" /\ phase' = "back"
    /\ back' = Decoded(coded)
    /\ UNCHANGED <<start, choice, plain, coded>>

Next == Encode \/ Decode
Spec == Init /\ [][Next]_vars

\* C22
Recovered == phase = "back" => back = plain
SameLength == phase # "plain" /\ Filter # "bcj2" => Len(coded[1]) = Len(plain)
Nothing == phase # "plain" /\ Filter = "bcj2" => Len(coded[1]) + Len(coded[2]) + Len(coded[3]) = Len(plain)
AreBytes == \A i \in DOMAIN coded : \A j \in DOMAIN coded[i] : coded[i][j] \in 0..255

Emit == phase' = "coded" =>
    PrintT(ToJson([f |-> Filter, start |-> start, choice |-> choice, plain |-> plain', coded |-> coded']))

(***************************************************************************)
(* Configurations                                                          *)
(***************************************************************************)
Bytes(s) == [i \in DOMAIN s |-> <<s[i]>>]
P86 == Bytes(<<232, 0, 255, 7>>)
P86b == Bytes(<<232, 233, 255, 1, 254>>)
PBcj2 == Bytes(<<232, 15, 128, 0, 255>>)
PBcj2b == <<<<232>>, <<233, 1, 2, 3, 4>>, <<15, 143>>, <<0>>, <<232, 255, 255, 255, 255>>, <<15, 15>>>>
PARM == <<<<0, 0, 0, 235>>, <<255, 255, 255, 235>>, <<1, 2, 3, 235>>, <<0, 0, 1, 235>>, <<254, 255, 127, 235>>,
    <<1, 2, 3, 234>>, <<235, 235, 235, 236>>>>
PPPC == <<<<72, 0, 0, 1>>, <<75, 255, 255, 253>>, <<74, 0, 1, 1>>, <<72, 0, 0, 0>>, <<72, 0, 0, 3>>, <<76, 0, 0, 1>>, <<73, 2, 3, 5>>>>
PSPARC == <<<<64, 0, 0, 0>>, <<64, 63, 255, 255>>, <<64, 64, 0, 0>>, <<127, 192, 0, 0>>, <<127, 255, 255, 255>>,
    <<127, 191, 1, 2>>, <<64, 1, 2, 3>>, <<63, 1, 2, 3>>>>
\* The address of a page: upper and lower part of the offset, register.
Adrp(h, l, rd) == <<rd + 32 * (h % 8), (h \div 8) % 256, h \div 2048, 144 + 32 * l>>
PARM64 == <<<<0, 0, 0, 148>>, <<255, 255, 255, 151>>, <<1, 2, 3, 149>>, <<1, 2, 3, 152>>, <<1, 2, 3, 147>>,
    Adrp(0, 0, 0), Adrp(0, 3, 31), Adrp(32767, 3, 1), Adrp(32768, 0, 2), Adrp(524287, 1, 3), Adrp(491520, 0, 4),
    Adrp(491519, 3, 5), Adrp(262143, 2, 6), Adrp(262144, 2, 7), Adrp(1, 2, 8)>>
PDelta == Bytes(<<0, 1, 128, 255>>)
\* With these, every kind of branch occurs where the address wraps around.
Far86 == <<<<232, 0, 0, 0, 0, 7, 233, 255, 255, 255, 255, 232, 1, 2, 0, 0, 9>>>>
FarBcj2 == <<<<232, 0, 0, 0, 0, 7, 233, 255, 255, 255, 255, 15, 132, 1, 2, 0, 0, 9>>>>
FarARM == <<FlattenSeq(PARM)>>
FarARM64 == <<FlattenSeq(PARM64)>>
FarPPC == <<FlattenSeq(PPPC)>>
FarSPARC == <<FlattenSeq(PSPARC)>>
\* The last one is where what was decoded before may end, which is then a piece.
FarStarts == {-2147483640, -100, -4}
NoTail == {<<>>}
Tails4 == {<<>>, <<235>>, <<0, 72>>, <<64, 0, 0>>, <<0, 0, 148>>}
=============================================================================
