-------------------------------- MODULE Header --------------------------------
(***************************************************************************)
(* The header of an archive, written and read at the same time.  A writer   *)
(* has an archive in mind (Shapes) and writes its header element by         *)
(* element; now and then it writes something else: another number, another  *)
(* id, other bits, nothing at all, or it stops.  Where a number says how     *)
(* much of something follows the writer goes along with it as long as it is *)
(* small.  A lenient reader follows what is written into ctx and notes in    *)
(* bad which consistency rules are broken.  A writer that does not go along *)
(* with what it wrote derails the reader.                                   *)
(*                                                                         *)
(* What is done with a header later on uses counts, sizes and indices of it; *)
(* the rules have to be enough for all of these to be in range.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Use,      \* names of the shapes
          Deviations,
          IdAlts,   \* ids to write in place of others
          NumAlts   \* numbers to write in place of others, see Big

\* Numbers that are too large for anything stand for others:
\* 900001: 1000000, 900002: 2^31, 900003: 2^32-1, 900004: 2^32, 900005: 2^63-1,
\* 900006: 2^63, 900007: 2^64-1
Big(n) == n > 900000

\*---------------------------------------------------------------- what is meant
C(id, in, out, props, size) == [id |-> id, in |-> in, out |-> out, props |-> props, size |-> size]
CopyC(n) == C("copy", 1, 1, 0, n)

F(coders, binds, packed, crc, subs) ==
    [coders |-> coders, binds |-> binds, packed |-> packed, crc |-> crc, subs |-> subs]

Shapes == [
    one |-> [
        folders |-> <<F(<<CopyC(5)>>, <<>>, <<0>>, FALSE, <<5>>)>>,
        packs |-> <<5>>, packcrc |-> FALSE, sub |-> TRUE, files |-> <<"f">>,
        props |-> <<"names">>],
    plain |-> [
        folders |-> <<F(<<CopyC(5)>>, <<>>, <<0>>, TRUE, <<5>>)>>,
        packs |-> <<5>>, packcrc |-> FALSE, sub |-> FALSE, files |-> <<"f">>,
        props |-> <<"names">>],
    solid |-> [
        folders |-> <<F(<<CopyC(7)>>, <<>>, <<0>>, FALSE, <<3, 4>>), F(<<CopyC(5)>>, <<>>, <<0>>, TRUE, <<5>>)>>,
        packs |-> <<7, 5>>, packcrc |-> TRUE, sub |-> TRUE, files |-> <<"f", "d", "f", "e", "f">>,
        props |-> <<"empty", "emptyfile", "names", "mtime", "attr">>],
    times |-> [
        folders |-> <<>>,
        packs |-> <<>>, packcrc |-> FALSE, sub |-> FALSE, files |-> <<"d", "e">>,
        props |-> <<"empty", "emptyfile", "dummy", "ctime", "atime", "names">>],
    graph |-> [
        folders |-> <<F(<<CopyC(4), C("delta", 1, 1, 1, 4), C("bcj2", 4, 1, 0, 6)>>,
                        <<<<1, 0>>, <<2, 1>>>>, <<0, 3, 4, 5>>, FALSE, <<6>>)>>,
        packs |-> <<4, 3, 3, 8>>, packcrc |-> FALSE, sub |-> TRUE, files |-> <<"f">>,
        props |-> <<"names">>],
    twoout |-> [
        folders |-> <<F(<<C("two", 2, 2, 0, 4), CopyC(4)>>, <<<<2, 0>>, <<1, 1>>>>, <<0>>, FALSE, <<4>>)>>,
        packs |-> <<4>>, packcrc |-> FALSE, sub |-> TRUE, files |-> <<"f">>,
        props |-> <<"names">>],
    none |-> [
        folders |-> <<F(<<CopyC(5)>>, <<>>, <<0>>, TRUE, <<>>), F(<<CopyC(5)>>, <<>>, <<0>>, FALSE, <<2, 3>>)>>,
        packs |-> <<5, 5>>, packcrc |-> FALSE, sub |-> TRUE, files |-> <<"f", "f", "d">>,
        props |-> <<"names", "empty">>],
    three |-> [
        folders |-> <<F(<<CopyC(7)>>, <<>>, <<0>>, FALSE, <<3, 3, 1>>)>>,
        packs |-> <<7>>, packcrc |-> FALSE, sub |-> TRUE, files |-> <<"f", "f", "f">>,
        props |-> <<"names">>],
    encoded |-> [
        folders |-> <<F(<<CopyC(8)>>, <<>>, <<0>>, TRUE, <<8>>)>>,
        packs |-> <<8>>, packcrc |-> FALSE, sub |-> FALSE, files |-> <<>>,
        props |-> <<>>]
    ]

VARIABLES shape, todo, out, left, ctx, bad, state, act
vars == <<shape, todo, out, left, ctx, bad, state>>

S == Shapes[shape]

\*-------------------------------------------------------------------- elements
Id(v) == [k |-> "id", v |-> v]
Num(key, v) == [k |-> "num", key |-> key, v |-> v]
Byte(v) == [k |-> "byte", v |-> v]
\* n values of a kind
Raw(what, n) == [k |-> "raw", what |-> what, n |-> n]
Bits(key, v) == [k |-> "bits", key |-> key, v |-> v]
\* A vector with a byte before it that says whether it is left out.
Opt(key, v) == [k |-> "opt", key |-> key, v |-> v]
Flag(c) == [k |-> "flag", c |-> c]
\* What follows depends on what was read.
Call(key) == [k |-> "call", key |-> key]

RECURSIVE Rep(_, _, _)
Rep(f(_), i, n) == IF i > n THEN <<>> ELSE f(i) \o Rep(f, i + 1, n)
Min(a, b) == IF a < b THEN a ELSE b
\* How many the writer writes.
Some(n, meant) == IF Big(n) THEN meant ELSE Min(n, meant + 2)
At(s, i) == s[Min(i, Len(s))]

Streams(s) ==
    (IF s.packs = <<>> THEN <<>> ELSE <<Id(6), Num("packpos", 0), Num("packs", Len(s.packs))>>)
    \o <<Id(7), Id(11), Num("folders", Len(s.folders))>>
    \o (IF s.sub THEN <<Id(8), Call("subs")>> ELSE <<>>)
    \o <<Id(0)>>

Start(s) ==
    IF s.files = <<>> THEN <<Id(23)>> \o Streams(s)
    ELSE <<Id(1)>>
         \o (IF s.folders = <<>> THEN <<>> ELSE <<Id(4)>> \o Streams(s))
         \o <<Id(5), Num("files", Len(s.files))>>
         \o <<Id(0)>>

\*------------------------------------------------------------------- following
NoFolder == [in |-> 0, out |-> 0, coders |-> 0, binds |-> <<>>, packed |-> <<>>, sizes |-> <<>>, wild |-> FALSE]

Ctx0 == [
    packpos |-> 0, packs |-> -1, packsizes |-> <<>>,
    folders |-> <<>>, digests |-> {}, hasdigests |-> FALSE,
    subs |-> FALSE, counts |-> <<>>, subsizes |-> <<>>, havesizes |-> FALSE, crcs |-> -1, total |-> 0,
    files |-> 0, empty |-> <<>>, ef |-> -1, names |-> -1, derailed |-> FALSE]

LastF(c) == c.folders[Len(c.folders)]
WithF(c, f) == [c EXCEPT !.folders[Len(c.folders)] = f]
WithW(c, f, wild) == [WithF(c, f) EXCEPT !.derailed = @ \/ wild]
Sum(s) == LET RECURSIVE T(_) T(i) == IF i = 0 THEN 0 ELSE T(i - 1) + s[i] IN T(Len(s))
Val(n) == n
Trues(s) == Cardinality({i \in DOMAIN s : s[i]})

Meant(i) == At(S.folders, i)

\* The streams of a folder that is complete.
Unbound(f) == {i \in 0..(f.in - 1) : \A b \in DOMAIN f.binds : f.binds[b][1] # i}

\* What is written after number n was written for key.
Follow(key, n) ==
    CASE key = "packs" ->
            LET size(i) == <<Num("packsize", At(S.packs, i))>> IN
            (IF Some(n, Len(S.packs)) = 0 THEN <<>> ELSE <<Id(9)>> \o Rep(size, 1, Some(n, Len(S.packs))))
            \o (IF S.packcrc THEN <<Id(10), Opt("packcrc", [i \in 1..Some(n, Len(S.packs)) |-> TRUE])>> ELSE <<>>)
            \o <<Id(0)>>
      [] key = "folders" ->
            LET folder(i) == <<Call("folder"), Num("coders", Len(At(S.folders, i).coders))>>
                k == Some(n, Len(S.folders)) IN
            <<Byte(0)>> \o Rep(folder, 1, k) \o <<Id(12), Call("unpacksizes")>>
            \o (IF \E i \in DOMAIN S.folders : S.folders[i].crc
                THEN <<Id(10), Opt("foldercrc", [i \in 1..k |-> At(S.folders, i).crc])>> ELSE <<>>)
            \o <<Id(0)>>
      [] key = "coders" ->
            LET cs == Meant(Len(ctx.folders)).coders
                coder(i) == <<Flag(At(cs, i))>> IN
            Rep(coder, 1, Some(n, Len(cs))) \o <<Call("binds")>>
      [] key = "propslen" -> <<Raw("props", IF Big(n) THEN 1 ELSE n)>>
      [] key = "files" ->
            LET k == Some(n, Len(S.files))
                fs == [i \in 1..k |-> At(S.files, i)]
                prop(i) ==
                    LET p == S.props[i] IN
                    CASE p = "empty" -> <<Id(14), Num("len", (k + 7) \div 8), Bits("empty", [j \in 1..k |-> fs[j] # "f"])>>
                      [] p = "emptyfile" -> <<Id(15), Num("len", 1), Call("emptyfile")>>
                      [] p = "names" -> <<Id(17), Num("nameslen", 1 + 6 * k), Byte(0), Raw("name", k)>>
                      [] p = "mtime" -> <<Id(20), Num("len", 2 + 8 * k), Opt("time", [j \in 1..k |-> j # 2])>>
                      [] p = "ctime" -> <<Id(18), Num("len", 2 + 8 * k), Opt("time", [j \in 1..k |-> TRUE])>>
                      [] p = "atime" -> <<Id(19), Num("len", 2 + 8 * k), Opt("time", [j \in 1..k |-> FALSE])>>
                      [] p = "attr" -> <<Id(21), Num("len", 2 + 4 * k), Opt("attr", [j \in 1..k |-> TRUE])>>
                      [] p = "dummy" -> <<Id(25), Num("dummylen", 3)>> IN
            Rep(prop, 1, Len(S.props)) \o <<Id(0)>>
      [] key = "dummylen" -> <<Raw("zero", IF Big(n) THEN 3 ELSE n)>>
      [] OTHER -> <<>>

\* What the reader makes of it.
Note(key, n) ==
    CASE key = "packs" -> [ctx EXCEPT !.packs = n, !.derailed = @ \/ Big(n)]
      [] key = "packpos" -> [ctx EXCEPT !.packpos = n]
      [] key = "packsize" -> [ctx EXCEPT !.packsizes = Append(@, Val(n))]
      [] key = "folders" -> [ctx EXCEPT !.derailed = @ \/ Big(n)]
      [] key = "coders" -> [ctx EXCEPT !.derailed = @ \/ Big(n)]
      [] key = "in" -> WithW(ctx, [LastF(ctx) EXCEPT !.in = @ + Val(n), !.wild = @ \/ Big(n)], Big(n))
      [] key = "out" -> WithW(ctx, [LastF(ctx) EXCEPT !.out = @ + Val(n), !.wild = @ \/ Big(n)], Big(n))
      [] key = "bindin" -> WithF(ctx, [LastF(ctx) EXCEPT !.binds = Append(@, <<Val(n), 0>>)])
      [] key = "bindout" -> WithF(ctx, [LastF(ctx) EXCEPT !.binds[Len(LastF(ctx).binds)] = <<@[1], Val(n)>>])
      [] key = "packed" -> WithF(ctx, [LastF(ctx) EXCEPT !.packed = Append(@, Val(n))])
      [] key = "count" -> [ctx EXCEPT !.counts = Append(@, Val(n)), !.derailed = @ \/ Big(n)]
      [] key = "subsize" -> [ctx EXCEPT !.subsizes = Append(@, n)]
      [] key = "propslen" -> [ctx EXCEPT !.derailed = @ \/ Big(n)]
      [] key = "files" -> [ctx EXCEPT !.files = n, !.derailed = @ \/ Big(n)]
      [] key = "dummylen" -> [ctx EXCEPT !.derailed = @ \/ Big(n)]
      [] OTHER -> ctx

\* The rules about single numbers.
Broken(key, n) ==
    CASE key \in {"packs", "folders", "coders", "in", "out", "propslen", "files"} -> n = 0
      [] key = "bindin" -> Val(n) >= LastF(ctx).in
      [] key = "bindout" -> Val(n) >= LastF(ctx).out
      [] key = "packed" -> Val(n) >= LastF(ctx).in
      [] OTHER -> FALSE

\* The size of a folder is that of the last output that is not bound.
Unpack(f) ==
    LET free == {i \in 1..Len(f.sizes) : \A b \in DOMAIN f.binds : f.binds[b][2] # i - 1} IN
    IF f.sizes = <<>> THEN 0
    ELSE IF free = {} THEN f.sizes[Len(f.sizes)]
    ELSE f.sizes[CHOOSE i \in free : \A j \in free : j <= i]

CallItems(key) ==
    CASE key = "binds" ->
            LET f == LastF(ctx)
                m == Meant(Len(ctx.folders))
                n == IF f.wild THEN Len(m.binds) ELSE IF f.out = 0 THEN 0 ELSE Min(f.out - 1, 5)
                bind(i) == IF m.binds = <<>> THEN <<Num("bindin", i - 1), Num("bindout", i - 1)>>
                           ELSE <<Num("bindin", At(m.binds, i)[1]), Num("bindout", At(m.binds, i)[2])>> IN
            Rep(bind, 1, n) \o <<Call("packed")>>
      [] key = "packed" ->
            LET f == LastF(ctx)
                m == Meant(Len(ctx.folders))
                n == IF f.wild THEN Len(m.packed) ELSE Min(f.in - Len(f.binds), 6)
                packed(i) == <<Num("packed", At(m.packed, i))>> IN
            IF n = 1 THEN <<>> ELSE Rep(packed, 1, n)
      [] key = "unpacksizes" ->
            LET folder(i) ==
                    LET f == ctx.folders[i]
                        cs == Meant(i).coders
                        size(j) == <<Num("unpacksize", At(cs, j).size)>> IN
                    Rep(size, 1, IF f.wild THEN Len(cs) ELSE Min(f.out, 5)) \o <<Call("nextfolder")>> IN
            <<Call("firstfolder")>> \o Rep(folder, 1, Len(ctx.folders))
      [] key = "subs" ->
            LET count(i) == <<Num("count", Len(Meant(i).subs))>> IN
            (IF \A i \in DOMAIN S.folders : Len(S.folders[i].subs) = 1 THEN <<>>
             ELSE <<Id(13)>> \o Rep(count, 1, Len(ctx.folders)))
            \o <<Call("subsizes")>>
      [] key = "subsizes" ->
            LET folder(i) ==
                    LET m == Meant(i).subs
                        size(j) == <<Num("subsize", IF m = <<>> THEN 1 ELSE At(m, j))>> IN
                    Rep(size, 1, Min((IF i <= Len(ctx.counts) THEN ctx.counts[i] ELSE 1) - 1, 4)) IN
            (IF \A i \in DOMAIN ctx.counts : ctx.counts[i] <= 1 THEN <<>>
             ELSE <<Id(9)>> \o Rep(folder, 1, Len(ctx.folders)))
            \o <<Call("subcrcs")>>
      [] key = "subcrcs" ->
            LET cnt(i) == IF i <= Len(ctx.counts) THEN Min(ctx.counts[i], 5) ELSE 1
                one(i) == IF cnt(i) = 1 /\ i \in ctx.digests THEN 0 ELSE cnt(i)
                n == Sum([i \in DOMAIN ctx.folders |-> one(i)]) IN
            (IF n = 0 THEN <<>> ELSE <<Id(10), Opt("subcrc", [i \in 1..n |-> TRUE])>>) \o <<Id(0)>>
      [] key = "emptyfile" ->
            LET e == SelectSeq(S.files, LAMBDA f : f # "f") IN
            <<Bits("emptyfile", [j \in 1..Trues(ctx.empty) |-> e # <<>> /\ At(e, j) = "e"])>>
      [] OTHER -> <<>>

CallNote(key) ==
    CASE key = "folder" -> [ctx EXCEPT !.folders = Append(@, NoFolder)]
      [] key = "subs" -> [ctx EXCEPT !.subs = TRUE]
      [] key = "subsizes" ->
            \* left out, all counts are one
            [ctx EXCEPT !.counts = IF @ = <<>> THEN [i \in DOMAIN ctx.folders |-> 1] ELSE @]
      [] key = "firstfolder" -> [ctx EXCEPT !.total = 1]
      [] key = "nextfolder" -> [ctx EXCEPT !.total = @ + 1]
      [] key = "packed" ->
            LET f == LastF(ctx) IN
            IF f.in - Len(f.binds) = 1 /\ ~f.wild
            THEN WithF(ctx, [f EXCEPT !.packed = SelectSeq([i \in 1..f.in |-> i - 1], LAMBDA i : i \in Unbound(f))])
            ELSE ctx
      [] OTHER -> ctx

CallBroken(key) ==
    CASE key = "binds" -> LET f == LastF(ctx) IN ~f.wild /\ (f.in < f.out \/ f.in = 0 \/ f.out = 0)
      [] key = "packed" ->
            LET f == LastF(ctx) IN
            ~f.wild /\ f.in - Len(f.binds) = 1 /\ Cardinality(Unbound(f)) # 1
      [] OTHER -> FALSE

\*---------------------------------------------------------------------- writing
Init ==
    /\ shape \in Use
    /\ todo = Start(Shapes[shape]) /\ out = <<>> /\ left = Deviations
    /\ ctx = Ctx0 /\ bad = FALSE /\ state = "writing"
    /\ act = [case |-> <<>>]

Head1 == todo[1]
Rest == Tail(todo)

Write(items, tokens, c, b, cost) ==
    /\ left >= cost
    /\ left' = left - cost
    /\ todo' = items \o Rest
    /\ out' = out \o tokens
    /\ ctx' = c /\ bad' = (bad \/ b)
    /\ UNCHANGED <<shape, state>>

Derail == [ctx EXCEPT !.derailed = TRUE]

WriteId ==
    /\ Head1.k = "id"
    /\ \/ Write(<<>>, <<<<"b", Head1.v>>>>,
                IF Head1.v = 9 /\ ctx.subs THEN [ctx EXCEPT !.havesizes = TRUE] ELSE ctx, FALSE, 0)
       \/ \E v \in IdAlts \ {Head1.v} : Write(<<>>, <<<<"b", v>>>>, Derail, FALSE, 1)
       \/ Write(<<>>, <<>>, Derail, FALSE, 1)
       \/ Write(<<>>, <<<<"b", Head1.v>>, <<"b", Head1.v>>>>, Derail, FALSE, 1)

Alts(v) == (NumAlts \cup {0, v - 1, v + 1}) \ {v, -1}
WriteNum ==
    /\ Head1.k = "num"
    /\ \E v \in {Head1.v} \cup Alts(Head1.v) :
        LET c == Note(Head1.key, v)
            c2 == IF Head1.key = "unpacksize" /\ ctx.total <= Len(ctx.folders)
                  THEN [c EXCEPT !.folders[ctx.total].sizes = Append(@, Val(v))] ELSE c IN
        Write(Follow(Head1.key, v), <<<<"n", v>>>>,
              IF Head1.key = "nameslen" /\ v # Head1.v THEN [c2 EXCEPT !.derailed = TRUE] ELSE c2,
              Broken(Head1.key, v), IF v = Head1.v THEN 0 ELSE 1)

WriteByte ==
    /\ Head1.k = "byte"
    /\ \/ Write(<<>>, <<<<"b", Head1.v>>>>, ctx, FALSE, 0)
       \/ Write(<<>>, <<<<"b", 1>>>>, ctx, TRUE, 1)
       \/ Write(<<>>, <<>>, Derail, FALSE, 1)

WriteRaw ==
    /\ Head1.k = "raw"
    /\ \/ Write(<<>>, <<<<Head1.what, Head1.n>>>>,
                IF Head1.what = "name" THEN [ctx EXCEPT !.names = Head1.n] ELSE ctx, FALSE, 0)
       \/ Head1.n > 0 /\ Write(<<>>, <<<<Head1.what, Head1.n - 1>>>>, Derail, FALSE, 1)
       \/ Write(<<>>, <<<<Head1.what, Head1.n + 1>>>>, Derail, FALSE, 1)

\* Every vector that differs in one place or is all the same.
Vectors(v) == ({[v EXCEPT ![i] = ~@] : i \in DOMAIN v} \cup {[i \in DOMAIN v |-> b] : b \in BOOLEAN}) \ {v}

BitsNote(key, v) ==
    CASE key = "empty" -> [ctx EXCEPT !.empty = v, !.ef = -1]
      [] key = "emptyfile" -> [ctx EXCEPT !.ef = Len(v)]
      [] OTHER -> ctx

WriteBits ==
    /\ Head1.k = "bits"
    /\ \/ \E v \in {Head1.v} \cup Vectors(Head1.v) :
            Write(<<>>, <<<<"bits", v>>>>, BitsNote(Head1.key, v), Len(v) = 0, IF v = Head1.v THEN 0 ELSE 1)
       \/ Write(<<>>, <<>>, Derail, FALSE, 1)

\* What comes with each entry of a vector, and whether there is a byte before.
Comes(key) == CASE key \in {"packcrc", "foldercrc", "subcrc"} -> <<"crc", FALSE>>
                [] key = "time" -> <<"time", TRUE>>
                [] key = "attr" -> <<"attr", TRUE>>

OptNote(key, v) ==
    CASE key = "foldercrc" -> [ctx EXCEPT !.hasdigests = TRUE, !.digests = {i \in DOMAIN v : v[i]}]
      [] key = "subcrc" -> [ctx EXCEPT !.crcs = Len(v)]
      [] OTHER -> ctx

WriteOpt ==
    /\ Head1.k = "opt"
    /\ \/ \E v \in {Head1.v} \cup Vectors(Head1.v), slow \in BOOLEAN :
            /\ ~slow => Trues(v) = Len(v)
            /\ LET c == Comes(Head1.key)
                   meant == v = Head1.v /\ (slow <=> Trues(v) # Len(v)) IN
               Write((IF c[2] THEN <<Byte(0)>> ELSE <<>>) \o <<Raw(c[1], Trues(v))>>,
                     IF slow THEN <<<<"b", 0>>, <<"bits", v>>>> ELSE <<<<"b", 1>>>>,
                     OptNote(Head1.key, v), Len(v) = 0, IF meant THEN 0 ELSE 1)
       \/ Write(<<>>, <<>>, Derail, FALSE, 1)

CoderItems(c, complex, props) ==
    <<Raw("id:" \o c.id, 1)>>
    \o (IF complex THEN <<Num("in", c.in), Num("out", c.out)>> ELSE <<>>)
    \o (IF props THEN <<Num("propslen", IF c.props = 0 THEN 1 ELSE c.props)>> ELSE <<>>)
Simple == WithF(ctx, [LastF(ctx) EXCEPT !.in = @ + 1, !.out = @ + 1, !.coders = @ + 1])
Complex == WithF(ctx, [LastF(ctx) EXCEPT !.coders = @ + 1])
WriteFlag ==
    /\ Head1.k = "flag"
    /\ LET c == Head1.c
           multi == c.in # 1 \/ c.out # 1 IN
       \/ \E complex, props \in BOOLEAN :
            LET cost == (IF complex = multi THEN 0 ELSE 1) + (IF props = (c.props > 0) THEN 0 ELSE 1) IN
            Write(CoderItems(c, complex, props), <<<<"flag", (IF complex THEN 16 ELSE 0) + (IF props THEN 32 ELSE 0)>>>>,
                  IF complex THEN Complex ELSE Simple, FALSE, cost)
       \/ \E n \in {0, 15} :
            Write(<<Raw("idbytes", n)>> \o Tail(CoderItems(c, multi, c.props > 0)),
                  <<<<"b", n + (IF multi THEN 16 ELSE 0) + (IF c.props > 0 THEN 32 ELSE 0)>>>>,
                  IF multi THEN Complex ELSE Simple, FALSE, 1)

DoCall ==
    /\ Head1.k = "call"
    /\ Write(CallItems(Head1.key), <<>>, CallNote(Head1.key), CallBroken(Head1.key), 0)

\* Nothing more is written.
Stop ==
    /\ todo # <<>> /\ Head1.k # "call" /\ left > 0
    /\ left' = left - 1 /\ todo' = <<>> /\ bad' = TRUE
    /\ UNCHANGED <<shape, out, ctx, state>>

\*------------------------------------------------------------------ the reader
Counts == IF ctx.subs THEN ctx.counts ELSE [i \in DOMAIN ctx.folders |-> 1]

\* The sizes written for a folder, all but the last one.
SubsOf(i) ==
    LET before == Sum([k \in 1..(i - 1) |-> IF Counts[k] = 0 THEN 0 ELSE Counts[k] - 1]) IN
    IF Counts[i] = 0 THEN <<>> ELSE SubSeq(ctx.subsizes, before + 1, before + Counts[i] - 1)

\* Places in a file are below 2^63.
Place(n) == n < 900006
Places ==
    LET all == <<ctx.packpos>> \o ctx.packsizes IN
    /\ \A i \in DOMAIN all : Place(all[i])
    /\ \A i \in DOMAIN all : all[i] = 900005 => \A j \in DOMAIN all \ {i} : all[j] = 0

\* The rules about the whole.
Consistent ==
    /\ Places
    /\ LET used == Sum([i \in DOMAIN ctx.folders |-> ctx.folders[i].in - Len(ctx.folders[i].binds)]) IN
       used > 0 => used <= Len(ctx.packsizes)
    /\ (\E i \in DOMAIN Counts : Counts[i] > 1) => ctx.havesizes
    /\ ctx.files > 0 => ctx.files - Trues(ctx.empty) <= Sum(Counts)
    /\ ctx.havesizes => \A i \in DOMAIN Counts : Sum(SubsOf(i)) <= Unpack(ctx.folders[i])
    /\ ctx.names = -1 \/ ctx.names = ctx.files

\* No header at all is that of an empty archive.
Verdict == IF out = <<>> THEN "accept" ELSE IF ctx.derailed THEN "any" ELSE IF bad THEN "reject" ELSE IF Consistent THEN "accept" ELSE "reject"

Finish ==
    /\ state = "writing" /\ todo = <<>>
    /\ state' = "done"
    /\ act' = [case |-> [shape |-> shape, tokens |-> out, left |-> left, verdict |-> Verdict]]
    /\ UNCHANGED <<shape, todo, out, left, ctx, bad>>

Next ==
    \/ /\ state = "writing" /\ todo # <<>>
       /\ WriteId \/ WriteNum \/ WriteByte \/ WriteRaw \/ WriteBits \/ WriteOpt \/ WriteFlag \/ DoCall \/ Stop
       /\ act' = [case |-> <<>>]
    \/ Finish

Spec == Init /\ [][Next]_<<vars, act>>

(***************************************************************************)
(* C09.  What an accepted header is used for: every index is in range.      *)
(***************************************************************************)
Accepted == state = "done" /\ Verdict = "accept"
NFiles == ctx.files - Trues(ctx.empty)

\* The folder of a file, as long as there is one.
FolderOf(j) ==
    LET upto(i) == Sum(SubSeq(Counts, 1, i)) IN
    {i \in DOMAIN Counts : j < upto(i) /\ \A k \in 1..(i - 1) : j >= upto(k)}

FilesInRange == Accepted /\ ctx.files > 0 =>
    /\ \A j \in 0..(NFiles - 1) : \E i \in FolderOf(j) : TRUE
    /\ Len(ctx.empty) \in {0, ctx.files}
    /\ ctx.ef \in {-1, Trues(ctx.empty)}

\* The files whose checksums are among those of the files.
Missing == SelectSeq([j \in 1..Sum(Counts) |-> j - 1],
    LAMBDA j : \A i \in FolderOf(j) : Counts[i] # 1 \/ i \notin ctx.digests)

\* Sizes and checksums of files are looked up by their number.
SizesInRange == Accepted /\ ctx.files > 0 =>
    \A j \in 0..(NFiles - 1) : \A i \in FolderOf(j) :
        /\ Counts[i] = 1 => ctx.folders[i].coders <= Len(ctx.folders[i].sizes)
        /\ Counts[i] # 1 => ctx.havesizes /\ Len(SubsOf(i)) = Counts[i] - 1
        /\ ctx.crcs # -1 => Len(Missing) = ctx.crcs

\* Where packed streams start and end fits into a signed number.
PlacesInRange == Accepted /\ out # <<>> =>
    \A i \in DOMAIN ctx.packsizes : Place(ctx.packsizes[i]) /\ Place(ctx.packpos)

FoldersInRange == Accepted /\ out # <<>> =>
    /\ \A i \in DOMAIN ctx.folders :
        LET f == ctx.folders[i] IN
        /\ Len(f.sizes) = f.out /\ f.out >= 1
        /\ \A p \in DOMAIN f.packed : f.packed[p] < f.in
        /\ \A b \in DOMAIN f.binds : f.binds[b][1] < f.in /\ f.binds[b][2] < f.out
        /\ Len(f.packed) = f.in - Len(f.binds)
    /\ Sum([i \in DOMAIN ctx.folders |-> Len(ctx.folders[i].packed)]) <= Len(ctx.packsizes)

\* What was meant is accepted.
MeantIsFine == state = "done" /\ left = Deviations => Verdict = "accept"

Emit == state' = "done" => PrintT(ToJson(act'.case))
=============================================================================
