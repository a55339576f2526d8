-------------------------------- MODULE Errors --------------------------------
(***************************************************************************)
(* What an error says.  A stream is decoded by a chain of coders, some of  *)
(* which decrypt.  Something fails at one place: while the chain is set up *)
(* or while data flows through it.  The error carries a hint on whether    *)
(* encryption is involved, which follows from the steps that were set up.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxLen, Modes

VARIABLES c, phase, i, setup, out
vars == <<c, phase, i, setup, out>>

Kinds == {"plain", "crypt"}
Chains == UNION {[1..n -> Kinds] : n \in 1..MaxLen}
\* What is done: read the first or the second of two files, the second with an
\* idle decoder that is in the middle of the first, or open an archive whose
\* header is encoded with the chain.
Wants == {"first", "second", "idle", "header"}
\* Where in the data it fails: before any of it, in what comes after the first
\* half of the first file, or in the second file.
Places == {"start", "half", "second"}
SetupModes == {"unregistered", "construct", "password"}

Case ==
    {k \in [chain : Chains, mode : Modes, at : 1..MaxLen, place : Places, want : Wants, before : {"none", "plain", "crypt"}] :
        /\ k.at <= Len(k.chain)
        /\ k.mode = "password" => k.chain[k.at] = "crypt"
        /\ k.mode \in SetupModes \cup {"none"} => k.place = "start"
        /\ k.mode \in {"storage", "none", "garbage"} => k.at = 1
        \* An encrypted stream that ends early is taken for what a wrong
        \* password leads to, which is left open.
        /\ k.mode = "early" => \A n \in DOMAIN k.chain : k.chain[n] = "plain"
        /\ k.mode = "garbage" => k.want = "header" /\ k.place = "start"
        /\ k.want = "header" => k.before = "none" /\ k.place # "second"
        \* The decoder has to become idle in the first place.
        /\ k.want = "idle" => k.place # "start" /\ k.mode \notin SetupModes \cup {"none"}
        /\ k.want = "first" => k.place # "second"}

Init == c \in Case /\ phase = "setup" /\ i = 1 /\ setup = <<>> /\ out = [stage |-> "none", hint |-> FALSE]

Involved(s) == \E n \in DOMAIN s : s[n] = "crypt"
Fail(stage, s) ==
    /\ phase' = "done"
    /\ out' = [stage |-> IF c.want = "header" THEN "archive" ELSE stage, hint |-> Involved(s)]
    /\ setup' = s
    /\ UNCHANGED <<c, i>>

\* A step is looked up, made and, if it decrypts, given the password.
SetUp ==
    /\ phase = "setup" /\ i <= Len(c.chain)
    /\ IF c.mode \in {"unregistered", "construct"} /\ c.at = i
       THEN Fail("open", setup)
       ELSE IF c.mode = "password" /\ c.at = i
       THEN Fail("open", Append(setup, c.chain[i]))
       ELSE setup' = Append(setup, c.chain[i]) /\ i' = i + 1 /\ UNCHANGED <<c, phase, out>>

Ready ==
    /\ phase = "setup" /\ i > Len(c.chain)
    /\ phase' = "flow"
    /\ UNCHANGED <<c, i, setup, out>>

\* Opening passes over what comes before the file, reading comes after that.
Flow ==
    /\ phase = "flow"
    /\ IF c.mode = "none"
       THEN phase' = "done" /\ UNCHANGED <<c, i, setup, out>>
       ELSE LET opening == c.want \in {"second", "idle"} /\ c.place \in {"start", "half"}
            IN  Fail(IF opening THEN "open" ELSE "read", setup)

Next == SetUp \/ Ready \/ Flow
Spec == Init /\ [][Next]_vars

\* C16
Done == phase = "done" /\ out.stage # "none"
NoFalseHint == Done /\ out.hint => \E n \in DOMAIN c.chain : c.chain[n] = "crypt"
\* Once everything is set up the hint is exact.
Exact == Done /\ c.mode \notin SetupModes => (out.hint <=> \E n \in DOMAIN c.chain : c.chain[n] = "crypt")
PasswordHint == Done /\ c.mode = "password" => out.hint

Emit == phase' = "done" => PrintT(ToJson([c |-> c, out |-> out']))
=============================================================================
