--------------------------- MODULE ConcurrentTrace ---------------------------
(***************************************************************************)
(* Whether what goroutines were seen to do is a behaviour of ConcurrentPool: *)
(* calls and their returns, decoders that are created, used and closed, and   *)
(* by whom.  Taking a decoder and giving it back cannot be seen.            *)
(***************************************************************************)
EXTENDS ConcurrentPool, IOUtils

VARIABLES t, i
all == <<vars, t, i>>

Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)
Ev == Traces[t].ev[i]
More == i <= Len(Traces[t].ev)

TraceInit ==
    /\ t \in DOMAIN Traces /\ i = 1
    /\ prog = [p \in Procs |-> IF p \in DOMAIN Traces[t].prog THEN Traces[t].prog[p] ELSE <<>>]
    /\ idle = [s \in DOMAIN Streams |-> <<>>]
    /\ dec = <<>>
    /\ pr = [p \in Procs |-> Rest(1)]

Seen(op) == More /\ Ev.op = op /\ i' = i + 1
p0 == Ev.p

Visible ==
    \/ Seen("open") /\ CallOpen(p0)
    \/ Seen("create") /\ Create(p0) /\ Ev.d = Len(dec) + 1
    \/ Seen("use") /\ pr[p0].pc \in {"seek", "open"} /\ pr[p0].d = Ev.d /\ UNCHANGED vars
    \/ Seen("opened") /\ RetOpen(p0)
    \/ Seen("got") /\ Read(p0) /\ pr'[p0].got = pr[p0].got + Ev.n
    \/ Seen("close") /\ CallClose(p0)
    \/ Seen("gone") /\ Dispose(p0) /\ pr[p0].gone = Ev.d
    \/ Seen("closed") /\ RetClose(p0)

\* Moving a decoder only matters to who holds it, so that any time will do.
Silent ==
    /\ More
    /\ \/ \E p \in Procs : Take(p) \/ Give(p)
       \/ Ev.op = "opened" /\ Seek(p0)
    /\ UNCHANGED i

TraceNext == (Visible \/ Silent) /\ UNCHANGED t
TraceSpec == TraceInit /\ [][TraceNext]_all

Report == i' <= Len(Traces[t].ev) \/ PrintT(ToJson([done |-> Traces[t].id]))
=============================================================================
