------------------------------ MODULE TagTrace ------------------------------
(* Recorded invocations and returns of concurrent calls.  The state is the set *)
(* of all configurations of the pool that explain what was recorded so far;    *)
(* the atomic effects happen anywhere between invocation and return.           *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, IOUtils
CONSTANTS Threads
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l
tvars == <<S, l>>
Ev == Trace[l]
Idle == [op |-> "idle", x |-> 0]
Start(depth, blocking) == [avail |-> 0..(depth - 1), pend |-> [t \in Threads |-> Idle], depth |-> depth, blk |-> blocking]
Set(c, t, op, x) == [c EXCEPT !.pend[t] = [op |-> op, x |-> x]]
Pop(c, t) ==
    {[Set(c, t, "ok", x) EXCEPT !.avail = @ \ {x}] : x \in c.avail}
    \cup IF ~c.blk /\ c.avail = {} THEN {Set(c, t, "err", 0)} ELSE {}
Push(c, t) ==
    IF Cardinality(c.avail) = c.depth
    THEN IF c.blk THEN {} ELSE {Set(c, t, "err", 0)}
    ELSE IF c.pend[t].x \in c.avail THEN {}
    ELSE {[Set(c, t, "ok", c.pend[t].x) EXCEPT !.avail = @ \cup {c.pend[t].x}]}
Steps(c) == UNION {CASE c.pend[t].op = "pop" -> Pop(c, t) [] c.pend[t].op = "push" -> Push(c, t) [] OTHER -> {} : t \in Threads}
RECURSIVE Close(_, _)
Close(all, new) == IF new = {} THEN all
                   ELSE LET n == (UNION {Steps(c) : c \in new}) \ all IN Close(all \cup n, n)
Quiet(c) == \A t \in Threads : c.pend[t].op = "idle" \/ (c.pend[t].op = "pop" /\ c.avail = {})
After ==
    CASE Ev.op = "reset" -> {Start(Ev.depth, Ev.blocking)}
      [] Ev.op = "inv" -> {Set(c, Ev.t, Ev.kind, Ev.x) : c \in S}
      [] Ev.op = "ret" -> LET o == IF Ev.ok THEN "ok" ELSE "err" IN
            {Set(c, Ev.t, "idle", 0) : c \in {d \in Close(S, S) : d.pend[Ev.t].op = o /\ (Ev.ok => d.pend[Ev.t].x = Ev.x)}}
      [] Ev.op = "quiet" -> {c \in Close(S, S) : Quiet(c)}
      [] OTHER -> {}
TInit == S = {} /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ S' = After /\ S' /= {}
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
