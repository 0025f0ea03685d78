---------------------------- MODULE ChannelTrace ----------------------------
EXTENDS Channel, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
Ev == Trace[l]
Is(o) == l <= Len(Trace) /\ Ev.op = o /\ l' = l + 1
TInit == Init /\ l = 1
TReset == /\ Is("reset") /\ sent' = [d \in Dir |-> 0] /\ pos' = [d \in Dir |-> 0]
          /\ read' = [d \in Dir |-> <<>>] /\ cut' = [d \in Dir |-> FALSE]
TWrite == Is("write") /\ Ev.ok /\ Write(Ev.p)
TBig == Is("toobig") /\ ~Ev.ok /\ WriteTooBig(Ev.p)
Fr == [s |-> Ev.n, d |-> Ev.q, i |-> Ev.i, mut |-> Ev.b]
\* A failed read may or may not use up a position: users close the channel then.
TRead == /\ Is("read") /\ (Ev.ok <=> Genuine(Ev.p, Fr)) /\ (Ev.ok => Ev.match)
         /\ \/ Read(Ev.p, Fr)
            \/ ~Ev.ok /\ UNCHANGED vars
TCut == Is("cut") /\ Cut(Ev.p) /\ ~Ev.ok
TBurst == Is("burst") /\ Ev.ok
          /\ ~cut[Ev.p] /\ sent[Ev.p] = pos[Ev.p]
          /\ sent' = [sent EXCEPT ![Ev.p] = @ + Ev.n] /\ pos' = [pos EXCEPT ![Ev.p] = @ + Ev.n]
          /\ UNCHANGED <<read, cut>>
TNext == TReset \/ TWrite \/ TBig \/ TRead \/ TCut \/ TBurst
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
